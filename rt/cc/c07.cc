// Generated by gen_c07.py.
#include "rt/cc/c07.hpp"
#include "rt/src/c07.rs.h"
#include <limits>
#include <set>
namespace c07 {
static std::set<std::uint64_t> *ids = new std::set<std::uint64_t>();
static std::uint64_t next_id = 1;
static std::int64_t nlive = 0;
static bool isbad = false;
std::int64_t live() noexcept { return nlive; }
bool bad() noexcept { return isbad; }
static const char *texts[] = {
    "", "one", "a text longer than any small string buffer", "\xf0\x9f\xa6\x80"};
void string_set(std::string &s, std::int32_t k) { s = texts[k]; }
Tracked tracked_mk(std::int32_t k) { return Tracked(k); }
template <typename T> struct Tr {
  static T mk(int k) {
    using L = std::numeric_limits<T>;
    switch (k) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return L::max();
    default: return std::is_floating_point<T>::value ? T(-1.5) : std::is_signed<T>::value ? L::min() : T(L::max() - 1);
    }
  }
  static bool eq(const T &x, const T &y) { return x == y; }
};
template <> struct Tr<std::string> {
  static std::string mk(int k) { return texts[k]; }
  static bool eq(const std::string &x, const std::string &y) { return x == y; }
};
template <> struct Tr<Sh> {
  static Sh mk(int k) { return Sh{texts[k], k}; }
  static bool eq(const Sh &x, const Sh &y) { return std::string(x.s) == std::string(y.s) && x.n == y.n; }
};
template <> struct Tr<P3> {
  static P3 mk(int k) { auto c = static_cast<std::uint8_t>(k); return P3{c, c, c}; }
  static bool eq(const P3 &x, const P3 &y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
template <> struct Tr<En> {
  static En mk(int k) { const En e[] = {En::A, En::B, En::C, En::D}; return e[k]; }
  static bool eq(En x, En y) { return x == y; }
};
template <> struct Tr<Obj> {
  static Obj mk(int k) { return Obj(k); }
  static bool eq(const Obj &x, const Obj &y) { return x.oval() == y.val; }
};
template <> struct Tr<Tracked> {
  static Tracked mk(int k) { return Tracked(k); }
  static bool eq(const Tracked &x, const Tracked &y) { return x.val == y.val; }
};
template <typename T> void push(std::vector<T> &v, int k) { v.push_back(Tr<T>::mk(k)); }
template <typename T> void resize(std::vector<T> &v, std::size_t n) {
  while (v.size() > n) v.pop_back();
  while (v.size() < n) v.push_back(Tr<T>::mk(0));
}
template <typename T> void erase(std::vector<T> &v) { if (!v.empty()) v.erase(v.begin()); }
template <typename T> std::unique_ptr<std::vector<T>> make(std::size_t n) {
  auto p = std::make_unique<std::vector<T>>();
  for (std::size_t i = 0; i < n; i++) push(*p, int(i % 4));
  return p;
}
template <typename T> Look look(const std::vector<T> &v) {
  Look l;
  l.len = v.size();
  l.addr = reinterpret_cast<std::size_t>(&v);
  l.hash = 7;
  l.ok = true;
  for (auto &x : v) {
    int f = -1;
    for (int k = 3; k >= 0; k--) if (Tr<T>::eq(x, Tr<T>::mk(k))) f = k;
    if (f < 0) l.ok = false;
    l.hash = l.hash * 31 + static_cast<std::uint64_t>(f);
  }
  return l;
}
void cpush_u8(V_u8 &v, std::int32_t k) { push(v, k); }
void cresize_u8(V_u8 &v, std::size_t n) { resize(v, n); }
void cerase_u8(V_u8 &v) { erase(v); }
void cswap_u8(V_u8 &a, V_u8 &b) { a.swap(b); }
void ccopy_u8(V_u8 &a, const V_u8 &b) { V_u8 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_u8> cmake_u8(std::size_t n) { return make<V_u8::value_type>(n); }
Look clook_u8(const V_u8 &v) { return look(v); }
std::size_t cat_u8(const V_u8 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_u8 &crefl_u8(V_u8 &v) { return v; }
void cpush_u16(V_u16 &v, std::int32_t k) { push(v, k); }
void cresize_u16(V_u16 &v, std::size_t n) { resize(v, n); }
void cerase_u16(V_u16 &v) { erase(v); }
void cswap_u16(V_u16 &a, V_u16 &b) { a.swap(b); }
void ccopy_u16(V_u16 &a, const V_u16 &b) { V_u16 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_u16> cmake_u16(std::size_t n) { return make<V_u16::value_type>(n); }
Look clook_u16(const V_u16 &v) { return look(v); }
std::size_t cat_u16(const V_u16 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_u16 &crefl_u16(V_u16 &v) { return v; }
void cpush_u32(V_u32 &v, std::int32_t k) { push(v, k); }
void cresize_u32(V_u32 &v, std::size_t n) { resize(v, n); }
void cerase_u32(V_u32 &v) { erase(v); }
void cswap_u32(V_u32 &a, V_u32 &b) { a.swap(b); }
void ccopy_u32(V_u32 &a, const V_u32 &b) { V_u32 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_u32> cmake_u32(std::size_t n) { return make<V_u32::value_type>(n); }
Look clook_u32(const V_u32 &v) { return look(v); }
std::size_t cat_u32(const V_u32 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_u32 &crefl_u32(V_u32 &v) { return v; }
void cpush_u64(V_u64 &v, std::int32_t k) { push(v, k); }
void cresize_u64(V_u64 &v, std::size_t n) { resize(v, n); }
void cerase_u64(V_u64 &v) { erase(v); }
void cswap_u64(V_u64 &a, V_u64 &b) { a.swap(b); }
void ccopy_u64(V_u64 &a, const V_u64 &b) { V_u64 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_u64> cmake_u64(std::size_t n) { return make<V_u64::value_type>(n); }
Look clook_u64(const V_u64 &v) { return look(v); }
std::size_t cat_u64(const V_u64 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_u64 &crefl_u64(V_u64 &v) { return v; }
void cpush_usize(V_usize &v, std::int32_t k) { push(v, k); }
void cresize_usize(V_usize &v, std::size_t n) { resize(v, n); }
void cerase_usize(V_usize &v) { erase(v); }
void cswap_usize(V_usize &a, V_usize &b) { a.swap(b); }
void ccopy_usize(V_usize &a, const V_usize &b) { V_usize t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_usize> cmake_usize(std::size_t n) { return make<V_usize::value_type>(n); }
Look clook_usize(const V_usize &v) { return look(v); }
std::size_t cat_usize(const V_usize &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_usize &crefl_usize(V_usize &v) { return v; }
void cpush_i8(V_i8 &v, std::int32_t k) { push(v, k); }
void cresize_i8(V_i8 &v, std::size_t n) { resize(v, n); }
void cerase_i8(V_i8 &v) { erase(v); }
void cswap_i8(V_i8 &a, V_i8 &b) { a.swap(b); }
void ccopy_i8(V_i8 &a, const V_i8 &b) { V_i8 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_i8> cmake_i8(std::size_t n) { return make<V_i8::value_type>(n); }
Look clook_i8(const V_i8 &v) { return look(v); }
std::size_t cat_i8(const V_i8 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_i8 &crefl_i8(V_i8 &v) { return v; }
void cpush_i16(V_i16 &v, std::int32_t k) { push(v, k); }
void cresize_i16(V_i16 &v, std::size_t n) { resize(v, n); }
void cerase_i16(V_i16 &v) { erase(v); }
void cswap_i16(V_i16 &a, V_i16 &b) { a.swap(b); }
void ccopy_i16(V_i16 &a, const V_i16 &b) { V_i16 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_i16> cmake_i16(std::size_t n) { return make<V_i16::value_type>(n); }
Look clook_i16(const V_i16 &v) { return look(v); }
std::size_t cat_i16(const V_i16 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_i16 &crefl_i16(V_i16 &v) { return v; }
void cpush_i32(V_i32 &v, std::int32_t k) { push(v, k); }
void cresize_i32(V_i32 &v, std::size_t n) { resize(v, n); }
void cerase_i32(V_i32 &v) { erase(v); }
void cswap_i32(V_i32 &a, V_i32 &b) { a.swap(b); }
void ccopy_i32(V_i32 &a, const V_i32 &b) { V_i32 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_i32> cmake_i32(std::size_t n) { return make<V_i32::value_type>(n); }
Look clook_i32(const V_i32 &v) { return look(v); }
std::size_t cat_i32(const V_i32 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_i32 &crefl_i32(V_i32 &v) { return v; }
void cpush_i64(V_i64 &v, std::int32_t k) { push(v, k); }
void cresize_i64(V_i64 &v, std::size_t n) { resize(v, n); }
void cerase_i64(V_i64 &v) { erase(v); }
void cswap_i64(V_i64 &a, V_i64 &b) { a.swap(b); }
void ccopy_i64(V_i64 &a, const V_i64 &b) { V_i64 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_i64> cmake_i64(std::size_t n) { return make<V_i64::value_type>(n); }
Look clook_i64(const V_i64 &v) { return look(v); }
std::size_t cat_i64(const V_i64 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_i64 &crefl_i64(V_i64 &v) { return v; }
void cpush_isize(V_isize &v, std::int32_t k) { push(v, k); }
void cresize_isize(V_isize &v, std::size_t n) { resize(v, n); }
void cerase_isize(V_isize &v) { erase(v); }
void cswap_isize(V_isize &a, V_isize &b) { a.swap(b); }
void ccopy_isize(V_isize &a, const V_isize &b) { V_isize t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_isize> cmake_isize(std::size_t n) { return make<V_isize::value_type>(n); }
Look clook_isize(const V_isize &v) { return look(v); }
std::size_t cat_isize(const V_isize &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_isize &crefl_isize(V_isize &v) { return v; }
void cpush_f32(V_f32 &v, std::int32_t k) { push(v, k); }
void cresize_f32(V_f32 &v, std::size_t n) { resize(v, n); }
void cerase_f32(V_f32 &v) { erase(v); }
void cswap_f32(V_f32 &a, V_f32 &b) { a.swap(b); }
void ccopy_f32(V_f32 &a, const V_f32 &b) { V_f32 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_f32> cmake_f32(std::size_t n) { return make<V_f32::value_type>(n); }
Look clook_f32(const V_f32 &v) { return look(v); }
std::size_t cat_f32(const V_f32 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_f32 &crefl_f32(V_f32 &v) { return v; }
void cpush_f64(V_f64 &v, std::int32_t k) { push(v, k); }
void cresize_f64(V_f64 &v, std::size_t n) { resize(v, n); }
void cerase_f64(V_f64 &v) { erase(v); }
void cswap_f64(V_f64 &a, V_f64 &b) { a.swap(b); }
void ccopy_f64(V_f64 &a, const V_f64 &b) { V_f64 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_f64> cmake_f64(std::size_t n) { return make<V_f64::value_type>(n); }
Look clook_f64(const V_f64 &v) { return look(v); }
std::size_t cat_f64(const V_f64 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_f64 &crefl_f64(V_f64 &v) { return v; }
void cpush_string(V_string &v, std::int32_t k) { push(v, k); }
void cresize_string(V_string &v, std::size_t n) { resize(v, n); }
void cerase_string(V_string &v) { erase(v); }
void cswap_string(V_string &a, V_string &b) { a.swap(b); }
void ccopy_string(V_string &a, const V_string &b) { V_string t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_string> cmake_string(std::size_t n) { return make<V_string::value_type>(n); }
Look clook_string(const V_string &v) { return look(v); }
std::size_t cat_string(const V_string &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_string &crefl_string(V_string &v) { return v; }
void cpush_sh(V_sh &v, std::int32_t k) { push(v, k); }
void cresize_sh(V_sh &v, std::size_t n) { resize(v, n); }
void cerase_sh(V_sh &v) { erase(v); }
void cswap_sh(V_sh &a, V_sh &b) { a.swap(b); }
void ccopy_sh(V_sh &a, const V_sh &b) { V_sh t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_sh> cmake_sh(std::size_t n) { return make<V_sh::value_type>(n); }
Look clook_sh(const V_sh &v) { return look(v); }
std::size_t cat_sh(const V_sh &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_sh &crefl_sh(V_sh &v) { return v; }
void cpush_p3(V_p3 &v, std::int32_t k) { push(v, k); }
void cresize_p3(V_p3 &v, std::size_t n) { resize(v, n); }
void cerase_p3(V_p3 &v) { erase(v); }
void cswap_p3(V_p3 &a, V_p3 &b) { a.swap(b); }
void ccopy_p3(V_p3 &a, const V_p3 &b) { V_p3 t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_p3> cmake_p3(std::size_t n) { return make<V_p3::value_type>(n); }
Look clook_p3(const V_p3 &v) { return look(v); }
std::size_t cat_p3(const V_p3 &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_p3 &crefl_p3(V_p3 &v) { return v; }
void cpush_en(V_en &v, std::int32_t k) { push(v, k); }
void cresize_en(V_en &v, std::size_t n) { resize(v, n); }
void cerase_en(V_en &v) { erase(v); }
void cswap_en(V_en &a, V_en &b) { a.swap(b); }
void ccopy_en(V_en &a, const V_en &b) { V_en t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_en> cmake_en(std::size_t n) { return make<V_en::value_type>(n); }
Look clook_en(const V_en &v) { return look(v); }
std::size_t cat_en(const V_en &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_en &crefl_en(V_en &v) { return v; }
void cpush_obj(V_obj &v, std::int32_t k) { push(v, k); }
void cresize_obj(V_obj &v, std::size_t n) { resize(v, n); }
void cerase_obj(V_obj &v) { erase(v); }
void cswap_obj(V_obj &a, V_obj &b) { a.swap(b); }
void ccopy_obj(V_obj &a, const V_obj &b) { V_obj t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_obj> cmake_obj(std::size_t n) { return make<V_obj::value_type>(n); }
Look clook_obj(const V_obj &v) { return look(v); }
std::size_t cat_obj(const V_obj &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_obj &crefl_obj(V_obj &v) { return v; }
void cpush_tracked(V_tracked &v, std::int32_t k) { push(v, k); }
void cresize_tracked(V_tracked &v, std::size_t n) { resize(v, n); }
void cerase_tracked(V_tracked &v) { erase(v); }
void cswap_tracked(V_tracked &a, V_tracked &b) { a.swap(b); }
void ccopy_tracked(V_tracked &a, const V_tracked &b) { V_tracked t; for (auto &x : b) t.push_back(x); a = std::move(t); }
std::unique_ptr<V_tracked> cmake_tracked(std::size_t n) { return make<V_tracked::value_type>(n); }
Look clook_tracked(const V_tracked &v) { return look(v); }
std::size_t cat_tracked(const V_tracked &v, std::size_t i) { return reinterpret_cast<std::size_t>(&v[i]); }
V_tracked &crefl_tracked(V_tracked &v) { return v; }
} // namespace c07
extern "C" {
std::uint64_t vk7_new() {
  c07::nlive++;
  c07::ids->insert(c07::next_id);
  return c07::next_id++;
}
void vk7_drop(std::uint64_t id) {
  if (id == 0)
    return;
  if (!c07::ids->erase(id))
    c07::isbad = true;
  else
    c07::nlive--;
}
}
