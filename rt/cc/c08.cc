// Generated by gen_c08.py.
#include "rt/cc/c08.hpp"
#include "rt/src/c08.rs.h"
#include <limits>
#include <set>
namespace c08 {
static std::set<std::uint64_t> *ids = new std::set<std::uint64_t>();
static std::uint64_t next_id = 1;
static std::int64_t nlive = 0;
static bool isbad = false;
std::int64_t own = 0;
std::int64_t live() noexcept { return nlive; }
bool bad() noexcept { return isbad; }
std::int64_t own_news() noexcept { return own; }
static const char *texts[] = {
    "", "one", "a text longer than any small string buffer", "\xf0\x9f\xa6\x80"};
void string_set(std::string &s, std::int32_t k) { s = texts[k]; }
void vstring_set(std::vector<std::string> &v, std::int32_t k) { v[1] = texts[k]; }
Tracked tracked_mk(std::int32_t k) { return Tracked(k); }
void vobj_set(std::vector<Obj> &v, std::int32_t k) { v[1].oset(k); }
std::int32_t vobj_val(const std::vector<Obj> &v) { return v.size() == 2 ? v[1].oval() : -1; }
struct Other {
  virtual ~Other() {}
  std::int64_t junk = 5;
};
struct Derived : Other, Poly { // Poly at a non-zero offset
  Base b;
  Derived(int k) : b(k) {}
  std::int32_t pval() const noexcept override { return junk == 5 ? b.val : -2; }
  void pset(std::int32_t k) noexcept override { b.val = k; }
};
template <typename T> struct Tr {
  using L = std::numeric_limits<T>;
  static T mk(int k) {
    if (std::is_same<T, bool>::value) return T(k & 1);
    switch (k) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return L::max();
    default: return std::is_floating_point<T>::value ? T(-1.5) : std::is_signed<T>::value ? L::min() : T(L::max() - 1);
    }
  }
  static T *create(int k) { return new T(mk(k)); }
  static int val(const T &x) {
    for (int k = 0; k < 4; k++) if (x == mk(k)) return k;
    return -1;
  }
};
template <> struct Tr<std::string> {
  static std::string *create(int k) { return new std::string(texts[k]); }
  static int val(const std::string &x) { for (int k = 0; k < 4; k++) if (x == texts[k]) return k; return -1; }
};
template <> struct Tr<Sh> {
  static Sh *create(int k) { return new Sh{k, texts[k]}; }
  static int val(const Sh &x) { return std::string(x.s) == texts[x.n] ? x.n : -1; }
};
template <> struct Tr<P3> {
  static P3 *create(int k) { auto c = static_cast<std::uint8_t>(k); return new P3{c, c, c}; }
  static int val(const P3 &x) { return x.a == x.b && x.b == x.c ? x.a : -1; }
};
template <> struct Tr<En> {
  static En *create(int k) { const En e[] = {En::A, En::B, En::C, En::D}; return new En(e[k]); }
  static int val(En x) { return x == En::D ? 3 : int(x); }
};
template <> struct Tr<Obj> {
  static Obj *create(int k) { return new Obj(k); }
  static int val(const Obj &x) { return x.oval(); }
};
template <> struct Tr<Poly> {
  static Poly *create(int k) { return new Derived(k); }
  static int val(const Poly &x) { return x.pval(); }
};
template <> struct Tr<Tracked> {
  static Tracked *create(int k) { return new Tracked(k); }
  static int val(const Tracked &x) { return x.val; }
};
template <> struct Tr<TrackedA> {
  static TrackedA *create(int k) { return new TrackedA(k); }
  static int val(const TrackedA &x) { return reinterpret_cast<std::uintptr_t>(&x) % 32 ? -1 : x.t.val; }
};
template <> struct Tr<std::vector<Obj>> {
  static std::vector<Obj> *create(int k) { auto p = new std::vector<Obj>(2); (*p)[1].oset(k); return p; }
  static int val(const std::vector<Obj> &x) { return vobj_val(x); }
};
template <typename T> struct Tr<std::vector<T>> {
  static std::vector<T> *create(int k) {
    auto p = new std::vector<T>();
    for (int j : {0, k}) { std::unique_ptr<T> e(Tr<T>::create(j)); p->push_back(std::move(*e)); }
    return p;
  }
  static int val(const std::vector<T> &x) { return x.size() == 2 ? Tr<T>::val(x[1]) : -1; }
};
template <> struct Tr<std::vector<std::int32_t>> {
  static std::vector<std::int32_t> *create(int k) { return new std::vector<std::int32_t>{0, k}; }
  static int val(const std::vector<std::int32_t> &x) { return x.size() == 2 ? x[1] : -1; }
};
template <typename T> Look look(const T *p) {
  Look l;
  l.null = !p;
  l.val = p ? Tr<T>::val(*p) : -9;
  l.addr = reinterpret_cast<std::size_t>(p);
  return l;
}
template <typename T> std::shared_ptr<T> &slot() {
  static auto *p = new std::shared_ptr<T>();
  return *p;
}
std::unique_ptr<Obj> umake_obj(std::int32_t k) { return std::unique_ptr<Obj>(k < 0 ? nullptr : Tr<Obj>::create(k)); }
std::int32_t utake_obj(std::unique_ptr<Obj> p) { return look<Obj>(p.get()).val; }
std::unique_ptr<Obj> uecho_obj(std::unique_ptr<Obj> p) { return p; }
void ureset_obj(std::unique_ptr<Obj> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<Obj>::create(k)); }
Look ulook_obj(const std::unique_ptr<Obj> &p) { return look<Obj>(p.get()); }
std::unique_ptr<Poly> umake_poly(std::int32_t k) { return std::unique_ptr<Poly>(k < 0 ? nullptr : Tr<Poly>::create(k)); }
std::int32_t utake_poly(std::unique_ptr<Poly> p) { return look<Poly>(p.get()).val; }
std::unique_ptr<Poly> uecho_poly(std::unique_ptr<Poly> p) { return p; }
void ureset_poly(std::unique_ptr<Poly> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<Poly>::create(k)); }
Look ulook_poly(const std::unique_ptr<Poly> &p) { return look<Poly>(p.get()); }
std::unique_ptr<Sh> umake_sh(std::int32_t k) { return std::unique_ptr<Sh>(k < 0 ? nullptr : Tr<Sh>::create(k)); }
std::int32_t utake_sh(std::unique_ptr<Sh> p) { return look<Sh>(p.get()).val; }
std::unique_ptr<Sh> uecho_sh(std::unique_ptr<Sh> p) { return p; }
void ureset_sh(std::unique_ptr<Sh> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<Sh>::create(k)); }
Look ulook_sh(const std::unique_ptr<Sh> &p) { return look<Sh>(p.get()); }
std::unique_ptr<P3> umake_p3(std::int32_t k) { return std::unique_ptr<P3>(k < 0 ? nullptr : Tr<P3>::create(k)); }
std::int32_t utake_p3(std::unique_ptr<P3> p) { return look<P3>(p.get()).val; }
std::unique_ptr<P3> uecho_p3(std::unique_ptr<P3> p) { return p; }
void ureset_p3(std::unique_ptr<P3> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<P3>::create(k)); }
Look ulook_p3(const std::unique_ptr<P3> &p) { return look<P3>(p.get()); }
std::unique_ptr<En> umake_en(std::int32_t k) { return std::unique_ptr<En>(k < 0 ? nullptr : Tr<En>::create(k)); }
std::int32_t utake_en(std::unique_ptr<En> p) { return look<En>(p.get()).val; }
std::unique_ptr<En> uecho_en(std::unique_ptr<En> p) { return p; }
void ureset_en(std::unique_ptr<En> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<En>::create(k)); }
Look ulook_en(const std::unique_ptr<En> &p) { return look<En>(p.get()); }
std::unique_ptr<Tracked> umake_tracked(std::int32_t k) { return std::unique_ptr<Tracked>(k < 0 ? nullptr : Tr<Tracked>::create(k)); }
std::int32_t utake_tracked(std::unique_ptr<Tracked> p) { return look<Tracked>(p.get()).val; }
std::unique_ptr<Tracked> uecho_tracked(std::unique_ptr<Tracked> p) { return p; }
void ureset_tracked(std::unique_ptr<Tracked> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<Tracked>::create(k)); }
Look ulook_tracked(const std::unique_ptr<Tracked> &p) { return look<Tracked>(p.get()); }
std::unique_ptr<TrackedA> umake_trackeda(std::int32_t k) { return std::unique_ptr<TrackedA>(k < 0 ? nullptr : Tr<TrackedA>::create(k)); }
std::int32_t utake_trackeda(std::unique_ptr<TrackedA> p) { return look<TrackedA>(p.get()).val; }
std::unique_ptr<TrackedA> uecho_trackeda(std::unique_ptr<TrackedA> p) { return p; }
void ureset_trackeda(std::unique_ptr<TrackedA> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<TrackedA>::create(k)); }
Look ulook_trackeda(const std::unique_ptr<TrackedA> &p) { return look<TrackedA>(p.get()); }
std::unique_ptr<std::string> umake_string(std::int32_t k) { return std::unique_ptr<std::string>(k < 0 ? nullptr : Tr<std::string>::create(k)); }
std::int32_t utake_string(std::unique_ptr<std::string> p) { return look<std::string>(p.get()).val; }
std::unique_ptr<std::string> uecho_string(std::unique_ptr<std::string> p) { return p; }
void ureset_string(std::unique_ptr<std::string> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<std::string>::create(k)); }
Look ulook_string(const std::unique_ptr<std::string> &p) { return look<std::string>(p.get()); }
std::unique_ptr<std::vector<std::int32_t>> umake_vi32(std::int32_t k) { return std::unique_ptr<std::vector<std::int32_t>>(k < 0 ? nullptr : Tr<std::vector<std::int32_t>>::create(k)); }
std::int32_t utake_vi32(std::unique_ptr<std::vector<std::int32_t>> p) { return look<std::vector<std::int32_t>>(p.get()).val; }
std::unique_ptr<std::vector<std::int32_t>> uecho_vi32(std::unique_ptr<std::vector<std::int32_t>> p) { return p; }
void ureset_vi32(std::unique_ptr<std::vector<std::int32_t>> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<std::vector<std::int32_t>>::create(k)); }
Look ulook_vi32(const std::unique_ptr<std::vector<std::int32_t>> &p) { return look<std::vector<std::int32_t>>(p.get()); }
std::unique_ptr<std::vector<std::string>> umake_vstring(std::int32_t k) { return std::unique_ptr<std::vector<std::string>>(k < 0 ? nullptr : Tr<std::vector<std::string>>::create(k)); }
std::int32_t utake_vstring(std::unique_ptr<std::vector<std::string>> p) { return look<std::vector<std::string>>(p.get()).val; }
std::unique_ptr<std::vector<std::string>> uecho_vstring(std::unique_ptr<std::vector<std::string>> p) { return p; }
void ureset_vstring(std::unique_ptr<std::vector<std::string>> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<std::vector<std::string>>::create(k)); }
Look ulook_vstring(const std::unique_ptr<std::vector<std::string>> &p) { return look<std::vector<std::string>>(p.get()); }
std::unique_ptr<std::vector<Sh>> umake_vsh(std::int32_t k) { return std::unique_ptr<std::vector<Sh>>(k < 0 ? nullptr : Tr<std::vector<Sh>>::create(k)); }
std::int32_t utake_vsh(std::unique_ptr<std::vector<Sh>> p) { return look<std::vector<Sh>>(p.get()).val; }
std::unique_ptr<std::vector<Sh>> uecho_vsh(std::unique_ptr<std::vector<Sh>> p) { return p; }
void ureset_vsh(std::unique_ptr<std::vector<Sh>> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<std::vector<Sh>>::create(k)); }
Look ulook_vsh(const std::unique_ptr<std::vector<Sh>> &p) { return look<std::vector<Sh>>(p.get()); }
std::unique_ptr<std::vector<Obj>> umake_vobj(std::int32_t k) { return std::unique_ptr<std::vector<Obj>>(k < 0 ? nullptr : Tr<std::vector<Obj>>::create(k)); }
std::int32_t utake_vobj(std::unique_ptr<std::vector<Obj>> p) { return look<std::vector<Obj>>(p.get()).val; }
std::unique_ptr<std::vector<Obj>> uecho_vobj(std::unique_ptr<std::vector<Obj>> p) { return p; }
void ureset_vobj(std::unique_ptr<std::vector<Obj>> &p, std::int32_t k) { p.reset(k < 0 ? nullptr : Tr<std::vector<Obj>>::create(k)); }
Look ulook_vobj(const std::unique_ptr<std::vector<Obj>> &p) { return look<std::vector<Obj>>(p.get()); }
std::shared_ptr<Obj> smake_obj(std::int32_t k) { return k < 0 ? std::shared_ptr<Obj>() : std::shared_ptr<Obj>(Tr<Obj>::create(k)); }
std::int32_t stake_obj(std::shared_ptr<Obj> p) { return look<Obj>(p.get()).val; }
std::shared_ptr<Obj> secho_obj(std::shared_ptr<Obj> p) { return p; }
void sreset_obj(std::shared_ptr<Obj> &p, std::int32_t k) { p.reset(Tr<Obj>::create(k)); }
Look slook_obj(const std::shared_ptr<Obj> &p) { return look<Obj>(p.get()); }
std::int64_t suse_obj(const std::shared_ptr<Obj> &p) { return p.use_count(); }
std::shared_ptr<Obj> salias_obj(const std::shared_ptr<Obj> &p) { return std::shared_ptr<Obj>(p, p.get()); }
void hold_obj(const std::shared_ptr<Obj> &p) { slot<Obj>() = p; }
std::shared_ptr<Obj> held_obj() { return slot<Obj>(); }
std::weak_ptr<Obj> wmake_obj(std::shared_ptr<Obj> p) { return p; }
std::weak_ptr<Obj> wecho_obj(std::weak_ptr<Obj> p) { return p; }
Look wlook_obj(const std::weak_ptr<Obj> &p) { auto s = p.lock(); return look<Obj>(s.get()); }
std::shared_ptr<Poly> smake_poly(std::int32_t k) { return k < 0 ? std::shared_ptr<Poly>() : std::shared_ptr<Poly>(Tr<Poly>::create(k)); }
std::int32_t stake_poly(std::shared_ptr<Poly> p) { return look<Poly>(p.get()).val; }
std::shared_ptr<Poly> secho_poly(std::shared_ptr<Poly> p) { return p; }
void sreset_poly(std::shared_ptr<Poly> &p, std::int32_t k) { p.reset(Tr<Poly>::create(k)); }
Look slook_poly(const std::shared_ptr<Poly> &p) { return look<Poly>(p.get()); }
std::int64_t suse_poly(const std::shared_ptr<Poly> &p) { return p.use_count(); }
std::shared_ptr<Poly> salias_poly(const std::shared_ptr<Poly> &p) { return std::shared_ptr<Poly>(p, p.get()); }
void hold_poly(const std::shared_ptr<Poly> &p) { slot<Poly>() = p; }
std::shared_ptr<Poly> held_poly() { return slot<Poly>(); }
std::weak_ptr<Poly> wmake_poly(std::shared_ptr<Poly> p) { return p; }
std::weak_ptr<Poly> wecho_poly(std::weak_ptr<Poly> p) { return p; }
Look wlook_poly(const std::weak_ptr<Poly> &p) { auto s = p.lock(); return look<Poly>(s.get()); }
std::shared_ptr<Sh> smake_sh(std::int32_t k) { return k < 0 ? std::shared_ptr<Sh>() : std::shared_ptr<Sh>(Tr<Sh>::create(k)); }
std::int32_t stake_sh(std::shared_ptr<Sh> p) { return look<Sh>(p.get()).val; }
std::shared_ptr<Sh> secho_sh(std::shared_ptr<Sh> p) { return p; }
void sreset_sh(std::shared_ptr<Sh> &p, std::int32_t k) { p.reset(Tr<Sh>::create(k)); }
Look slook_sh(const std::shared_ptr<Sh> &p) { return look<Sh>(p.get()); }
std::int64_t suse_sh(const std::shared_ptr<Sh> &p) { return p.use_count(); }
std::shared_ptr<Sh> salias_sh(const std::shared_ptr<Sh> &p) { return std::shared_ptr<Sh>(p, p.get()); }
void hold_sh(const std::shared_ptr<Sh> &p) { slot<Sh>() = p; }
std::shared_ptr<Sh> held_sh() { return slot<Sh>(); }
std::weak_ptr<Sh> wmake_sh(std::shared_ptr<Sh> p) { return p; }
std::weak_ptr<Sh> wecho_sh(std::weak_ptr<Sh> p) { return p; }
Look wlook_sh(const std::weak_ptr<Sh> &p) { auto s = p.lock(); return look<Sh>(s.get()); }
std::shared_ptr<P3> smake_p3(std::int32_t k) { return k < 0 ? std::shared_ptr<P3>() : std::shared_ptr<P3>(Tr<P3>::create(k)); }
std::int32_t stake_p3(std::shared_ptr<P3> p) { return look<P3>(p.get()).val; }
std::shared_ptr<P3> secho_p3(std::shared_ptr<P3> p) { return p; }
void sreset_p3(std::shared_ptr<P3> &p, std::int32_t k) { p.reset(Tr<P3>::create(k)); }
Look slook_p3(const std::shared_ptr<P3> &p) { return look<P3>(p.get()); }
std::int64_t suse_p3(const std::shared_ptr<P3> &p) { return p.use_count(); }
std::shared_ptr<P3> salias_p3(const std::shared_ptr<P3> &p) { return std::shared_ptr<P3>(p, p.get()); }
void hold_p3(const std::shared_ptr<P3> &p) { slot<P3>() = p; }
std::shared_ptr<P3> held_p3() { return slot<P3>(); }
std::weak_ptr<P3> wmake_p3(std::shared_ptr<P3> p) { return p; }
std::weak_ptr<P3> wecho_p3(std::weak_ptr<P3> p) { return p; }
Look wlook_p3(const std::weak_ptr<P3> &p) { auto s = p.lock(); return look<P3>(s.get()); }
std::shared_ptr<En> smake_en(std::int32_t k) { return k < 0 ? std::shared_ptr<En>() : std::shared_ptr<En>(Tr<En>::create(k)); }
std::int32_t stake_en(std::shared_ptr<En> p) { return look<En>(p.get()).val; }
std::shared_ptr<En> secho_en(std::shared_ptr<En> p) { return p; }
void sreset_en(std::shared_ptr<En> &p, std::int32_t k) { p.reset(Tr<En>::create(k)); }
Look slook_en(const std::shared_ptr<En> &p) { return look<En>(p.get()); }
std::int64_t suse_en(const std::shared_ptr<En> &p) { return p.use_count(); }
std::shared_ptr<En> salias_en(const std::shared_ptr<En> &p) { return std::shared_ptr<En>(p, p.get()); }
void hold_en(const std::shared_ptr<En> &p) { slot<En>() = p; }
std::shared_ptr<En> held_en() { return slot<En>(); }
std::weak_ptr<En> wmake_en(std::shared_ptr<En> p) { return p; }
std::weak_ptr<En> wecho_en(std::weak_ptr<En> p) { return p; }
Look wlook_en(const std::weak_ptr<En> &p) { auto s = p.lock(); return look<En>(s.get()); }
std::shared_ptr<Tracked> smake_tracked(std::int32_t k) { return k < 0 ? std::shared_ptr<Tracked>() : std::shared_ptr<Tracked>(Tr<Tracked>::create(k)); }
std::int32_t stake_tracked(std::shared_ptr<Tracked> p) { return look<Tracked>(p.get()).val; }
std::shared_ptr<Tracked> secho_tracked(std::shared_ptr<Tracked> p) { return p; }
void sreset_tracked(std::shared_ptr<Tracked> &p, std::int32_t k) { p.reset(Tr<Tracked>::create(k)); }
Look slook_tracked(const std::shared_ptr<Tracked> &p) { return look<Tracked>(p.get()); }
std::int64_t suse_tracked(const std::shared_ptr<Tracked> &p) { return p.use_count(); }
std::shared_ptr<Tracked> salias_tracked(const std::shared_ptr<Tracked> &p) { return std::shared_ptr<Tracked>(p, p.get()); }
void hold_tracked(const std::shared_ptr<Tracked> &p) { slot<Tracked>() = p; }
std::shared_ptr<Tracked> held_tracked() { return slot<Tracked>(); }
std::weak_ptr<Tracked> wmake_tracked(std::shared_ptr<Tracked> p) { return p; }
std::weak_ptr<Tracked> wecho_tracked(std::weak_ptr<Tracked> p) { return p; }
Look wlook_tracked(const std::weak_ptr<Tracked> &p) { auto s = p.lock(); return look<Tracked>(s.get()); }
std::shared_ptr<TrackedA> smake_trackeda(std::int32_t k) { return k < 0 ? std::shared_ptr<TrackedA>() : std::shared_ptr<TrackedA>(Tr<TrackedA>::create(k)); }
std::int32_t stake_trackeda(std::shared_ptr<TrackedA> p) { return look<TrackedA>(p.get()).val; }
std::shared_ptr<TrackedA> secho_trackeda(std::shared_ptr<TrackedA> p) { return p; }
void sreset_trackeda(std::shared_ptr<TrackedA> &p, std::int32_t k) { p.reset(Tr<TrackedA>::create(k)); }
Look slook_trackeda(const std::shared_ptr<TrackedA> &p) { return look<TrackedA>(p.get()); }
std::int64_t suse_trackeda(const std::shared_ptr<TrackedA> &p) { return p.use_count(); }
std::shared_ptr<TrackedA> salias_trackeda(const std::shared_ptr<TrackedA> &p) { return std::shared_ptr<TrackedA>(p, p.get()); }
void hold_trackeda(const std::shared_ptr<TrackedA> &p) { slot<TrackedA>() = p; }
std::shared_ptr<TrackedA> held_trackeda() { return slot<TrackedA>(); }
std::weak_ptr<TrackedA> wmake_trackeda(std::shared_ptr<TrackedA> p) { return p; }
std::weak_ptr<TrackedA> wecho_trackeda(std::weak_ptr<TrackedA> p) { return p; }
Look wlook_trackeda(const std::weak_ptr<TrackedA> &p) { auto s = p.lock(); return look<TrackedA>(s.get()); }
std::shared_ptr<std::string> smake_string(std::int32_t k) { return k < 0 ? std::shared_ptr<std::string>() : std::shared_ptr<std::string>(Tr<std::string>::create(k)); }
std::int32_t stake_string(std::shared_ptr<std::string> p) { return look<std::string>(p.get()).val; }
std::shared_ptr<std::string> secho_string(std::shared_ptr<std::string> p) { return p; }
void sreset_string(std::shared_ptr<std::string> &p, std::int32_t k) { p.reset(Tr<std::string>::create(k)); }
Look slook_string(const std::shared_ptr<std::string> &p) { return look<std::string>(p.get()); }
std::int64_t suse_string(const std::shared_ptr<std::string> &p) { return p.use_count(); }
std::shared_ptr<std::string> salias_string(const std::shared_ptr<std::string> &p) { return std::shared_ptr<std::string>(p, p.get()); }
void hold_string(const std::shared_ptr<std::string> &p) { slot<std::string>() = p; }
std::shared_ptr<std::string> held_string() { return slot<std::string>(); }
std::weak_ptr<std::string> wmake_string(std::shared_ptr<std::string> p) { return p; }
std::weak_ptr<std::string> wecho_string(std::weak_ptr<std::string> p) { return p; }
Look wlook_string(const std::weak_ptr<std::string> &p) { auto s = p.lock(); return look<std::string>(s.get()); }
std::shared_ptr<bool> smake_bool(std::int32_t k) { return k < 0 ? std::shared_ptr<bool>() : std::shared_ptr<bool>(Tr<bool>::create(k)); }
std::int32_t stake_bool(std::shared_ptr<bool> p) { return look<bool>(p.get()).val; }
std::shared_ptr<bool> secho_bool(std::shared_ptr<bool> p) { return p; }
void sreset_bool(std::shared_ptr<bool> &p, std::int32_t k) { p.reset(Tr<bool>::create(k)); }
Look slook_bool(const std::shared_ptr<bool> &p) { return look<bool>(p.get()); }
std::int64_t suse_bool(const std::shared_ptr<bool> &p) { return p.use_count(); }
std::shared_ptr<bool> salias_bool(const std::shared_ptr<bool> &p) { return std::shared_ptr<bool>(p, p.get()); }
void hold_bool(const std::shared_ptr<bool> &p) { slot<bool>() = p; }
std::shared_ptr<bool> held_bool() { return slot<bool>(); }
std::weak_ptr<bool> wmake_bool(std::shared_ptr<bool> p) { return p; }
std::weak_ptr<bool> wecho_bool(std::weak_ptr<bool> p) { return p; }
Look wlook_bool(const std::weak_ptr<bool> &p) { auto s = p.lock(); return look<bool>(s.get()); }
std::shared_ptr<std::uint8_t> smake_u8(std::int32_t k) { return k < 0 ? std::shared_ptr<std::uint8_t>() : std::shared_ptr<std::uint8_t>(Tr<std::uint8_t>::create(k)); }
std::int32_t stake_u8(std::shared_ptr<std::uint8_t> p) { return look<std::uint8_t>(p.get()).val; }
std::shared_ptr<std::uint8_t> secho_u8(std::shared_ptr<std::uint8_t> p) { return p; }
void sreset_u8(std::shared_ptr<std::uint8_t> &p, std::int32_t k) { p.reset(Tr<std::uint8_t>::create(k)); }
Look slook_u8(const std::shared_ptr<std::uint8_t> &p) { return look<std::uint8_t>(p.get()); }
std::int64_t suse_u8(const std::shared_ptr<std::uint8_t> &p) { return p.use_count(); }
std::shared_ptr<std::uint8_t> salias_u8(const std::shared_ptr<std::uint8_t> &p) { return std::shared_ptr<std::uint8_t>(p, p.get()); }
void hold_u8(const std::shared_ptr<std::uint8_t> &p) { slot<std::uint8_t>() = p; }
std::shared_ptr<std::uint8_t> held_u8() { return slot<std::uint8_t>(); }
std::weak_ptr<std::uint8_t> wmake_u8(std::shared_ptr<std::uint8_t> p) { return p; }
std::weak_ptr<std::uint8_t> wecho_u8(std::weak_ptr<std::uint8_t> p) { return p; }
Look wlook_u8(const std::weak_ptr<std::uint8_t> &p) { auto s = p.lock(); return look<std::uint8_t>(s.get()); }
std::shared_ptr<std::uint16_t> smake_u16(std::int32_t k) { return k < 0 ? std::shared_ptr<std::uint16_t>() : std::shared_ptr<std::uint16_t>(Tr<std::uint16_t>::create(k)); }
std::int32_t stake_u16(std::shared_ptr<std::uint16_t> p) { return look<std::uint16_t>(p.get()).val; }
std::shared_ptr<std::uint16_t> secho_u16(std::shared_ptr<std::uint16_t> p) { return p; }
void sreset_u16(std::shared_ptr<std::uint16_t> &p, std::int32_t k) { p.reset(Tr<std::uint16_t>::create(k)); }
Look slook_u16(const std::shared_ptr<std::uint16_t> &p) { return look<std::uint16_t>(p.get()); }
std::int64_t suse_u16(const std::shared_ptr<std::uint16_t> &p) { return p.use_count(); }
std::shared_ptr<std::uint16_t> salias_u16(const std::shared_ptr<std::uint16_t> &p) { return std::shared_ptr<std::uint16_t>(p, p.get()); }
void hold_u16(const std::shared_ptr<std::uint16_t> &p) { slot<std::uint16_t>() = p; }
std::shared_ptr<std::uint16_t> held_u16() { return slot<std::uint16_t>(); }
std::weak_ptr<std::uint16_t> wmake_u16(std::shared_ptr<std::uint16_t> p) { return p; }
std::weak_ptr<std::uint16_t> wecho_u16(std::weak_ptr<std::uint16_t> p) { return p; }
Look wlook_u16(const std::weak_ptr<std::uint16_t> &p) { auto s = p.lock(); return look<std::uint16_t>(s.get()); }
std::shared_ptr<std::uint32_t> smake_u32(std::int32_t k) { return k < 0 ? std::shared_ptr<std::uint32_t>() : std::shared_ptr<std::uint32_t>(Tr<std::uint32_t>::create(k)); }
std::int32_t stake_u32(std::shared_ptr<std::uint32_t> p) { return look<std::uint32_t>(p.get()).val; }
std::shared_ptr<std::uint32_t> secho_u32(std::shared_ptr<std::uint32_t> p) { return p; }
void sreset_u32(std::shared_ptr<std::uint32_t> &p, std::int32_t k) { p.reset(Tr<std::uint32_t>::create(k)); }
Look slook_u32(const std::shared_ptr<std::uint32_t> &p) { return look<std::uint32_t>(p.get()); }
std::int64_t suse_u32(const std::shared_ptr<std::uint32_t> &p) { return p.use_count(); }
std::shared_ptr<std::uint32_t> salias_u32(const std::shared_ptr<std::uint32_t> &p) { return std::shared_ptr<std::uint32_t>(p, p.get()); }
void hold_u32(const std::shared_ptr<std::uint32_t> &p) { slot<std::uint32_t>() = p; }
std::shared_ptr<std::uint32_t> held_u32() { return slot<std::uint32_t>(); }
std::weak_ptr<std::uint32_t> wmake_u32(std::shared_ptr<std::uint32_t> p) { return p; }
std::weak_ptr<std::uint32_t> wecho_u32(std::weak_ptr<std::uint32_t> p) { return p; }
Look wlook_u32(const std::weak_ptr<std::uint32_t> &p) { auto s = p.lock(); return look<std::uint32_t>(s.get()); }
std::shared_ptr<std::uint64_t> smake_u64(std::int32_t k) { return k < 0 ? std::shared_ptr<std::uint64_t>() : std::shared_ptr<std::uint64_t>(Tr<std::uint64_t>::create(k)); }
std::int32_t stake_u64(std::shared_ptr<std::uint64_t> p) { return look<std::uint64_t>(p.get()).val; }
std::shared_ptr<std::uint64_t> secho_u64(std::shared_ptr<std::uint64_t> p) { return p; }
void sreset_u64(std::shared_ptr<std::uint64_t> &p, std::int32_t k) { p.reset(Tr<std::uint64_t>::create(k)); }
Look slook_u64(const std::shared_ptr<std::uint64_t> &p) { return look<std::uint64_t>(p.get()); }
std::int64_t suse_u64(const std::shared_ptr<std::uint64_t> &p) { return p.use_count(); }
std::shared_ptr<std::uint64_t> salias_u64(const std::shared_ptr<std::uint64_t> &p) { return std::shared_ptr<std::uint64_t>(p, p.get()); }
void hold_u64(const std::shared_ptr<std::uint64_t> &p) { slot<std::uint64_t>() = p; }
std::shared_ptr<std::uint64_t> held_u64() { return slot<std::uint64_t>(); }
std::weak_ptr<std::uint64_t> wmake_u64(std::shared_ptr<std::uint64_t> p) { return p; }
std::weak_ptr<std::uint64_t> wecho_u64(std::weak_ptr<std::uint64_t> p) { return p; }
Look wlook_u64(const std::weak_ptr<std::uint64_t> &p) { auto s = p.lock(); return look<std::uint64_t>(s.get()); }
std::shared_ptr<std::size_t> smake_usize(std::int32_t k) { return k < 0 ? std::shared_ptr<std::size_t>() : std::shared_ptr<std::size_t>(Tr<std::size_t>::create(k)); }
std::int32_t stake_usize(std::shared_ptr<std::size_t> p) { return look<std::size_t>(p.get()).val; }
std::shared_ptr<std::size_t> secho_usize(std::shared_ptr<std::size_t> p) { return p; }
void sreset_usize(std::shared_ptr<std::size_t> &p, std::int32_t k) { p.reset(Tr<std::size_t>::create(k)); }
Look slook_usize(const std::shared_ptr<std::size_t> &p) { return look<std::size_t>(p.get()); }
std::int64_t suse_usize(const std::shared_ptr<std::size_t> &p) { return p.use_count(); }
std::shared_ptr<std::size_t> salias_usize(const std::shared_ptr<std::size_t> &p) { return std::shared_ptr<std::size_t>(p, p.get()); }
void hold_usize(const std::shared_ptr<std::size_t> &p) { slot<std::size_t>() = p; }
std::shared_ptr<std::size_t> held_usize() { return slot<std::size_t>(); }
std::weak_ptr<std::size_t> wmake_usize(std::shared_ptr<std::size_t> p) { return p; }
std::weak_ptr<std::size_t> wecho_usize(std::weak_ptr<std::size_t> p) { return p; }
Look wlook_usize(const std::weak_ptr<std::size_t> &p) { auto s = p.lock(); return look<std::size_t>(s.get()); }
std::shared_ptr<std::int8_t> smake_i8(std::int32_t k) { return k < 0 ? std::shared_ptr<std::int8_t>() : std::shared_ptr<std::int8_t>(Tr<std::int8_t>::create(k)); }
std::int32_t stake_i8(std::shared_ptr<std::int8_t> p) { return look<std::int8_t>(p.get()).val; }
std::shared_ptr<std::int8_t> secho_i8(std::shared_ptr<std::int8_t> p) { return p; }
void sreset_i8(std::shared_ptr<std::int8_t> &p, std::int32_t k) { p.reset(Tr<std::int8_t>::create(k)); }
Look slook_i8(const std::shared_ptr<std::int8_t> &p) { return look<std::int8_t>(p.get()); }
std::int64_t suse_i8(const std::shared_ptr<std::int8_t> &p) { return p.use_count(); }
std::shared_ptr<std::int8_t> salias_i8(const std::shared_ptr<std::int8_t> &p) { return std::shared_ptr<std::int8_t>(p, p.get()); }
void hold_i8(const std::shared_ptr<std::int8_t> &p) { slot<std::int8_t>() = p; }
std::shared_ptr<std::int8_t> held_i8() { return slot<std::int8_t>(); }
std::weak_ptr<std::int8_t> wmake_i8(std::shared_ptr<std::int8_t> p) { return p; }
std::weak_ptr<std::int8_t> wecho_i8(std::weak_ptr<std::int8_t> p) { return p; }
Look wlook_i8(const std::weak_ptr<std::int8_t> &p) { auto s = p.lock(); return look<std::int8_t>(s.get()); }
std::shared_ptr<std::int16_t> smake_i16(std::int32_t k) { return k < 0 ? std::shared_ptr<std::int16_t>() : std::shared_ptr<std::int16_t>(Tr<std::int16_t>::create(k)); }
std::int32_t stake_i16(std::shared_ptr<std::int16_t> p) { return look<std::int16_t>(p.get()).val; }
std::shared_ptr<std::int16_t> secho_i16(std::shared_ptr<std::int16_t> p) { return p; }
void sreset_i16(std::shared_ptr<std::int16_t> &p, std::int32_t k) { p.reset(Tr<std::int16_t>::create(k)); }
Look slook_i16(const std::shared_ptr<std::int16_t> &p) { return look<std::int16_t>(p.get()); }
std::int64_t suse_i16(const std::shared_ptr<std::int16_t> &p) { return p.use_count(); }
std::shared_ptr<std::int16_t> salias_i16(const std::shared_ptr<std::int16_t> &p) { return std::shared_ptr<std::int16_t>(p, p.get()); }
void hold_i16(const std::shared_ptr<std::int16_t> &p) { slot<std::int16_t>() = p; }
std::shared_ptr<std::int16_t> held_i16() { return slot<std::int16_t>(); }
std::weak_ptr<std::int16_t> wmake_i16(std::shared_ptr<std::int16_t> p) { return p; }
std::weak_ptr<std::int16_t> wecho_i16(std::weak_ptr<std::int16_t> p) { return p; }
Look wlook_i16(const std::weak_ptr<std::int16_t> &p) { auto s = p.lock(); return look<std::int16_t>(s.get()); }
std::shared_ptr<std::int32_t> smake_i32(std::int32_t k) { return k < 0 ? std::shared_ptr<std::int32_t>() : std::shared_ptr<std::int32_t>(Tr<std::int32_t>::create(k)); }
std::int32_t stake_i32(std::shared_ptr<std::int32_t> p) { return look<std::int32_t>(p.get()).val; }
std::shared_ptr<std::int32_t> secho_i32(std::shared_ptr<std::int32_t> p) { return p; }
void sreset_i32(std::shared_ptr<std::int32_t> &p, std::int32_t k) { p.reset(Tr<std::int32_t>::create(k)); }
Look slook_i32(const std::shared_ptr<std::int32_t> &p) { return look<std::int32_t>(p.get()); }
std::int64_t suse_i32(const std::shared_ptr<std::int32_t> &p) { return p.use_count(); }
std::shared_ptr<std::int32_t> salias_i32(const std::shared_ptr<std::int32_t> &p) { return std::shared_ptr<std::int32_t>(p, p.get()); }
void hold_i32(const std::shared_ptr<std::int32_t> &p) { slot<std::int32_t>() = p; }
std::shared_ptr<std::int32_t> held_i32() { return slot<std::int32_t>(); }
std::weak_ptr<std::int32_t> wmake_i32(std::shared_ptr<std::int32_t> p) { return p; }
std::weak_ptr<std::int32_t> wecho_i32(std::weak_ptr<std::int32_t> p) { return p; }
Look wlook_i32(const std::weak_ptr<std::int32_t> &p) { auto s = p.lock(); return look<std::int32_t>(s.get()); }
std::shared_ptr<std::int64_t> smake_i64(std::int32_t k) { return k < 0 ? std::shared_ptr<std::int64_t>() : std::shared_ptr<std::int64_t>(Tr<std::int64_t>::create(k)); }
std::int32_t stake_i64(std::shared_ptr<std::int64_t> p) { return look<std::int64_t>(p.get()).val; }
std::shared_ptr<std::int64_t> secho_i64(std::shared_ptr<std::int64_t> p) { return p; }
void sreset_i64(std::shared_ptr<std::int64_t> &p, std::int32_t k) { p.reset(Tr<std::int64_t>::create(k)); }
Look slook_i64(const std::shared_ptr<std::int64_t> &p) { return look<std::int64_t>(p.get()); }
std::int64_t suse_i64(const std::shared_ptr<std::int64_t> &p) { return p.use_count(); }
std::shared_ptr<std::int64_t> salias_i64(const std::shared_ptr<std::int64_t> &p) { return std::shared_ptr<std::int64_t>(p, p.get()); }
void hold_i64(const std::shared_ptr<std::int64_t> &p) { slot<std::int64_t>() = p; }
std::shared_ptr<std::int64_t> held_i64() { return slot<std::int64_t>(); }
std::weak_ptr<std::int64_t> wmake_i64(std::shared_ptr<std::int64_t> p) { return p; }
std::weak_ptr<std::int64_t> wecho_i64(std::weak_ptr<std::int64_t> p) { return p; }
Look wlook_i64(const std::weak_ptr<std::int64_t> &p) { auto s = p.lock(); return look<std::int64_t>(s.get()); }
std::shared_ptr<rust::isize> smake_isize(std::int32_t k) { return k < 0 ? std::shared_ptr<rust::isize>() : std::shared_ptr<rust::isize>(Tr<rust::isize>::create(k)); }
std::int32_t stake_isize(std::shared_ptr<rust::isize> p) { return look<rust::isize>(p.get()).val; }
std::shared_ptr<rust::isize> secho_isize(std::shared_ptr<rust::isize> p) { return p; }
void sreset_isize(std::shared_ptr<rust::isize> &p, std::int32_t k) { p.reset(Tr<rust::isize>::create(k)); }
Look slook_isize(const std::shared_ptr<rust::isize> &p) { return look<rust::isize>(p.get()); }
std::int64_t suse_isize(const std::shared_ptr<rust::isize> &p) { return p.use_count(); }
std::shared_ptr<rust::isize> salias_isize(const std::shared_ptr<rust::isize> &p) { return std::shared_ptr<rust::isize>(p, p.get()); }
void hold_isize(const std::shared_ptr<rust::isize> &p) { slot<rust::isize>() = p; }
std::shared_ptr<rust::isize> held_isize() { return slot<rust::isize>(); }
std::weak_ptr<rust::isize> wmake_isize(std::shared_ptr<rust::isize> p) { return p; }
std::weak_ptr<rust::isize> wecho_isize(std::weak_ptr<rust::isize> p) { return p; }
Look wlook_isize(const std::weak_ptr<rust::isize> &p) { auto s = p.lock(); return look<rust::isize>(s.get()); }
std::shared_ptr<float> smake_f32(std::int32_t k) { return k < 0 ? std::shared_ptr<float>() : std::shared_ptr<float>(Tr<float>::create(k)); }
std::int32_t stake_f32(std::shared_ptr<float> p) { return look<float>(p.get()).val; }
std::shared_ptr<float> secho_f32(std::shared_ptr<float> p) { return p; }
void sreset_f32(std::shared_ptr<float> &p, std::int32_t k) { p.reset(Tr<float>::create(k)); }
Look slook_f32(const std::shared_ptr<float> &p) { return look<float>(p.get()); }
std::int64_t suse_f32(const std::shared_ptr<float> &p) { return p.use_count(); }
std::shared_ptr<float> salias_f32(const std::shared_ptr<float> &p) { return std::shared_ptr<float>(p, p.get()); }
void hold_f32(const std::shared_ptr<float> &p) { slot<float>() = p; }
std::shared_ptr<float> held_f32() { return slot<float>(); }
std::weak_ptr<float> wmake_f32(std::shared_ptr<float> p) { return p; }
std::weak_ptr<float> wecho_f32(std::weak_ptr<float> p) { return p; }
Look wlook_f32(const std::weak_ptr<float> &p) { auto s = p.lock(); return look<float>(s.get()); }
std::shared_ptr<double> smake_f64(std::int32_t k) { return k < 0 ? std::shared_ptr<double>() : std::shared_ptr<double>(Tr<double>::create(k)); }
std::int32_t stake_f64(std::shared_ptr<double> p) { return look<double>(p.get()).val; }
std::shared_ptr<double> secho_f64(std::shared_ptr<double> p) { return p; }
void sreset_f64(std::shared_ptr<double> &p, std::int32_t k) { p.reset(Tr<double>::create(k)); }
Look slook_f64(const std::shared_ptr<double> &p) { return look<double>(p.get()); }
std::int64_t suse_f64(const std::shared_ptr<double> &p) { return p.use_count(); }
std::shared_ptr<double> salias_f64(const std::shared_ptr<double> &p) { return std::shared_ptr<double>(p, p.get()); }
void hold_f64(const std::shared_ptr<double> &p) { slot<double>() = p; }
std::shared_ptr<double> held_f64() { return slot<double>(); }
std::weak_ptr<double> wmake_f64(std::shared_ptr<double> p) { return p; }
std::weak_ptr<double> wecho_f64(std::weak_ptr<double> p) { return p; }
Look wlook_f64(const std::weak_ptr<double> &p) { auto s = p.lock(); return look<double>(s.get()); }
} // namespace c08
extern "C" {
std::uint64_t vk8_new() {
  c08::nlive++;
  c08::ids->insert(c08::next_id);
  return c08::next_id++;
}
void vk8_drop(std::uint64_t id) {
  if (id == 0)
    return;
  if (!c08::ids->erase(id))
    c08::isbad = true;
  else
    c08::nlive--;
}
}
