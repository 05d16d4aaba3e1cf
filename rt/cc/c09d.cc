// Generated by gen_sig.py.
#include "rt/src/c09d.rs.h"
namespace c09d {
[[maybe_unused]] static float mk_f32(int k);
[[maybe_unused]] static bool ck_f32(float const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f32(float const & v);
[[maybe_unused]] static S3 mk_S3(int k);
[[maybe_unused]] static bool ck_S3(S3 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S3(S3 const & v);
[[maybe_unused]] static std::uint8_t mk_u8(int k);
[[maybe_unused]] static bool ck_u8(std::uint8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u8(std::uint8_t const & v);
[[maybe_unused]] static std::uint64_t mk_u64(int k);
[[maybe_unused]] static bool ck_u64(std::uint64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u64(std::uint64_t const & v);
[[maybe_unused]] static rust::String mk_String(int k);
[[maybe_unused]] static bool ck_String(rust::String const & v, int k); [[maybe_unused]] static std::uintptr_t ad_String(rust::String const & v);
[[maybe_unused]] static double mk_f64(int k);
[[maybe_unused]] static bool ck_f64(double const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f64(double const & v);
[[maybe_unused]] static std::uint32_t mk_u32(int k);
[[maybe_unused]] static bool ck_u32(std::uint32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u32(std::uint32_t const & v);
[[maybe_unused]] static S6 mk_S6(int k);
[[maybe_unused]] static bool ck_S6(S6 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S6(S6 const & v);
[[maybe_unused]] static S2 mk_S2(int k);
[[maybe_unused]] static bool ck_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S2(S2 const & v);
[[maybe_unused]] static bool ck_RObj(RObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_RObj(RObj const & v);
[[maybe_unused]] static rust::Box<RObj> mk_Box_RObj(int k);
[[maybe_unused]] static bool ck_Box_RObj(rust::Box<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v);
[[maybe_unused]] static CObj mk_CObj(int k);
[[maybe_unused]] static bool ck_CObj(CObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CObj(CObj const & v);
[[maybe_unused]] static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v);
[[maybe_unused]] static rust::Str mk_str(int k);
[[maybe_unused]] static bool ck_str(rust::Str const & v, int k); [[maybe_unused]] static std::uintptr_t ad_str(rust::Str const & v);
[[maybe_unused]] static rust::Vec<std::uint8_t> mk_Vec_u8(int k);
[[maybe_unused]] static bool ck_Vec_u8(rust::Vec<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_u8(rust::Vec<std::uint8_t> const & v);
[[maybe_unused]] static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k);
[[maybe_unused]] static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v);
[[maybe_unused]] static std::int32_t mk_i32(int k);
[[maybe_unused]] static bool ck_i32(std::int32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i32(std::int32_t const & v);
[[maybe_unused]] static TrivA mk_TrivA(int k);
[[maybe_unused]] static bool ck_TrivA(TrivA const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivA(TrivA const & v);
[[maybe_unused]] static std::uint16_t mk_u16(int k);
[[maybe_unused]] static bool ck_u16(std::uint16_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u16(std::uint16_t const & v);
[[maybe_unused]] static rust::Slice<const std::uint16_t> mk_sl_u16(int k);
[[maybe_unused]] static bool ck_sl_u16(rust::Slice<const std::uint16_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_u16(rust::Slice<const std::uint16_t> const & v);
[[maybe_unused]] static Eu8 mk_Eu8(int k);
[[maybe_unused]] static bool ck_Eu8(Eu8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu8(Eu8 const & v);
[[maybe_unused]] static std::array<std::uint8_t, 4> mk_arr4_u8(int k);
[[maybe_unused]] static bool ck_arr4_u8(std::array<std::uint8_t, 4> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr4_u8(std::array<std::uint8_t, 4> const & v);
[[maybe_unused]] static bool mk_bool(int k);
[[maybe_unused]] static bool ck_bool(bool const & v, int k); [[maybe_unused]] static std::uintptr_t ad_bool(bool const & v);
[[maybe_unused]] static S2 const & mk_ref_S2(int k);
[[maybe_unused]] static bool ck_ref_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_S2(S2 const & v);
[[maybe_unused]] static std::weak_ptr<CObj> mk_WeakPtr_CObj(int k);
[[maybe_unused]] static bool ck_WeakPtr_CObj(std::weak_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_WeakPtr_CObj(std::weak_ptr<CObj> const & v);
[[maybe_unused]] static RObj const & mk_ref_RObj(int k);
[[maybe_unused]] static bool ck_ref_RObj(RObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_RObj(RObj const & v);
[[maybe_unused]] static S7 mk_S7(int k);
[[maybe_unused]] static bool ck_S7(S7 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S7(S7 const & v);
[[maybe_unused]] static S7 & mk_mut_S7(int k);
[[maybe_unused]] static bool ck_mut_S7(S7 & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_S7(S7 & v);
[[maybe_unused]] static std::int8_t mk_i8(int k);
[[maybe_unused]] static bool ck_i8(std::int8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i8(std::int8_t const & v);
[[maybe_unused]] static char mk_c_char(int k);
[[maybe_unused]] static bool ck_c_char(char const & v, int k); [[maybe_unused]] static std::uintptr_t ad_c_char(char const & v);
[[maybe_unused]] static S2 &cs_S2(int k); [[maybe_unused]] static S2 &cp_S2(int k);
[[maybe_unused]] static RObj &cs_RObj(int k); [[maybe_unused]] static RObj &cp_RObj(int k);
[[maybe_unused]] static S7 &cs_S7(int k); [[maybe_unused]] static S7 &cp_S7(int k);
[[maybe_unused]] static std::uint16_t *cs_sl_u16(int k); [[maybe_unused]] static std::uint16_t *cp_sl_u16(int k);
static float mk_f32(int k) { std::uint32_t t[4] = {0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001}; float r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f32(float const & v, int k) { (void)k; return [&]{ auto w = mk_f32(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f32(float const & v) { (void)v; return 0; }
static S3 mk_S3(int k) { return S3{mk_f32((k + 0) & 3), mk_f32((k + 1) & 3)}; }
static bool ck_S3(S3 const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_f32(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S3(S3 const & v) { (void)v; return 0; }
static std::uint8_t mk_u8(int k) { std::uint8_t t[4] = {0, 1, 128, 255}; return t[k]; }
static bool ck_u8(std::uint8_t const & v, int k) { (void)k; return v == mk_u8(k); }
static std::uintptr_t ad_u8(std::uint8_t const & v) { (void)v; return 0; }
static std::uint64_t mk_u64(int k) { std::uint64_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_u64(std::uint64_t const & v, int k) { (void)k; return v == mk_u64(k); }
static std::uintptr_t ad_u64(std::uint64_t const & v) { (void)v; return 0; }
static rust::String mk_String(int k) { return rust::String(TXT[k]); }
static bool ck_String(rust::String const & v, int k) { (void)k; return std::string(v) == TXT[k]; }
static std::uintptr_t ad_String(rust::String const & v) { (void)v; return 0; }
static double mk_f64(int k) { std::uint64_t t[4] = {0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123}; double r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f64(double const & v, int k) { (void)k; return [&]{ auto w = mk_f64(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f64(double const & v) { (void)v; return 0; }
static std::uint32_t mk_u32(int k) { std::uint32_t t[4] = {0, 1, 2147483648ll, 4294967295ll}; return t[k]; }
static bool ck_u32(std::uint32_t const & v, int k) { (void)k; return v == mk_u32(k); }
static std::uintptr_t ad_u32(std::uint32_t const & v) { (void)v; return 0; }
static S6 mk_S6(int k) { return S6{mk_u64((k + 0) & 3), mk_u32((k + 1) & 3), mk_u64((k + 2) & 3)}; }
static bool ck_S6(S6 const & v, int k) { (void)k; return ck_u64(v.f0, (k + 0) & 3) && ck_u32(v.f1, (k + 1) & 3) && ck_u64(v.f2, (k + 2) & 3); }
static std::uintptr_t ad_S6(S6 const & v) { (void)v; return 0; }
static S2 mk_S2(int k) { return S2{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3)}; }
static bool ck_S2(S2 const & v, int k) { (void)k; return ck_u8(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S2(S2 const & v) { (void)v; return 0; }
static bool ck_RObj(RObj const & v, int k) { (void)k; return v.r_tag() == k; }
static std::uintptr_t ad_RObj(RObj const & v) { (void)v; return 0; }
static rust::Box<RObj> mk_Box_RObj(int k) { return r_new(k); }
static bool ck_Box_RObj(rust::Box<RObj> const & v, int k) { (void)k; return ck_RObj(*v, k); }
static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v) { (void)v; return 0; }
static CObj mk_CObj(int k) { return CObj(k); }
static bool ck_CObj(CObj const & v, int k) { (void)k; return v.c_tag() == k; }
static std::uintptr_t ad_CObj(CObj const & v) { (void)v; return 0; }
static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k) { return k == 3 ? nullptr : std::unique_ptr<CObj>(new CObj(k)); }
static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CObj(*v, k); }
static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v) { (void)v; return 0; }
static rust::Str mk_str(int k) { return rust::Str(TXT[k].data(), TXT[k].size()); }
static bool ck_str(rust::Str const & v, int k) { (void)k; return std::string(v.data(), v.size()) == TXT[k]; }
static std::uintptr_t ad_str(rust::Str const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Vec<std::uint8_t> mk_Vec_u8(int k) { rust::Vec<std::uint8_t> v; for (int i = 0; i < k; i++) v.push_back(mk_u8((k + i) & 3)); return v; }
static bool ck_Vec_u8(rust::Vec<std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_u8(rust::Vec<std::uint8_t> const & v) { (void)v; return 0; }
static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k) { return k == 3 ? nullptr : std::shared_ptr<CObj>(new CObj(k)); }
static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_CObj(*v, k); }
static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v) { (void)v; return 0; }
static std::int32_t mk_i32(int k) { std::int32_t t[4] = {0, 1, -2147483648ll, 2147483647}; return t[k]; }
static bool ck_i32(std::int32_t const & v, int k) { (void)k; return v == mk_i32(k); }
static std::uintptr_t ad_i32(std::int32_t const & v) { (void)v; return 0; }
static TrivA mk_TrivA(int k) { return TrivA{mk_i32((k + 0) & 3)}; }
static bool ck_TrivA(TrivA const & v, int k) { (void)k; return ck_i32(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_TrivA(TrivA const & v) { (void)v; return 0; }
static std::uint16_t mk_u16(int k) { std::uint16_t t[4] = {0, 1, 32768, 65535}; return t[k]; }
static bool ck_u16(std::uint16_t const & v, int k) { (void)k; return v == mk_u16(k); }
static std::uintptr_t ad_u16(std::uint16_t const & v) { (void)v; return 0; }
static rust::Slice<const std::uint16_t> mk_sl_u16(int k) { return rust::Slice<const std::uint16_t>(cs_sl_u16(k), k); }
static bool ck_sl_u16(rust::Slice<const std::uint16_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u16(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_u16(rust::Slice<const std::uint16_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static Eu8 mk_Eu8(int k) { Eu8 t[4] = {Eu8::V0, Eu8::V1, Eu8::V2, Eu8::V3}; return t[k]; }
static bool ck_Eu8(Eu8 const & v, int k) { (void)k; return v == mk_Eu8(k); }
static std::uintptr_t ad_Eu8(Eu8 const & v) { (void)v; return 0; }
static std::array<std::uint8_t, 4> mk_arr4_u8(int k) { return std::array<std::uint8_t, 4>{{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), mk_u8((k + 2) & 3), mk_u8((k + 3) & 3)}}; }
static bool ck_arr4_u8(std::array<std::uint8_t, 4> const & v, int k) { (void)k; return ck_u8(v[0], (k + 0) & 3) && ck_u8(v[1], (k + 1) & 3) && ck_u8(v[2], (k + 2) & 3) && ck_u8(v[3], (k + 3) & 3); }
static std::uintptr_t ad_arr4_u8(std::array<std::uint8_t, 4> const & v) { (void)v; return 0; }
static bool mk_bool(int k) { return k & 1; }
static bool ck_bool(bool const & v, int k) { (void)k; return v == bool(k & 1); }
static std::uintptr_t ad_bool(bool const & v) { (void)v; return 0; }
static S2 const & mk_ref_S2(int k) { return cs_S2(k); }
static bool ck_ref_S2(S2 const & v, int k) { (void)k; return ck_S2(v, k); }
static std::uintptr_t ad_ref_S2(S2 const & v) { (void)v; return std::uintptr_t(&v); }
static std::weak_ptr<CObj> mk_WeakPtr_CObj(int k) { static std::shared_ptr<CObj> s[4]; s[k] = mk_SharedPtr_CObj(k); return s[k]; }
static bool ck_WeakPtr_CObj(std::weak_ptr<CObj> const & v, int k) { (void)k; return [&]{ auto s = v.lock(); return k == 3 ? !s : s && ck_CObj(*s, k); }(); }
static std::uintptr_t ad_WeakPtr_CObj(std::weak_ptr<CObj> const & v) { (void)v; return 0; }
static RObj const & mk_ref_RObj(int k) { return cs_RObj(k); }
static bool ck_ref_RObj(RObj const & v, int k) { (void)k; return ck_RObj(v, k); }
static std::uintptr_t ad_ref_RObj(RObj const & v) { (void)v; return std::uintptr_t(&v); }
static S7 mk_S7(int k) { return S7{mk_String((k + 0) & 3)}; }
static bool ck_S7(S7 const & v, int k) { (void)k; return ck_String(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S7(S7 const & v) { (void)v; return 0; }
static S7 & mk_mut_S7(int k) { return cs_S7(k); }
static bool ck_mut_S7(S7 & v, int k) { (void)k; return ck_S7(v, k); }
static std::uintptr_t ad_mut_S7(S7 & v) { (void)v; return std::uintptr_t(&v); }
static std::int8_t mk_i8(int k) { std::int8_t t[4] = {0, 1, -128, 127}; return t[k]; }
static bool ck_i8(std::int8_t const & v, int k) { (void)k; return v == mk_i8(k); }
static std::uintptr_t ad_i8(std::int8_t const & v) { (void)v; return 0; }
static char mk_c_char(int k) { char t[4] = {'\0', 'a', char(0x80), char(0xff)}; return t[k]; }
static bool ck_c_char(char const & v, int k) { (void)k; return v == mk_c_char(k); }
static std::uintptr_t ad_c_char(char const & v) { (void)v; return 0; }
static std::unique_ptr<S2> ST_S2[4];
static S2 &cs_S2(int k) { ST_S2[k].reset(new S2(mk_S2(k))); return *ST_S2[k]; }
static S2 &cp_S2(int k) { return *ST_S2[k]; }
static std::unique_ptr<rust::Box<RObj>> ST_RObj[4];
static RObj &cs_RObj(int k) { ST_RObj[k].reset(new rust::Box<RObj>(r_new(k))); return **ST_RObj[k]; }
static RObj &cp_RObj(int k) { return **ST_RObj[k]; }
static std::unique_ptr<S7> ST_S7[4];
static S7 &cs_S7(int k) { ST_S7[k].reset(new S7(mk_S7(k))); return *ST_S7[k]; }
static S7 &cp_S7(int k) { return *ST_S7[k]; }
static std::unique_ptr<std::array<std::uint16_t, 4>> SL_u16[4];
static std::uint16_t *cs_sl_u16(int k) { SL_u16[k].reset(new std::array<std::uint16_t, 4>{{mk_u16((k + 0) & 3), mk_u16((k + 1) & 3), mk_u16((k + 2) & 3), mk_u16((k + 3) & 3)}}); return SL_u16[k]->data(); }
static std::uint16_t *cp_sl_u16(int k) { return SL_u16[k]->data(); }
std::unique_ptr<CObj> c_store_CObj(std::int32_t k) { return std::unique_ptr<CObj>(new CObj(k)); }
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ad_UniquePtr_CObj(x)); if (!ck_UniquePtr_CObj(x, k)) return false; return true; }
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k) { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ck_UniquePtr_CObj(x, k) ? ad_UniquePtr_CObj(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CObj(x, k) && b == -1.5 && ck_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<CObj> CObj::c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_UniquePtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<CObj> y = f(mk_UniquePtr_CObj(k), k); return ck_UniquePtr_CObj(y, k); }
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); if (!r_take_UniquePtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09d != a) return 11; return 0; }
 case 1: { std::unique_ptr<CObj> x = r_make_UniquePtr_CObj(k); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09d == ad_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<CObj> x = r_try_UniquePtr_CObj(k, false); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09d == ad_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); std::unique_ptr<CObj> y = r_echo_UniquePtr_CObj(std::move(x), k); return vk_addr_c09d == a && ad_UniquePtr_CObj(y) == a && ck_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); std::unique_ptr<CObj> y = o.r_m_UniquePtr_CObj(std::move(x), k); return vk_addr_c09d == 0 && ck_UniquePtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ad_SharedPtr_CObj(x)); if (!ck_SharedPtr_CObj(x, k)) return false; return true; }
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k) { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ck_SharedPtr_CObj(x, k) ? ad_SharedPtr_CObj(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_CObj(x, k) && b == -1.5 && ck_SharedPtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<CObj> CObj::c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_SharedPtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<CObj> y = f(mk_SharedPtr_CObj(k), k); return ck_SharedPtr_CObj(y, k); }
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); if (!r_take_SharedPtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09d != a) return 11; return 0; }
 case 1: { std::shared_ptr<CObj> x = r_make_SharedPtr_CObj(k); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09d == ad_SharedPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<CObj> x = r_try_SharedPtr_CObj(k, false); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09d == ad_SharedPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); std::shared_ptr<CObj> y = r_echo_SharedPtr_CObj(std::move(x), k); return vk_addr_c09d == a && ad_SharedPtr_CObj(y) == a && ck_SharedPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); std::shared_ptr<CObj> y = o.r_m_SharedPtr_CObj(std::move(x), k); return vk_addr_c09d == 0 && ck_SharedPtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
void c_abi0(std::uint8_t a0, std::uint8_t a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi0(std::int32_t k) { r_abi0(mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi1(std::uint8_t a0, std::uint64_t a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi1(std::int32_t k) { rust::String x = r_abi1(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi2(std::uint8_t a0, float a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi2(std::int32_t k) { S3 x = r_abi2(mk_u8((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi3(std::uint8_t a0, double a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi3(std::int32_t k) { S6 x = r_abi3(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi4(std::uint8_t a0, S2 a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi4(std::int32_t k) { rust::Box<RObj> x = r_abi4(mk_u8((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi5(std::uint8_t a0, S3 a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi5(std::int32_t k) { std::uint8_t x = r_abi5(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi6(std::uint8_t a0, S6 a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi6(std::int32_t k) { double x = r_abi6(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi7(std::uint8_t a0, rust::String a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi7(std::int32_t k) { std::unique_ptr<CObj> x = r_abi7(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi8(std::uint8_t a0, rust::Str a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi8(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi8(mk_u8((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi9(std::uint8_t a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi9(std::int32_t k) { std::shared_ptr<CObj> x = r_abi9(mk_u8((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi10(std::uint8_t a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi10(std::int32_t k) { TrivA x = r_abi10(mk_u8((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi11(std::uint8_t a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi11(std::int32_t k) { Eu8 x = r_abi11(mk_u8((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi12(std::uint8_t a0, TrivA a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi12(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi12(mk_u8((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi13(std::uint8_t a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi13(std::int32_t k) { r_abi13(mk_u8((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi14(std::uint64_t a0, std::uint8_t a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi14(std::int32_t k) { rust::String x = r_abi14(mk_u64((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi15(std::uint64_t a0, std::uint64_t a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi15(std::int32_t k) { S3 x = r_abi15(mk_u64((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi16(std::uint64_t a0, float a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi16(std::int32_t k) { S6 x = r_abi16(mk_u64((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi17(std::uint64_t a0, double a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi17(std::int32_t k) { rust::Box<RObj> x = r_abi17(mk_u64((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi18(std::uint64_t a0, S2 a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi18(std::int32_t k) { std::uint8_t x = r_abi18(mk_u64((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi19(std::uint64_t a0, S3 a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi19(std::int32_t k) { double x = r_abi19(mk_u64((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi20(std::uint64_t a0, S6 a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi20(std::int32_t k) { std::unique_ptr<CObj> x = r_abi20(mk_u64((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi21(std::uint64_t a0, rust::String a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi21(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi21(mk_u64((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi22(std::uint64_t a0, rust::Str a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi22(std::int32_t k) { std::shared_ptr<CObj> x = r_abi22(mk_u64((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi23(std::uint64_t a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi23(std::int32_t k) { TrivA x = r_abi23(mk_u64((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi24(std::uint64_t a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi24(std::int32_t k) { Eu8 x = r_abi24(mk_u64((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi25(std::uint64_t a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi25(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi25(mk_u64((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi26(std::uint64_t a0, TrivA a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi26(std::int32_t k) { r_abi26(mk_u64((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi27(std::uint64_t a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_u64(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi27(std::int32_t k) { rust::String x = r_abi27(mk_u64((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi28(float a0, std::uint8_t a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi28(std::int32_t k) { S3 x = r_abi28(mk_f32((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi29(float a0, std::uint64_t a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi29(std::int32_t k) { S6 x = r_abi29(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi30(float a0, float a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi30(std::int32_t k) { rust::Box<RObj> x = r_abi30(mk_f32((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi31(float a0, double a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi31(std::int32_t k) { std::uint8_t x = r_abi31(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi32(float a0, S2 a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi32(std::int32_t k) { double x = r_abi32(mk_f32((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi33(float a0, S3 a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi33(std::int32_t k) { std::unique_ptr<CObj> x = r_abi33(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi34(float a0, S6 a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi34(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi34(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi35(float a0, rust::String a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi35(std::int32_t k) { std::shared_ptr<CObj> x = r_abi35(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi36(float a0, rust::Str a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi36(std::int32_t k) { TrivA x = r_abi36(mk_f32((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi37(float a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi37(std::int32_t k) { Eu8 x = r_abi37(mk_f32((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi38(float a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi38(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi38(mk_f32((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi39(float a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi39(std::int32_t k) { r_abi39(mk_f32((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi40(float a0, TrivA a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi40(std::int32_t k) { rust::String x = r_abi40(mk_f32((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi41(float a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi41(std::int32_t k) { S3 x = r_abi41(mk_f32((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi42(double a0, std::uint8_t a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi42(std::int32_t k) { S6 x = r_abi42(mk_f64((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi43(double a0, std::uint64_t a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi43(std::int32_t k) { rust::Box<RObj> x = r_abi43(mk_f64((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi44(double a0, float a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi44(std::int32_t k) { std::uint8_t x = r_abi44(mk_f64((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi45(double a0, double a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi45(std::int32_t k) { double x = r_abi45(mk_f64((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi46(double a0, S2 a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi46(std::int32_t k) { std::unique_ptr<CObj> x = r_abi46(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi47(double a0, S3 a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi47(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi47(mk_f64((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi48(double a0, S6 a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi48(std::int32_t k) { std::shared_ptr<CObj> x = r_abi48(mk_f64((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi49(double a0, rust::String a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi49(std::int32_t k) { TrivA x = r_abi49(mk_f64((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi50(double a0, rust::Str a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi50(std::int32_t k) { Eu8 x = r_abi50(mk_f64((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi51(double a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi51(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi51(mk_f64((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi52(double a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi52(std::int32_t k) { r_abi52(mk_f64((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi53(double a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi53(std::int32_t k) { rust::String x = r_abi53(mk_f64((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi54(double a0, TrivA a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi54(std::int32_t k) { S3 x = r_abi54(mk_f64((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi55(double a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi55(std::int32_t k) { S6 x = r_abi55(mk_f64((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi56(S2 a0, std::uint8_t a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi56(std::int32_t k) { rust::Box<RObj> x = r_abi56(mk_S2((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi57(S2 a0, std::uint64_t a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi57(std::int32_t k) { std::uint8_t x = r_abi57(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi58(S2 a0, float a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi58(std::int32_t k) { double x = r_abi58(mk_S2((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi59(S2 a0, double a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi59(std::int32_t k) { std::unique_ptr<CObj> x = r_abi59(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi60(S2 a0, S2 a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi60(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi60(mk_S2((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi61(S2 a0, S3 a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi61(std::int32_t k) { std::shared_ptr<CObj> x = r_abi61(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi62(S2 a0, S6 a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi62(std::int32_t k) { TrivA x = r_abi62(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi63(S2 a0, rust::String a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi63(std::int32_t k) { Eu8 x = r_abi63(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi64(S2 a0, rust::Str a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi64(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi64(mk_S2((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi65(S2 a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi65(std::int32_t k) { r_abi65(mk_S2((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi66(S2 a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi66(std::int32_t k) { rust::String x = r_abi66(mk_S2((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi67(S2 a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi67(std::int32_t k) { S3 x = r_abi67(mk_S2((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi68(S2 a0, TrivA a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi68(std::int32_t k) { S6 x = r_abi68(mk_S2((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi69(S2 a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi69(std::int32_t k) { rust::Box<RObj> x = r_abi69(mk_S2((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi70(S3 a0, std::uint8_t a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi70(std::int32_t k) { std::uint8_t x = r_abi70(mk_S3((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi71(S3 a0, std::uint64_t a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi71(std::int32_t k) { double x = r_abi71(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi72(S3 a0, float a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi72(std::int32_t k) { std::unique_ptr<CObj> x = r_abi72(mk_S3((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi73(S3 a0, double a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi73(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi73(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi74(S3 a0, S2 a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi74(std::int32_t k) { std::shared_ptr<CObj> x = r_abi74(mk_S3((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi75(S3 a0, S3 a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi75(std::int32_t k) { TrivA x = r_abi75(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi76(S3 a0, S6 a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi76(std::int32_t k) { Eu8 x = r_abi76(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi77(S3 a0, rust::String a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi77(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi77(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi78(S3 a0, rust::Str a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi78(std::int32_t k) { r_abi78(mk_S3((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi79(S3 a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi79(std::int32_t k) { rust::String x = r_abi79(mk_S3((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi80(S3 a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi80(std::int32_t k) { S3 x = r_abi80(mk_S3((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi81(S3 a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi81(std::int32_t k) { S6 x = r_abi81(mk_S3((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi82(S3 a0, TrivA a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi82(std::int32_t k) { rust::Box<RObj> x = r_abi82(mk_S3((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi83(S3 a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi83(std::int32_t k) { std::uint8_t x = r_abi83(mk_S3((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi84(S6 a0, std::uint8_t a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi84(std::int32_t k) { double x = r_abi84(mk_S6((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi85(S6 a0, std::uint64_t a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi85(std::int32_t k) { std::unique_ptr<CObj> x = r_abi85(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi86(S6 a0, float a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi86(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi86(mk_S6((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi87(S6 a0, double a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi87(std::int32_t k) { std::shared_ptr<CObj> x = r_abi87(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi88(S6 a0, S2 a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi88(std::int32_t k) { TrivA x = r_abi88(mk_S6((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi89(S6 a0, S3 a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi89(std::int32_t k) { Eu8 x = r_abi89(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi90(S6 a0, S6 a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi90(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi90(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi91(S6 a0, rust::String a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi91(std::int32_t k) { r_abi91(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi92(S6 a0, rust::Str a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi92(std::int32_t k) { rust::String x = r_abi92(mk_S6((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi93(S6 a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi93(std::int32_t k) { S3 x = r_abi93(mk_S6((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi94(S6 a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi94(std::int32_t k) { S6 x = r_abi94(mk_S6((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi95(S6 a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi95(std::int32_t k) { rust::Box<RObj> x = r_abi95(mk_S6((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi96(S6 a0, TrivA a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi96(std::int32_t k) { std::uint8_t x = r_abi96(mk_S6((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi97(S6 a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi97(std::int32_t k) { double x = r_abi97(mk_S6((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi98(rust::String a0, std::uint8_t a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi98(std::int32_t k) { std::unique_ptr<CObj> x = r_abi98(mk_String((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi99(rust::String a0, std::uint64_t a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi99(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi99(mk_String((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi100(rust::String a0, float a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi100(std::int32_t k) { std::shared_ptr<CObj> x = r_abi100(mk_String((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi101(rust::String a0, double a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi101(std::int32_t k) { TrivA x = r_abi101(mk_String((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi102(rust::String a0, S2 a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi102(std::int32_t k) { Eu8 x = r_abi102(mk_String((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi103(rust::String a0, S3 a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi103(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi103(mk_String((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi104(rust::String a0, S6 a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi104(std::int32_t k) { r_abi104(mk_String((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi105(rust::String a0, rust::String a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi105(std::int32_t k) { rust::String x = r_abi105(mk_String((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi106(rust::String a0, rust::Str a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi106(std::int32_t k) { S3 x = r_abi106(mk_String((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi107(rust::String a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi107(std::int32_t k) { S6 x = r_abi107(mk_String((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi108(rust::String a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi108(std::int32_t k) { rust::Box<RObj> x = r_abi108(mk_String((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi109(rust::String a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi109(std::int32_t k) { std::uint8_t x = r_abi109(mk_String((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi110(rust::String a0, TrivA a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi110(std::int32_t k) { double x = r_abi110(mk_String((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi111(rust::String a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_String(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi111(std::int32_t k) { std::unique_ptr<CObj> x = r_abi111(mk_String((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi112(rust::Str a0, std::uint8_t a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi112(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi112(mk_str((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi113(rust::Str a0, std::uint64_t a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi113(std::int32_t k) { std::shared_ptr<CObj> x = r_abi113(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi114(rust::Str a0, float a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi114(std::int32_t k) { TrivA x = r_abi114(mk_str((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi115(rust::Str a0, double a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi115(std::int32_t k) { Eu8 x = r_abi115(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi116(rust::Str a0, S2 a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi116(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi116(mk_str((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi117(rust::Str a0, S3 a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi117(std::int32_t k) { r_abi117(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi118(rust::Str a0, S6 a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi118(std::int32_t k) { rust::String x = r_abi118(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi119(rust::Str a0, rust::String a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi119(std::int32_t k) { S3 x = r_abi119(mk_str((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi120(rust::Str a0, rust::Str a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi120(std::int32_t k) { S6 x = r_abi120(mk_str((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi121(rust::Str a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi121(std::int32_t k) { rust::Box<RObj> x = r_abi121(mk_str((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi122(rust::Str a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi122(std::int32_t k) { std::uint8_t x = r_abi122(mk_str((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi123(rust::Str a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi123(std::int32_t k) { double x = r_abi123(mk_str((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi124(rust::Str a0, TrivA a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi124(std::int32_t k) { std::unique_ptr<CObj> x = r_abi124(mk_str((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi125(rust::Str a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi125(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi125(mk_str((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi126(rust::Box<RObj> a0, std::uint8_t a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi126(std::int32_t k) { std::shared_ptr<CObj> x = r_abi126(mk_Box_RObj((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi127(rust::Box<RObj> a0, std::uint64_t a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi127(std::int32_t k) { TrivA x = r_abi127(mk_Box_RObj((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi128(rust::Box<RObj> a0, float a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi128(std::int32_t k) { Eu8 x = r_abi128(mk_Box_RObj((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi129(rust::Box<RObj> a0, double a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi129(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi129(mk_Box_RObj((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi130(rust::Box<RObj> a0, S2 a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi130(std::int32_t k) { r_abi130(mk_Box_RObj((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi131(rust::Box<RObj> a0, S3 a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi131(std::int32_t k) { rust::String x = r_abi131(mk_Box_RObj((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi132(rust::Box<RObj> a0, S6 a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi132(std::int32_t k) { S3 x = r_abi132(mk_Box_RObj((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi133(rust::Box<RObj> a0, rust::String a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi133(std::int32_t k) { S6 x = r_abi133(mk_Box_RObj((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi134(rust::Box<RObj> a0, rust::Str a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi134(std::int32_t k) { rust::Box<RObj> x = r_abi134(mk_Box_RObj((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi135(rust::Box<RObj> a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi135(std::int32_t k) { std::uint8_t x = r_abi135(mk_Box_RObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi136(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi136(std::int32_t k) { double x = r_abi136(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi137(rust::Box<RObj> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi137(std::int32_t k) { std::unique_ptr<CObj> x = r_abi137(mk_Box_RObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi138(rust::Box<RObj> a0, TrivA a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi138(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi138(mk_Box_RObj((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi139(rust::Box<RObj> a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi139(std::int32_t k) { std::shared_ptr<CObj> x = r_abi139(mk_Box_RObj((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi140(std::unique_ptr<CObj> a0, std::uint8_t a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi140(std::int32_t k) { TrivA x = r_abi140(mk_UniquePtr_CObj((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi141(std::unique_ptr<CObj> a0, std::uint64_t a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi141(std::int32_t k) { Eu8 x = r_abi141(mk_UniquePtr_CObj((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi142(std::unique_ptr<CObj> a0, float a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi142(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi142(mk_UniquePtr_CObj((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi143(std::unique_ptr<CObj> a0, double a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi143(std::int32_t k) { r_abi143(mk_UniquePtr_CObj((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi144(std::unique_ptr<CObj> a0, S2 a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi144(std::int32_t k) { rust::String x = r_abi144(mk_UniquePtr_CObj((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi145(std::unique_ptr<CObj> a0, S3 a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi145(std::int32_t k) { S3 x = r_abi145(mk_UniquePtr_CObj((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi146(std::unique_ptr<CObj> a0, S6 a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi146(std::int32_t k) { S6 x = r_abi146(mk_UniquePtr_CObj((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi147(std::unique_ptr<CObj> a0, rust::String a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi147(std::int32_t k) { rust::Box<RObj> x = r_abi147(mk_UniquePtr_CObj((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi148(std::unique_ptr<CObj> a0, rust::Str a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi148(std::int32_t k) { std::uint8_t x = r_abi148(mk_UniquePtr_CObj((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi149(std::unique_ptr<CObj> a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi149(std::int32_t k) { double x = r_abi149(mk_UniquePtr_CObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi150(std::unique_ptr<CObj> a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi150(std::int32_t k) { std::unique_ptr<CObj> x = r_abi150(mk_UniquePtr_CObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi151(std::unique_ptr<CObj> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi151(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi151(mk_UniquePtr_CObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi152(std::unique_ptr<CObj> a0, TrivA a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi152(std::int32_t k) { std::shared_ptr<CObj> x = r_abi152(mk_UniquePtr_CObj((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi153(std::unique_ptr<CObj> a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi153(std::int32_t k) { TrivA x = r_abi153(mk_UniquePtr_CObj((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi154(rust::Slice<const std::uint16_t> a0, std::uint8_t a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi154(std::int32_t k) { Eu8 x = r_abi154(mk_sl_u16((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi155(rust::Slice<const std::uint16_t> a0, std::uint64_t a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi155(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi155(mk_sl_u16((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi156(rust::Slice<const std::uint16_t> a0, float a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi156(std::int32_t k) { r_abi156(mk_sl_u16((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi157(rust::Slice<const std::uint16_t> a0, double a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi157(std::int32_t k) { rust::String x = r_abi157(mk_sl_u16((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi158(rust::Slice<const std::uint16_t> a0, S2 a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi158(std::int32_t k) { S3 x = r_abi158(mk_sl_u16((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi159(rust::Slice<const std::uint16_t> a0, S3 a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi159(std::int32_t k) { S6 x = r_abi159(mk_sl_u16((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi160(rust::Slice<const std::uint16_t> a0, S6 a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi160(std::int32_t k) { rust::Box<RObj> x = r_abi160(mk_sl_u16((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi161(rust::Slice<const std::uint16_t> a0, rust::String a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi161(std::int32_t k) { std::uint8_t x = r_abi161(mk_sl_u16((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi162(rust::Slice<const std::uint16_t> a0, rust::Str a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi162(std::int32_t k) { double x = r_abi162(mk_sl_u16((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi163(rust::Slice<const std::uint16_t> a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi163(std::int32_t k) { std::unique_ptr<CObj> x = r_abi163(mk_sl_u16((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi164(rust::Slice<const std::uint16_t> a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi164(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi164(mk_sl_u16((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi165(rust::Slice<const std::uint16_t> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi165(std::int32_t k) { std::shared_ptr<CObj> x = r_abi165(mk_sl_u16((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi166(rust::Slice<const std::uint16_t> a0, TrivA a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi166(std::int32_t k) { TrivA x = r_abi166(mk_sl_u16((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi167(rust::Slice<const std::uint16_t> a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_sl_u16(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi167(std::int32_t k) { Eu8 x = r_abi167(mk_sl_u16((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi168(TrivA a0, std::uint8_t a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi168(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi168(mk_TrivA((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi169(TrivA a0, std::uint64_t a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi169(std::int32_t k) { r_abi169(mk_TrivA((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi170(TrivA a0, float a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi170(std::int32_t k) { rust::String x = r_abi170(mk_TrivA((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi171(TrivA a0, double a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi171(std::int32_t k) { S3 x = r_abi171(mk_TrivA((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi172(TrivA a0, S2 a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi172(std::int32_t k) { S6 x = r_abi172(mk_TrivA((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi173(TrivA a0, S3 a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi173(std::int32_t k) { rust::Box<RObj> x = r_abi173(mk_TrivA((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi174(TrivA a0, S6 a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi174(std::int32_t k) { std::uint8_t x = r_abi174(mk_TrivA((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi175(TrivA a0, rust::String a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi175(std::int32_t k) { double x = r_abi175(mk_TrivA((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi176(TrivA a0, rust::Str a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi176(std::int32_t k) { std::unique_ptr<CObj> x = r_abi176(mk_TrivA((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi177(TrivA a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi177(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi177(mk_TrivA((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi178(TrivA a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi178(std::int32_t k) { std::shared_ptr<CObj> x = r_abi178(mk_TrivA((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi179(TrivA a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi179(std::int32_t k) { TrivA x = r_abi179(mk_TrivA((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi180(TrivA a0, TrivA a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi180(std::int32_t k) { Eu8 x = r_abi180(mk_TrivA((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi181(TrivA a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi181(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi181(mk_TrivA((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi182(std::shared_ptr<CObj> a0, std::uint8_t a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_u8(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi182(std::int32_t k) { r_abi182(mk_SharedPtr_CObj((k + 0) & 3), mk_u8((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi183(std::shared_ptr<CObj> a0, std::uint64_t a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi183(std::int32_t k) { rust::String x = r_abi183(mk_SharedPtr_CObj((k + 0) & 3), mk_u64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi184(std::shared_ptr<CObj> a0, float a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_f32(a1, (k + 1) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi184(std::int32_t k) { S3 x = r_abi184(mk_SharedPtr_CObj((k + 0) & 3), mk_f32((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi185(std::shared_ptr<CObj> a0, double a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi185(std::int32_t k) { S6 x = r_abi185(mk_SharedPtr_CObj((k + 0) & 3), mk_f64((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi186(std::shared_ptr<CObj> a0, S2 a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi186(std::int32_t k) { rust::Box<RObj> x = r_abi186(mk_SharedPtr_CObj((k + 0) & 3), mk_S2((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi187(std::shared_ptr<CObj> a0, S3 a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi187(std::int32_t k) { std::uint8_t x = r_abi187(mk_SharedPtr_CObj((k + 0) & 3), mk_S3((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi188(std::shared_ptr<CObj> a0, S6 a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi188(std::int32_t k) { double x = r_abi188(mk_SharedPtr_CObj((k + 0) & 3), mk_S6((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi189(std::shared_ptr<CObj> a0, rust::String a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi189(std::int32_t k) { std::unique_ptr<CObj> x = r_abi189(mk_SharedPtr_CObj((k + 0) & 3), mk_String((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi190(std::shared_ptr<CObj> a0, rust::Str a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_str(a1, (k + 1) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi190(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi190(mk_SharedPtr_CObj((k + 0) & 3), mk_str((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi191(std::shared_ptr<CObj> a0, rust::Box<RObj> a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi191(std::int32_t k) { std::shared_ptr<CObj> x = r_abi191(mk_SharedPtr_CObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi192(std::shared_ptr<CObj> a0, std::unique_ptr<CObj> a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi192(std::int32_t k) { TrivA x = r_abi192(mk_SharedPtr_CObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi193(std::shared_ptr<CObj> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi193(std::int32_t k) { Eu8 x = r_abi193(mk_SharedPtr_CObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi194(std::shared_ptr<CObj> a0, TrivA a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_TrivA(a1, (k + 1) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi194(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi194(mk_SharedPtr_CObj((k + 0) & 3), mk_TrivA((k + 1) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi195(std::shared_ptr<CObj> a0, std::shared_ptr<CObj> a1, std::int32_t k) { note(ck_SharedPtr_CObj(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) ? 7 : 8); }
bool c_run_abi195(std::int32_t k) { r_abi195(mk_SharedPtr_CObj((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi196(std::uint8_t a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi196(std::int32_t k) { rust::String x = r_abi196(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi197(std::uint8_t a0, std::uint64_t a1, double a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi197(std::int32_t k) { S3 x = r_abi197(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi198(std::uint8_t a0, std::uint64_t a1, rust::Str a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi198(std::int32_t k) { S6 x = r_abi198(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi199(std::uint8_t a0, std::uint64_t a1, S3 a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi199(std::int32_t k) { rust::Box<RObj> x = r_abi199(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi200(std::uint8_t a0, double a1, std::uint8_t a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi200(std::int32_t k) { std::uint8_t x = r_abi200(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi201(std::uint8_t a0, double a1, double a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi201(std::int32_t k) { double x = r_abi201(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi202(std::uint8_t a0, double a1, rust::Str a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi202(std::int32_t k) { std::unique_ptr<CObj> x = r_abi202(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi203(std::uint8_t a0, double a1, S3 a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi203(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi203(mk_u8((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi204(std::uint8_t a0, S3 a1, std::uint8_t a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi204(std::int32_t k) { std::shared_ptr<CObj> x = r_abi204(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi205(std::uint8_t a0, S3 a1, double a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi205(std::int32_t k) { TrivA x = r_abi205(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi206(std::uint8_t a0, S3 a1, rust::Str a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi206(std::int32_t k) { Eu8 x = r_abi206(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi207(std::uint8_t a0, S3 a1, S3 a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi207(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi207(mk_u8((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi208(std::uint8_t a0, rust::String a1, std::uint8_t a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi208(std::int32_t k) { r_abi208(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi209(std::uint8_t a0, rust::String a1, double a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi209(std::int32_t k) { rust::String x = r_abi209(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi210(std::uint8_t a0, rust::String a1, rust::Str a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi210(std::int32_t k) { S3 x = r_abi210(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi211(std::uint8_t a0, rust::String a1, S3 a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi211(std::int32_t k) { S6 x = r_abi211(mk_u8((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi212(std::uint8_t a0, S6 a1, std::uint8_t a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi212(std::int32_t k) { rust::Box<RObj> x = r_abi212(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi213(std::uint8_t a0, S6 a1, double a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi213(std::int32_t k) { std::uint8_t x = r_abi213(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi214(std::uint8_t a0, S6 a1, rust::Str a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi214(std::int32_t k) { double x = r_abi214(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi215(std::uint8_t a0, S6 a1, S3 a2, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi215(std::int32_t k) { std::unique_ptr<CObj> x = r_abi215(mk_u8((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi216(float a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi216(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi216(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi217(float a0, std::uint64_t a1, double a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi217(std::int32_t k) { std::shared_ptr<CObj> x = r_abi217(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi218(float a0, std::uint64_t a1, rust::Str a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi218(std::int32_t k) { TrivA x = r_abi218(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi219(float a0, std::uint64_t a1, S3 a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi219(std::int32_t k) { Eu8 x = r_abi219(mk_f32((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi220(float a0, double a1, std::uint8_t a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi220(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi220(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi221(float a0, double a1, double a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi221(std::int32_t k) { r_abi221(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi222(float a0, double a1, rust::Str a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi222(std::int32_t k) { rust::String x = r_abi222(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi223(float a0, double a1, S3 a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi223(std::int32_t k) { S3 x = r_abi223(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi224(float a0, S3 a1, std::uint8_t a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi224(std::int32_t k) { S6 x = r_abi224(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi225(float a0, S3 a1, double a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi225(std::int32_t k) { rust::Box<RObj> x = r_abi225(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi226(float a0, S3 a1, rust::Str a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi226(std::int32_t k) { std::uint8_t x = r_abi226(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi227(float a0, S3 a1, S3 a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi227(std::int32_t k) { double x = r_abi227(mk_f32((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi228(float a0, rust::String a1, std::uint8_t a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi228(std::int32_t k) { std::unique_ptr<CObj> x = r_abi228(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi229(float a0, rust::String a1, double a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi229(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi229(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi230(float a0, rust::String a1, rust::Str a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi230(std::int32_t k) { std::shared_ptr<CObj> x = r_abi230(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi231(float a0, rust::String a1, S3 a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi231(std::int32_t k) { TrivA x = r_abi231(mk_f32((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi232(float a0, S6 a1, std::uint8_t a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi232(std::int32_t k) { Eu8 x = r_abi232(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi233(float a0, S6 a1, double a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi233(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi233(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi234(float a0, S6 a1, rust::Str a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi234(std::int32_t k) { r_abi234(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi235(float a0, S6 a1, S3 a2, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi235(std::int32_t k) { rust::String x = r_abi235(mk_f32((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi236(S2 a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi236(std::int32_t k) { S3 x = r_abi236(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi237(S2 a0, std::uint64_t a1, double a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi237(std::int32_t k) { S6 x = r_abi237(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi238(S2 a0, std::uint64_t a1, rust::Str a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi238(std::int32_t k) { rust::Box<RObj> x = r_abi238(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi239(S2 a0, std::uint64_t a1, S3 a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi239(std::int32_t k) { std::uint8_t x = r_abi239(mk_S2((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi240(S2 a0, double a1, std::uint8_t a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi240(std::int32_t k) { double x = r_abi240(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi241(S2 a0, double a1, double a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi241(std::int32_t k) { std::unique_ptr<CObj> x = r_abi241(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi242(S2 a0, double a1, rust::Str a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi242(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi242(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi243(S2 a0, double a1, S3 a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi243(std::int32_t k) { std::shared_ptr<CObj> x = r_abi243(mk_S2((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi244(S2 a0, S3 a1, std::uint8_t a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi244(std::int32_t k) { TrivA x = r_abi244(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi245(S2 a0, S3 a1, double a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi245(std::int32_t k) { Eu8 x = r_abi245(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi246(S2 a0, S3 a1, rust::Str a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi246(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi246(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi247(S2 a0, S3 a1, S3 a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi247(std::int32_t k) { r_abi247(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi248(S2 a0, rust::String a1, std::uint8_t a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi248(std::int32_t k) { rust::String x = r_abi248(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi249(S2 a0, rust::String a1, double a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi249(std::int32_t k) { S3 x = r_abi249(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi250(S2 a0, rust::String a1, rust::Str a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi250(std::int32_t k) { S6 x = r_abi250(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi251(S2 a0, rust::String a1, S3 a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi251(std::int32_t k) { rust::Box<RObj> x = r_abi251(mk_S2((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi252(S2 a0, S6 a1, std::uint8_t a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi252(std::int32_t k) { std::uint8_t x = r_abi252(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi253(S2 a0, S6 a1, double a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi253(std::int32_t k) { double x = r_abi253(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi254(S2 a0, S6 a1, rust::Str a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi254(std::int32_t k) { std::unique_ptr<CObj> x = r_abi254(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi255(S2 a0, S6 a1, S3 a2, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi255(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi255(mk_S2((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi256(S6 a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi256(std::int32_t k) { std::shared_ptr<CObj> x = r_abi256(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi257(S6 a0, std::uint64_t a1, double a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi257(std::int32_t k) { TrivA x = r_abi257(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi258(S6 a0, std::uint64_t a1, rust::Str a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi258(std::int32_t k) { Eu8 x = r_abi258(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi259(S6 a0, std::uint64_t a1, S3 a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi259(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi259(mk_S6((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi260(S6 a0, double a1, std::uint8_t a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi260(std::int32_t k) { r_abi260(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi261(S6 a0, double a1, double a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi261(std::int32_t k) { rust::String x = r_abi261(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi262(S6 a0, double a1, rust::Str a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi262(std::int32_t k) { S3 x = r_abi262(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi263(S6 a0, double a1, S3 a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi263(std::int32_t k) { S6 x = r_abi263(mk_S6((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi264(S6 a0, S3 a1, std::uint8_t a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi264(std::int32_t k) { rust::Box<RObj> x = r_abi264(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi265(S6 a0, S3 a1, double a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi265(std::int32_t k) { std::uint8_t x = r_abi265(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi266(S6 a0, S3 a1, rust::Str a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi266(std::int32_t k) { double x = r_abi266(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi267(S6 a0, S3 a1, S3 a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi267(std::int32_t k) { std::unique_ptr<CObj> x = r_abi267(mk_S6((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi268(S6 a0, rust::String a1, std::uint8_t a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi268(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi268(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi269(S6 a0, rust::String a1, double a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi269(std::int32_t k) { std::shared_ptr<CObj> x = r_abi269(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi270(S6 a0, rust::String a1, rust::Str a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi270(std::int32_t k) { TrivA x = r_abi270(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi271(S6 a0, rust::String a1, S3 a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi271(std::int32_t k) { Eu8 x = r_abi271(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi272(S6 a0, S6 a1, std::uint8_t a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi272(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi272(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi273(S6 a0, S6 a1, double a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi273(std::int32_t k) { r_abi273(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi274(S6 a0, S6 a1, rust::Str a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi274(std::int32_t k) { rust::String x = r_abi274(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi275(S6 a0, S6 a1, S3 a2, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi275(std::int32_t k) { S3 x = r_abi275(mk_S6((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi276(rust::Str a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi276(std::int32_t k) { S6 x = r_abi276(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi277(rust::Str a0, std::uint64_t a1, double a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi277(std::int32_t k) { rust::Box<RObj> x = r_abi277(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi278(rust::Str a0, std::uint64_t a1, rust::Str a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi278(std::int32_t k) { std::uint8_t x = r_abi278(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi279(rust::Str a0, std::uint64_t a1, S3 a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi279(std::int32_t k) { double x = r_abi279(mk_str((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi280(rust::Str a0, double a1, std::uint8_t a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi280(std::int32_t k) { std::unique_ptr<CObj> x = r_abi280(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi281(rust::Str a0, double a1, double a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi281(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi281(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi282(rust::Str a0, double a1, rust::Str a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi282(std::int32_t k) { std::shared_ptr<CObj> x = r_abi282(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi283(rust::Str a0, double a1, S3 a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi283(std::int32_t k) { TrivA x = r_abi283(mk_str((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi284(rust::Str a0, S3 a1, std::uint8_t a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi284(std::int32_t k) { Eu8 x = r_abi284(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi285(rust::Str a0, S3 a1, double a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi285(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi285(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi286(rust::Str a0, S3 a1, rust::Str a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi286(std::int32_t k) { r_abi286(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi287(rust::Str a0, S3 a1, S3 a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi287(std::int32_t k) { rust::String x = r_abi287(mk_str((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi288(rust::Str a0, rust::String a1, std::uint8_t a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi288(std::int32_t k) { S3 x = r_abi288(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi289(rust::Str a0, rust::String a1, double a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi289(std::int32_t k) { S6 x = r_abi289(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi290(rust::Str a0, rust::String a1, rust::Str a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi290(std::int32_t k) { rust::Box<RObj> x = r_abi290(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi291(rust::Str a0, rust::String a1, S3 a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi291(std::int32_t k) { std::uint8_t x = r_abi291(mk_str((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi292(rust::Str a0, S6 a1, std::uint8_t a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi292(std::int32_t k) { double x = r_abi292(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi293(rust::Str a0, S6 a1, double a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi293(std::int32_t k) { std::unique_ptr<CObj> x = r_abi293(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi294(rust::Str a0, S6 a1, rust::Str a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi294(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi294(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi295(rust::Str a0, S6 a1, S3 a2, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi295(std::int32_t k) { std::shared_ptr<CObj> x = r_abi295(mk_str((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi296(S3 a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi296(std::int32_t k) { TrivA x = r_abi296(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi297(S3 a0, std::uint64_t a1, double a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi297(std::int32_t k) { Eu8 x = r_abi297(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi298(S3 a0, std::uint64_t a1, rust::Str a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi298(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi298(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi299(S3 a0, std::uint64_t a1, S3 a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi299(std::int32_t k) { r_abi299(mk_S3((k + 0) & 3), mk_u64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi300(S3 a0, double a1, std::uint8_t a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi300(std::int32_t k) { rust::String x = r_abi300(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi301(S3 a0, double a1, double a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi301(std::int32_t k) { S3 x = r_abi301(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi302(S3 a0, double a1, rust::Str a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi302(std::int32_t k) { S6 x = r_abi302(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi303(S3 a0, double a1, S3 a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi303(std::int32_t k) { rust::Box<RObj> x = r_abi303(mk_S3((k + 0) & 3), mk_f64((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi304(S3 a0, S3 a1, std::uint8_t a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi304(std::int32_t k) { std::uint8_t x = r_abi304(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi305(S3 a0, S3 a1, double a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi305(std::int32_t k) { double x = r_abi305(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi306(S3 a0, S3 a1, rust::Str a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi306(std::int32_t k) { std::unique_ptr<CObj> x = r_abi306(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi307(S3 a0, S3 a1, S3 a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi307(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi307(mk_S3((k + 0) & 3), mk_S3((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi308(S3 a0, rust::String a1, std::uint8_t a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi308(std::int32_t k) { std::shared_ptr<CObj> x = r_abi308(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi309(S3 a0, rust::String a1, double a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi309(std::int32_t k) { TrivA x = r_abi309(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi310(S3 a0, rust::String a1, rust::Str a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi310(std::int32_t k) { Eu8 x = r_abi310(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi311(S3 a0, rust::String a1, S3 a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi311(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi311(mk_S3((k + 0) & 3), mk_String((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi312(S3 a0, S6 a1, std::uint8_t a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) ? 7 : 8); }
bool c_run_abi312(std::int32_t k) { r_abi312(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_u8((k + 2) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi313(S3 a0, S6 a1, double a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_f64(a2, (k + 2) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi313(std::int32_t k) { rust::String x = r_abi313(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_f64((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi314(S3 a0, S6 a1, rust::Str a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi314(std::int32_t k) { S3 x = r_abi314(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_str((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi315(S3 a0, S6 a1, S3 a2, std::int32_t k) { note(ck_S3(a0, (k + 0) & 3) && ck_S6(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi315(std::int32_t k) { S6 x = r_abi315(mk_S3((k + 0) & 3), mk_S6((k + 1) & 3), mk_S3((k + 2) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi316(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, S6 a6, rust::String a7, rust::Str a8, rust::Box<RObj> a9, std::unique_ptr<CObj> a10, rust::Slice<const std::uint16_t> a11, bool a12, Eu8 a13, TrivA a14, std::array<std::uint8_t, 4> a15, S2 const & a16, std::shared_ptr<CObj> a17, std::weak_ptr<CObj> a18, rust::Vec<std::uint8_t> a19, RObj const & a20, S7 & a21, std::int8_t a22, char a23, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f32(a2, (k + 2) & 3) && ck_f64(a3, (k + 3) & 3) && ck_S2(a4, (k + 4) & 3) && ck_S3(a5, (k + 5) & 3) && ck_S6(a6, (k + 6) & 3) && ck_String(a7, (k + 7) & 3) && ck_str(a8, (k + 8) & 3) && ck_Box_RObj(a9, (k + 9) & 3) && ck_UniquePtr_CObj(a10, (k + 10) & 3) && ck_sl_u16(a11, (k + 11) & 3) && ck_bool(a12, (k + 12) & 3) && ck_Eu8(a13, (k + 13) & 3) && ck_TrivA(a14, (k + 14) & 3) && ck_arr4_u8(a15, (k + 15) & 3) && ck_ref_S2(a16, (k + 16) & 3) && ck_SharedPtr_CObj(a17, (k + 17) & 3) && ck_WeakPtr_CObj(a18, (k + 18) & 3) && ck_Vec_u8(a19, (k + 19) & 3) && ck_ref_RObj(a20, (k + 20) & 3) && ck_mut_S7(a21, (k + 21) & 3) && ck_i8(a22, (k + 22) & 3) && ck_c_char(a23, (k + 23) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi316(std::int32_t k) { rust::Box<RObj> x = r_abi316(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), mk_S6((k + 6) & 3), mk_String((k + 7) & 3), mk_str((k + 8) & 3), mk_Box_RObj((k + 9) & 3), mk_UniquePtr_CObj((k + 10) & 3), mk_sl_u16((k + 11) & 3), mk_bool((k + 12) & 3), mk_Eu8((k + 13) & 3), mk_TrivA((k + 14) & 3), mk_arr4_u8((k + 15) & 3), mk_ref_S2((k + 16) & 3), mk_SharedPtr_CObj((k + 17) & 3), mk_WeakPtr_CObj((k + 18) & 3), mk_Vec_u8((k + 19) & 3), mk_ref_RObj((k + 20) & 3), mk_mut_S7((k + 21) & 3), mk_i8((k + 22) & 3), mk_c_char((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi317(float a0, double a1, S2 a2, S3 a3, S6 a4, rust::String a5, rust::Str a6, rust::Box<RObj> a7, std::unique_ptr<CObj> a8, rust::Slice<const std::uint16_t> a9, bool a10, Eu8 a11, TrivA a12, std::array<std::uint8_t, 4> a13, S2 const & a14, std::shared_ptr<CObj> a15, std::weak_ptr<CObj> a16, rust::Vec<std::uint8_t> a17, RObj const & a18, S7 & a19, std::int8_t a20, char a21, std::uint8_t a22, std::uint64_t a23, std::int32_t k) { note(ck_f32(a0, (k + 0) & 3) && ck_f64(a1, (k + 1) & 3) && ck_S2(a2, (k + 2) & 3) && ck_S3(a3, (k + 3) & 3) && ck_S6(a4, (k + 4) & 3) && ck_String(a5, (k + 5) & 3) && ck_str(a6, (k + 6) & 3) && ck_Box_RObj(a7, (k + 7) & 3) && ck_UniquePtr_CObj(a8, (k + 8) & 3) && ck_sl_u16(a9, (k + 9) & 3) && ck_bool(a10, (k + 10) & 3) && ck_Eu8(a11, (k + 11) & 3) && ck_TrivA(a12, (k + 12) & 3) && ck_arr4_u8(a13, (k + 13) & 3) && ck_ref_S2(a14, (k + 14) & 3) && ck_SharedPtr_CObj(a15, (k + 15) & 3) && ck_WeakPtr_CObj(a16, (k + 16) & 3) && ck_Vec_u8(a17, (k + 17) & 3) && ck_ref_RObj(a18, (k + 18) & 3) && ck_mut_S7(a19, (k + 19) & 3) && ck_i8(a20, (k + 20) & 3) && ck_c_char(a21, (k + 21) & 3) && ck_u8(a22, (k + 22) & 3) && ck_u64(a23, (k + 23) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi317(std::int32_t k) { std::uint8_t x = r_abi317(mk_f32((k + 0) & 3), mk_f64((k + 1) & 3), mk_S2((k + 2) & 3), mk_S3((k + 3) & 3), mk_S6((k + 4) & 3), mk_String((k + 5) & 3), mk_str((k + 6) & 3), mk_Box_RObj((k + 7) & 3), mk_UniquePtr_CObj((k + 8) & 3), mk_sl_u16((k + 9) & 3), mk_bool((k + 10) & 3), mk_Eu8((k + 11) & 3), mk_TrivA((k + 12) & 3), mk_arr4_u8((k + 13) & 3), mk_ref_S2((k + 14) & 3), mk_SharedPtr_CObj((k + 15) & 3), mk_WeakPtr_CObj((k + 16) & 3), mk_Vec_u8((k + 17) & 3), mk_ref_RObj((k + 18) & 3), mk_mut_S7((k + 19) & 3), mk_i8((k + 20) & 3), mk_c_char((k + 21) & 3), mk_u8((k + 22) & 3), mk_u64((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi318(S2 a0, S3 a1, S6 a2, rust::String a3, rust::Str a4, rust::Box<RObj> a5, std::unique_ptr<CObj> a6, rust::Slice<const std::uint16_t> a7, bool a8, Eu8 a9, TrivA a10, std::array<std::uint8_t, 4> a11, S2 const & a12, std::shared_ptr<CObj> a13, std::weak_ptr<CObj> a14, rust::Vec<std::uint8_t> a15, RObj const & a16, S7 & a17, std::int8_t a18, char a19, std::uint8_t a20, std::uint64_t a21, float a22, double a23, std::int32_t k) { note(ck_S2(a0, (k + 0) & 3) && ck_S3(a1, (k + 1) & 3) && ck_S6(a2, (k + 2) & 3) && ck_String(a3, (k + 3) & 3) && ck_str(a4, (k + 4) & 3) && ck_Box_RObj(a5, (k + 5) & 3) && ck_UniquePtr_CObj(a6, (k + 6) & 3) && ck_sl_u16(a7, (k + 7) & 3) && ck_bool(a8, (k + 8) & 3) && ck_Eu8(a9, (k + 9) & 3) && ck_TrivA(a10, (k + 10) & 3) && ck_arr4_u8(a11, (k + 11) & 3) && ck_ref_S2(a12, (k + 12) & 3) && ck_SharedPtr_CObj(a13, (k + 13) & 3) && ck_WeakPtr_CObj(a14, (k + 14) & 3) && ck_Vec_u8(a15, (k + 15) & 3) && ck_ref_RObj(a16, (k + 16) & 3) && ck_mut_S7(a17, (k + 17) & 3) && ck_i8(a18, (k + 18) & 3) && ck_c_char(a19, (k + 19) & 3) && ck_u8(a20, (k + 20) & 3) && ck_u64(a21, (k + 21) & 3) && ck_f32(a22, (k + 22) & 3) && ck_f64(a23, (k + 23) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi318(std::int32_t k) { double x = r_abi318(mk_S2((k + 0) & 3), mk_S3((k + 1) & 3), mk_S6((k + 2) & 3), mk_String((k + 3) & 3), mk_str((k + 4) & 3), mk_Box_RObj((k + 5) & 3), mk_UniquePtr_CObj((k + 6) & 3), mk_sl_u16((k + 7) & 3), mk_bool((k + 8) & 3), mk_Eu8((k + 9) & 3), mk_TrivA((k + 10) & 3), mk_arr4_u8((k + 11) & 3), mk_ref_S2((k + 12) & 3), mk_SharedPtr_CObj((k + 13) & 3), mk_WeakPtr_CObj((k + 14) & 3), mk_Vec_u8((k + 15) & 3), mk_ref_RObj((k + 16) & 3), mk_mut_S7((k + 17) & 3), mk_i8((k + 18) & 3), mk_c_char((k + 19) & 3), mk_u8((k + 20) & 3), mk_u64((k + 21) & 3), mk_f32((k + 22) & 3), mk_f64((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi319(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, bool a6, Eu8 a7, TrivA a8, std::array<std::uint8_t, 4> a9, S2 const & a10, std::shared_ptr<CObj> a11, std::weak_ptr<CObj> a12, rust::Vec<std::uint8_t> a13, RObj const & a14, S7 & a15, std::int8_t a16, char a17, std::uint8_t a18, std::uint64_t a19, float a20, double a21, S2 a22, S3 a23, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) && ck_Box_RObj(a3, (k + 3) & 3) && ck_UniquePtr_CObj(a4, (k + 4) & 3) && ck_sl_u16(a5, (k + 5) & 3) && ck_bool(a6, (k + 6) & 3) && ck_Eu8(a7, (k + 7) & 3) && ck_TrivA(a8, (k + 8) & 3) && ck_arr4_u8(a9, (k + 9) & 3) && ck_ref_S2(a10, (k + 10) & 3) && ck_SharedPtr_CObj(a11, (k + 11) & 3) && ck_WeakPtr_CObj(a12, (k + 12) & 3) && ck_Vec_u8(a13, (k + 13) & 3) && ck_ref_RObj(a14, (k + 14) & 3) && ck_mut_S7(a15, (k + 15) & 3) && ck_i8(a16, (k + 16) & 3) && ck_c_char(a17, (k + 17) & 3) && ck_u8(a18, (k + 18) & 3) && ck_u64(a19, (k + 19) & 3) && ck_f32(a20, (k + 20) & 3) && ck_f64(a21, (k + 21) & 3) && ck_S2(a22, (k + 22) & 3) && ck_S3(a23, (k + 23) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi319(std::int32_t k) { std::unique_ptr<CObj> x = r_abi319(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), mk_bool((k + 6) & 3), mk_Eu8((k + 7) & 3), mk_TrivA((k + 8) & 3), mk_arr4_u8((k + 9) & 3), mk_ref_S2((k + 10) & 3), mk_SharedPtr_CObj((k + 11) & 3), mk_WeakPtr_CObj((k + 12) & 3), mk_Vec_u8((k + 13) & 3), mk_ref_RObj((k + 14) & 3), mk_mut_S7((k + 15) & 3), mk_i8((k + 16) & 3), mk_c_char((k + 17) & 3), mk_u8((k + 18) & 3), mk_u64((k + 19) & 3), mk_f32((k + 20) & 3), mk_f64((k + 21) & 3), mk_S2((k + 22) & 3), mk_S3((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi320(rust::Str a0, rust::Box<RObj> a1, std::unique_ptr<CObj> a2, rust::Slice<const std::uint16_t> a3, bool a4, Eu8 a5, TrivA a6, std::array<std::uint8_t, 4> a7, S2 const & a8, std::shared_ptr<CObj> a9, std::weak_ptr<CObj> a10, rust::Vec<std::uint8_t> a11, RObj const & a12, S7 & a13, std::int8_t a14, char a15, std::uint8_t a16, std::uint64_t a17, float a18, double a19, S2 a20, S3 a21, S6 a22, rust::String a23, std::int32_t k) { note(ck_str(a0, (k + 0) & 3) && ck_Box_RObj(a1, (k + 1) & 3) && ck_UniquePtr_CObj(a2, (k + 2) & 3) && ck_sl_u16(a3, (k + 3) & 3) && ck_bool(a4, (k + 4) & 3) && ck_Eu8(a5, (k + 5) & 3) && ck_TrivA(a6, (k + 6) & 3) && ck_arr4_u8(a7, (k + 7) & 3) && ck_ref_S2(a8, (k + 8) & 3) && ck_SharedPtr_CObj(a9, (k + 9) & 3) && ck_WeakPtr_CObj(a10, (k + 10) & 3) && ck_Vec_u8(a11, (k + 11) & 3) && ck_ref_RObj(a12, (k + 12) & 3) && ck_mut_S7(a13, (k + 13) & 3) && ck_i8(a14, (k + 14) & 3) && ck_c_char(a15, (k + 15) & 3) && ck_u8(a16, (k + 16) & 3) && ck_u64(a17, (k + 17) & 3) && ck_f32(a18, (k + 18) & 3) && ck_f64(a19, (k + 19) & 3) && ck_S2(a20, (k + 20) & 3) && ck_S3(a21, (k + 21) & 3) && ck_S6(a22, (k + 22) & 3) && ck_String(a23, (k + 23) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi320(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi320(mk_str((k + 0) & 3), mk_Box_RObj((k + 1) & 3), mk_UniquePtr_CObj((k + 2) & 3), mk_sl_u16((k + 3) & 3), mk_bool((k + 4) & 3), mk_Eu8((k + 5) & 3), mk_TrivA((k + 6) & 3), mk_arr4_u8((k + 7) & 3), mk_ref_S2((k + 8) & 3), mk_SharedPtr_CObj((k + 9) & 3), mk_WeakPtr_CObj((k + 10) & 3), mk_Vec_u8((k + 11) & 3), mk_ref_RObj((k + 12) & 3), mk_mut_S7((k + 13) & 3), mk_i8((k + 14) & 3), mk_c_char((k + 15) & 3), mk_u8((k + 16) & 3), mk_u64((k + 17) & 3), mk_f32((k + 18) & 3), mk_f64((k + 19) & 3), mk_S2((k + 20) & 3), mk_S3((k + 21) & 3), mk_S6((k + 22) & 3), mk_String((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi321(std::unique_ptr<CObj> a0, rust::Slice<const std::uint16_t> a1, bool a2, Eu8 a3, TrivA a4, std::array<std::uint8_t, 4> a5, S2 const & a6, std::shared_ptr<CObj> a7, std::weak_ptr<CObj> a8, rust::Vec<std::uint8_t> a9, RObj const & a10, S7 & a11, std::int8_t a12, char a13, std::uint8_t a14, std::uint64_t a15, float a16, double a17, S2 a18, S3 a19, S6 a20, rust::String a21, rust::Str a22, rust::Box<RObj> a23, std::int32_t k) { note(ck_UniquePtr_CObj(a0, (k + 0) & 3) && ck_sl_u16(a1, (k + 1) & 3) && ck_bool(a2, (k + 2) & 3) && ck_Eu8(a3, (k + 3) & 3) && ck_TrivA(a4, (k + 4) & 3) && ck_arr4_u8(a5, (k + 5) & 3) && ck_ref_S2(a6, (k + 6) & 3) && ck_SharedPtr_CObj(a7, (k + 7) & 3) && ck_WeakPtr_CObj(a8, (k + 8) & 3) && ck_Vec_u8(a9, (k + 9) & 3) && ck_ref_RObj(a10, (k + 10) & 3) && ck_mut_S7(a11, (k + 11) & 3) && ck_i8(a12, (k + 12) & 3) && ck_c_char(a13, (k + 13) & 3) && ck_u8(a14, (k + 14) & 3) && ck_u64(a15, (k + 15) & 3) && ck_f32(a16, (k + 16) & 3) && ck_f64(a17, (k + 17) & 3) && ck_S2(a18, (k + 18) & 3) && ck_S3(a19, (k + 19) & 3) && ck_S6(a20, (k + 20) & 3) && ck_String(a21, (k + 21) & 3) && ck_str(a22, (k + 22) & 3) && ck_Box_RObj(a23, (k + 23) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi321(std::int32_t k) { std::shared_ptr<CObj> x = r_abi321(mk_UniquePtr_CObj((k + 0) & 3), mk_sl_u16((k + 1) & 3), mk_bool((k + 2) & 3), mk_Eu8((k + 3) & 3), mk_TrivA((k + 4) & 3), mk_arr4_u8((k + 5) & 3), mk_ref_S2((k + 6) & 3), mk_SharedPtr_CObj((k + 7) & 3), mk_WeakPtr_CObj((k + 8) & 3), mk_Vec_u8((k + 9) & 3), mk_ref_RObj((k + 10) & 3), mk_mut_S7((k + 11) & 3), mk_i8((k + 12) & 3), mk_c_char((k + 13) & 3), mk_u8((k + 14) & 3), mk_u64((k + 15) & 3), mk_f32((k + 16) & 3), mk_f64((k + 17) & 3), mk_S2((k + 18) & 3), mk_S3((k + 19) & 3), mk_S6((k + 20) & 3), mk_String((k + 21) & 3), mk_str((k + 22) & 3), mk_Box_RObj((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi322(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::weak_ptr<CObj> a6, rust::Vec<std::uint8_t> a7, RObj const & a8, S7 & a9, std::int8_t a10, char a11, std::uint8_t a12, std::uint64_t a13, float a14, double a15, S2 a16, S3 a17, S6 a18, rust::String a19, rust::Str a20, rust::Box<RObj> a21, std::unique_ptr<CObj> a22, rust::Slice<const std::uint16_t> a23, std::int32_t k) { note(ck_bool(a0, (k + 0) & 3) && ck_Eu8(a1, (k + 1) & 3) && ck_TrivA(a2, (k + 2) & 3) && ck_arr4_u8(a3, (k + 3) & 3) && ck_ref_S2(a4, (k + 4) & 3) && ck_SharedPtr_CObj(a5, (k + 5) & 3) && ck_WeakPtr_CObj(a6, (k + 6) & 3) && ck_Vec_u8(a7, (k + 7) & 3) && ck_ref_RObj(a8, (k + 8) & 3) && ck_mut_S7(a9, (k + 9) & 3) && ck_i8(a10, (k + 10) & 3) && ck_c_char(a11, (k + 11) & 3) && ck_u8(a12, (k + 12) & 3) && ck_u64(a13, (k + 13) & 3) && ck_f32(a14, (k + 14) & 3) && ck_f64(a15, (k + 15) & 3) && ck_S2(a16, (k + 16) & 3) && ck_S3(a17, (k + 17) & 3) && ck_S6(a18, (k + 18) & 3) && ck_String(a19, (k + 19) & 3) && ck_str(a20, (k + 20) & 3) && ck_Box_RObj(a21, (k + 21) & 3) && ck_UniquePtr_CObj(a22, (k + 22) & 3) && ck_sl_u16(a23, (k + 23) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi322(std::int32_t k) { TrivA x = r_abi322(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), mk_WeakPtr_CObj((k + 6) & 3), mk_Vec_u8((k + 7) & 3), mk_ref_RObj((k + 8) & 3), mk_mut_S7((k + 9) & 3), mk_i8((k + 10) & 3), mk_c_char((k + 11) & 3), mk_u8((k + 12) & 3), mk_u64((k + 13) & 3), mk_f32((k + 14) & 3), mk_f64((k + 15) & 3), mk_S2((k + 16) & 3), mk_S3((k + 17) & 3), mk_S6((k + 18) & 3), mk_String((k + 19) & 3), mk_str((k + 20) & 3), mk_Box_RObj((k + 21) & 3), mk_UniquePtr_CObj((k + 22) & 3), mk_sl_u16((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi323(TrivA a0, std::array<std::uint8_t, 4> a1, S2 const & a2, std::shared_ptr<CObj> a3, std::weak_ptr<CObj> a4, rust::Vec<std::uint8_t> a5, RObj const & a6, S7 & a7, std::int8_t a8, char a9, std::uint8_t a10, std::uint64_t a11, float a12, double a13, S2 a14, S3 a15, S6 a16, rust::String a17, rust::Str a18, rust::Box<RObj> a19, std::unique_ptr<CObj> a20, rust::Slice<const std::uint16_t> a21, bool a22, Eu8 a23, std::int32_t k) { note(ck_TrivA(a0, (k + 0) & 3) && ck_arr4_u8(a1, (k + 1) & 3) && ck_ref_S2(a2, (k + 2) & 3) && ck_SharedPtr_CObj(a3, (k + 3) & 3) && ck_WeakPtr_CObj(a4, (k + 4) & 3) && ck_Vec_u8(a5, (k + 5) & 3) && ck_ref_RObj(a6, (k + 6) & 3) && ck_mut_S7(a7, (k + 7) & 3) && ck_i8(a8, (k + 8) & 3) && ck_c_char(a9, (k + 9) & 3) && ck_u8(a10, (k + 10) & 3) && ck_u64(a11, (k + 11) & 3) && ck_f32(a12, (k + 12) & 3) && ck_f64(a13, (k + 13) & 3) && ck_S2(a14, (k + 14) & 3) && ck_S3(a15, (k + 15) & 3) && ck_S6(a16, (k + 16) & 3) && ck_String(a17, (k + 17) & 3) && ck_str(a18, (k + 18) & 3) && ck_Box_RObj(a19, (k + 19) & 3) && ck_UniquePtr_CObj(a20, (k + 20) & 3) && ck_sl_u16(a21, (k + 21) & 3) && ck_bool(a22, (k + 22) & 3) && ck_Eu8(a23, (k + 23) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi323(std::int32_t k) { Eu8 x = r_abi323(mk_TrivA((k + 0) & 3), mk_arr4_u8((k + 1) & 3), mk_ref_S2((k + 2) & 3), mk_SharedPtr_CObj((k + 3) & 3), mk_WeakPtr_CObj((k + 4) & 3), mk_Vec_u8((k + 5) & 3), mk_ref_RObj((k + 6) & 3), mk_mut_S7((k + 7) & 3), mk_i8((k + 8) & 3), mk_c_char((k + 9) & 3), mk_u8((k + 10) & 3), mk_u64((k + 11) & 3), mk_f32((k + 12) & 3), mk_f64((k + 13) & 3), mk_S2((k + 14) & 3), mk_S3((k + 15) & 3), mk_S6((k + 16) & 3), mk_String((k + 17) & 3), mk_str((k + 18) & 3), mk_Box_RObj((k + 19) & 3), mk_UniquePtr_CObj((k + 20) & 3), mk_sl_u16((k + 21) & 3), mk_bool((k + 22) & 3), mk_Eu8((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi324(S2 const & a0, std::shared_ptr<CObj> a1, std::weak_ptr<CObj> a2, rust::Vec<std::uint8_t> a3, RObj const & a4, S7 & a5, std::int8_t a6, char a7, std::uint8_t a8, std::uint64_t a9, float a10, double a11, S2 a12, S3 a13, S6 a14, rust::String a15, rust::Str a16, rust::Box<RObj> a17, std::unique_ptr<CObj> a18, rust::Slice<const std::uint16_t> a19, bool a20, Eu8 a21, TrivA a22, std::array<std::uint8_t, 4> a23, std::int32_t k) { note(ck_ref_S2(a0, (k + 0) & 3) && ck_SharedPtr_CObj(a1, (k + 1) & 3) && ck_WeakPtr_CObj(a2, (k + 2) & 3) && ck_Vec_u8(a3, (k + 3) & 3) && ck_ref_RObj(a4, (k + 4) & 3) && ck_mut_S7(a5, (k + 5) & 3) && ck_i8(a6, (k + 6) & 3) && ck_c_char(a7, (k + 7) & 3) && ck_u8(a8, (k + 8) & 3) && ck_u64(a9, (k + 9) & 3) && ck_f32(a10, (k + 10) & 3) && ck_f64(a11, (k + 11) & 3) && ck_S2(a12, (k + 12) & 3) && ck_S3(a13, (k + 13) & 3) && ck_S6(a14, (k + 14) & 3) && ck_String(a15, (k + 15) & 3) && ck_str(a16, (k + 16) & 3) && ck_Box_RObj(a17, (k + 17) & 3) && ck_UniquePtr_CObj(a18, (k + 18) & 3) && ck_sl_u16(a19, (k + 19) & 3) && ck_bool(a20, (k + 20) & 3) && ck_Eu8(a21, (k + 21) & 3) && ck_TrivA(a22, (k + 22) & 3) && ck_arr4_u8(a23, (k + 23) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi324(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi324(mk_ref_S2((k + 0) & 3), mk_SharedPtr_CObj((k + 1) & 3), mk_WeakPtr_CObj((k + 2) & 3), mk_Vec_u8((k + 3) & 3), mk_ref_RObj((k + 4) & 3), mk_mut_S7((k + 5) & 3), mk_i8((k + 6) & 3), mk_c_char((k + 7) & 3), mk_u8((k + 8) & 3), mk_u64((k + 9) & 3), mk_f32((k + 10) & 3), mk_f64((k + 11) & 3), mk_S2((k + 12) & 3), mk_S3((k + 13) & 3), mk_S6((k + 14) & 3), mk_String((k + 15) & 3), mk_str((k + 16) & 3), mk_Box_RObj((k + 17) & 3), mk_UniquePtr_CObj((k + 18) & 3), mk_sl_u16((k + 19) & 3), mk_bool((k + 20) & 3), mk_Eu8((k + 21) & 3), mk_TrivA((k + 22) & 3), mk_arr4_u8((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi325(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::uint8_t a6, std::uint64_t a7, float a8, double a9, S2 a10, S3 a11, S6 a12, rust::String a13, rust::Str a14, rust::Box<RObj> a15, std::unique_ptr<CObj> a16, rust::Slice<const std::uint16_t> a17, bool a18, Eu8 a19, TrivA a20, std::array<std::uint8_t, 4> a21, S2 const & a22, std::shared_ptr<CObj> a23, std::int32_t k) { note(ck_WeakPtr_CObj(a0, (k + 0) & 3) && ck_Vec_u8(a1, (k + 1) & 3) && ck_ref_RObj(a2, (k + 2) & 3) && ck_mut_S7(a3, (k + 3) & 3) && ck_i8(a4, (k + 4) & 3) && ck_c_char(a5, (k + 5) & 3) && ck_u8(a6, (k + 6) & 3) && ck_u64(a7, (k + 7) & 3) && ck_f32(a8, (k + 8) & 3) && ck_f64(a9, (k + 9) & 3) && ck_S2(a10, (k + 10) & 3) && ck_S3(a11, (k + 11) & 3) && ck_S6(a12, (k + 12) & 3) && ck_String(a13, (k + 13) & 3) && ck_str(a14, (k + 14) & 3) && ck_Box_RObj(a15, (k + 15) & 3) && ck_UniquePtr_CObj(a16, (k + 16) & 3) && ck_sl_u16(a17, (k + 17) & 3) && ck_bool(a18, (k + 18) & 3) && ck_Eu8(a19, (k + 19) & 3) && ck_TrivA(a20, (k + 20) & 3) && ck_arr4_u8(a21, (k + 21) & 3) && ck_ref_S2(a22, (k + 22) & 3) && ck_SharedPtr_CObj(a23, (k + 23) & 3) ? 7 : 8); }
bool c_run_abi325(std::int32_t k) { r_abi325(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), mk_u8((k + 6) & 3), mk_u64((k + 7) & 3), mk_f32((k + 8) & 3), mk_f64((k + 9) & 3), mk_S2((k + 10) & 3), mk_S3((k + 11) & 3), mk_S6((k + 12) & 3), mk_String((k + 13) & 3), mk_str((k + 14) & 3), mk_Box_RObj((k + 15) & 3), mk_UniquePtr_CObj((k + 16) & 3), mk_sl_u16((k + 17) & 3), mk_bool((k + 18) & 3), mk_Eu8((k + 19) & 3), mk_TrivA((k + 20) & 3), mk_arr4_u8((k + 21) & 3), mk_ref_S2((k + 22) & 3), mk_SharedPtr_CObj((k + 23) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi326(RObj const & a0, S7 & a1, std::int8_t a2, char a3, std::uint8_t a4, std::uint64_t a5, float a6, double a7, S2 a8, S3 a9, S6 a10, rust::String a11, rust::Str a12, rust::Box<RObj> a13, std::unique_ptr<CObj> a14, rust::Slice<const std::uint16_t> a15, bool a16, Eu8 a17, TrivA a18, std::array<std::uint8_t, 4> a19, S2 const & a20, std::shared_ptr<CObj> a21, std::weak_ptr<CObj> a22, rust::Vec<std::uint8_t> a23, std::int32_t k) { note(ck_ref_RObj(a0, (k + 0) & 3) && ck_mut_S7(a1, (k + 1) & 3) && ck_i8(a2, (k + 2) & 3) && ck_c_char(a3, (k + 3) & 3) && ck_u8(a4, (k + 4) & 3) && ck_u64(a5, (k + 5) & 3) && ck_f32(a6, (k + 6) & 3) && ck_f64(a7, (k + 7) & 3) && ck_S2(a8, (k + 8) & 3) && ck_S3(a9, (k + 9) & 3) && ck_S6(a10, (k + 10) & 3) && ck_String(a11, (k + 11) & 3) && ck_str(a12, (k + 12) & 3) && ck_Box_RObj(a13, (k + 13) & 3) && ck_UniquePtr_CObj(a14, (k + 14) & 3) && ck_sl_u16(a15, (k + 15) & 3) && ck_bool(a16, (k + 16) & 3) && ck_Eu8(a17, (k + 17) & 3) && ck_TrivA(a18, (k + 18) & 3) && ck_arr4_u8(a19, (k + 19) & 3) && ck_ref_S2(a20, (k + 20) & 3) && ck_SharedPtr_CObj(a21, (k + 21) & 3) && ck_WeakPtr_CObj(a22, (k + 22) & 3) && ck_Vec_u8(a23, (k + 23) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi326(std::int32_t k) { rust::String x = r_abi326(mk_ref_RObj((k + 0) & 3), mk_mut_S7((k + 1) & 3), mk_i8((k + 2) & 3), mk_c_char((k + 3) & 3), mk_u8((k + 4) & 3), mk_u64((k + 5) & 3), mk_f32((k + 6) & 3), mk_f64((k + 7) & 3), mk_S2((k + 8) & 3), mk_S3((k + 9) & 3), mk_S6((k + 10) & 3), mk_String((k + 11) & 3), mk_str((k + 12) & 3), mk_Box_RObj((k + 13) & 3), mk_UniquePtr_CObj((k + 14) & 3), mk_sl_u16((k + 15) & 3), mk_bool((k + 16) & 3), mk_Eu8((k + 17) & 3), mk_TrivA((k + 18) & 3), mk_arr4_u8((k + 19) & 3), mk_ref_S2((k + 20) & 3), mk_SharedPtr_CObj((k + 21) & 3), mk_WeakPtr_CObj((k + 22) & 3), mk_Vec_u8((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi327(std::int8_t a0, char a1, std::uint8_t a2, std::uint64_t a3, float a4, double a5, S2 a6, S3 a7, S6 a8, rust::String a9, rust::Str a10, rust::Box<RObj> a11, std::unique_ptr<CObj> a12, rust::Slice<const std::uint16_t> a13, bool a14, Eu8 a15, TrivA a16, std::array<std::uint8_t, 4> a17, S2 const & a18, std::shared_ptr<CObj> a19, std::weak_ptr<CObj> a20, rust::Vec<std::uint8_t> a21, RObj const & a22, S7 & a23, std::int32_t k) { note(ck_i8(a0, (k + 0) & 3) && ck_c_char(a1, (k + 1) & 3) && ck_u8(a2, (k + 2) & 3) && ck_u64(a3, (k + 3) & 3) && ck_f32(a4, (k + 4) & 3) && ck_f64(a5, (k + 5) & 3) && ck_S2(a6, (k + 6) & 3) && ck_S3(a7, (k + 7) & 3) && ck_S6(a8, (k + 8) & 3) && ck_String(a9, (k + 9) & 3) && ck_str(a10, (k + 10) & 3) && ck_Box_RObj(a11, (k + 11) & 3) && ck_UniquePtr_CObj(a12, (k + 12) & 3) && ck_sl_u16(a13, (k + 13) & 3) && ck_bool(a14, (k + 14) & 3) && ck_Eu8(a15, (k + 15) & 3) && ck_TrivA(a16, (k + 16) & 3) && ck_arr4_u8(a17, (k + 17) & 3) && ck_ref_S2(a18, (k + 18) & 3) && ck_SharedPtr_CObj(a19, (k + 19) & 3) && ck_WeakPtr_CObj(a20, (k + 20) & 3) && ck_Vec_u8(a21, (k + 21) & 3) && ck_ref_RObj(a22, (k + 22) & 3) && ck_mut_S7(a23, (k + 23) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi327(std::int32_t k) { S3 x = r_abi327(mk_i8((k + 0) & 3), mk_c_char((k + 1) & 3), mk_u8((k + 2) & 3), mk_u64((k + 3) & 3), mk_f32((k + 4) & 3), mk_f64((k + 5) & 3), mk_S2((k + 6) & 3), mk_S3((k + 7) & 3), mk_S6((k + 8) & 3), mk_String((k + 9) & 3), mk_str((k + 10) & 3), mk_Box_RObj((k + 11) & 3), mk_UniquePtr_CObj((k + 12) & 3), mk_sl_u16((k + 13) & 3), mk_bool((k + 14) & 3), mk_Eu8((k + 15) & 3), mk_TrivA((k + 16) & 3), mk_arr4_u8((k + 17) & 3), mk_ref_S2((k + 18) & 3), mk_SharedPtr_CObj((k + 19) & 3), mk_WeakPtr_CObj((k + 20) & 3), mk_Vec_u8((k + 21) & 3), mk_ref_RObj((k + 22) & 3), mk_mut_S7((k + 23) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi328(std::uint8_t a0, std::uint64_t a1, float a2, double a3, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f32(a2, (k + 2) & 3) && ck_f64(a3, (k + 3) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi328(std::int32_t k) { S6 x = r_abi328(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi329(double a0, S2 a1, S3 a2, S6 a3, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) && ck_S6(a3, (k + 3) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi329(std::int32_t k) { rust::Box<RObj> x = r_abi329(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi330(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) && ck_Box_RObj(a3, (k + 3) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi330(std::int32_t k) { std::uint8_t x = r_abi330(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi331(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) && ck_sl_u16(a2, (k + 2) & 3) && ck_bool(a3, (k + 3) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi331(std::int32_t k) { double x = r_abi331(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi332(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, std::int32_t k) { note(ck_bool(a0, (k + 0) & 3) && ck_Eu8(a1, (k + 1) & 3) && ck_TrivA(a2, (k + 2) & 3) && ck_arr4_u8(a3, (k + 3) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi332(std::int32_t k) { std::unique_ptr<CObj> x = r_abi332(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi333(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, std::int32_t k) { note(ck_arr4_u8(a0, (k + 0) & 3) && ck_ref_S2(a1, (k + 1) & 3) && ck_SharedPtr_CObj(a2, (k + 2) & 3) && ck_WeakPtr_CObj(a3, (k + 3) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi333(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi333(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi334(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int32_t k) { note(ck_WeakPtr_CObj(a0, (k + 0) & 3) && ck_Vec_u8(a1, (k + 1) & 3) && ck_ref_RObj(a2, (k + 2) & 3) && ck_mut_S7(a3, (k + 3) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi334(std::int32_t k) { std::shared_ptr<CObj> x = r_abi334(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi335(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::int32_t k) { note(ck_mut_S7(a0, (k + 0) & 3) && ck_i8(a1, (k + 1) & 3) && ck_c_char(a2, (k + 2) & 3) && ck_u8(a3, (k + 3) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi335(std::int32_t k) { TrivA x = r_abi335(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi336(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f32(a2, (k + 2) & 3) && ck_f64(a3, (k + 3) & 3) && ck_S2(a4, (k + 4) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi336(std::int32_t k) { Eu8 x = r_abi336(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi337(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) && ck_S6(a3, (k + 3) & 3) && ck_String(a4, (k + 4) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi337(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi337(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi338(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) && ck_Box_RObj(a3, (k + 3) & 3) && ck_UniquePtr_CObj(a4, (k + 4) & 3) ? 7 : 8); }
bool c_run_abi338(std::int32_t k) { r_abi338(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi339(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) && ck_sl_u16(a2, (k + 2) & 3) && ck_bool(a3, (k + 3) & 3) && ck_Eu8(a4, (k + 4) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi339(std::int32_t k) { rust::String x = r_abi339(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi340(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::int32_t k) { note(ck_bool(a0, (k + 0) & 3) && ck_Eu8(a1, (k + 1) & 3) && ck_TrivA(a2, (k + 2) & 3) && ck_arr4_u8(a3, (k + 3) & 3) && ck_ref_S2(a4, (k + 4) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi340(std::int32_t k) { S3 x = r_abi340(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi341(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, std::int32_t k) { note(ck_arr4_u8(a0, (k + 0) & 3) && ck_ref_S2(a1, (k + 1) & 3) && ck_SharedPtr_CObj(a2, (k + 2) & 3) && ck_WeakPtr_CObj(a3, (k + 3) & 3) && ck_Vec_u8(a4, (k + 4) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi341(std::int32_t k) { S6 x = r_abi341(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi342(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, std::int32_t k) { note(ck_WeakPtr_CObj(a0, (k + 0) & 3) && ck_Vec_u8(a1, (k + 1) & 3) && ck_ref_RObj(a2, (k + 2) & 3) && ck_mut_S7(a3, (k + 3) & 3) && ck_i8(a4, (k + 4) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi342(std::int32_t k) { rust::Box<RObj> x = r_abi342(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi343(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, std::int32_t k) { note(ck_mut_S7(a0, (k + 0) & 3) && ck_i8(a1, (k + 1) & 3) && ck_c_char(a2, (k + 2) & 3) && ck_u8(a3, (k + 3) & 3) && ck_u64(a4, (k + 4) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi343(std::int32_t k) { std::uint8_t x = r_abi343(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi344(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f32(a2, (k + 2) & 3) && ck_f64(a3, (k + 3) & 3) && ck_S2(a4, (k + 4) & 3) && ck_S3(a5, (k + 5) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi344(std::int32_t k) { double x = r_abi344(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi345(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, rust::Str a5, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) && ck_S6(a3, (k + 3) & 3) && ck_String(a4, (k + 4) & 3) && ck_str(a5, (k + 5) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi345(std::int32_t k) { std::unique_ptr<CObj> x = r_abi345(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), mk_str((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi346(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) && ck_Box_RObj(a3, (k + 3) & 3) && ck_UniquePtr_CObj(a4, (k + 4) & 3) && ck_sl_u16(a5, (k + 5) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi346(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi346(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi347(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, TrivA a5, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) && ck_sl_u16(a2, (k + 2) & 3) && ck_bool(a3, (k + 3) & 3) && ck_Eu8(a4, (k + 4) & 3) && ck_TrivA(a5, (k + 5) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi347(std::int32_t k) { std::shared_ptr<CObj> x = r_abi347(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), mk_TrivA((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi348(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::int32_t k) { note(ck_bool(a0, (k + 0) & 3) && ck_Eu8(a1, (k + 1) & 3) && ck_TrivA(a2, (k + 2) & 3) && ck_arr4_u8(a3, (k + 3) & 3) && ck_ref_S2(a4, (k + 4) & 3) && ck_SharedPtr_CObj(a5, (k + 5) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi348(std::int32_t k) { TrivA x = r_abi348(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi349(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, RObj const & a5, std::int32_t k) { note(ck_arr4_u8(a0, (k + 0) & 3) && ck_ref_S2(a1, (k + 1) & 3) && ck_SharedPtr_CObj(a2, (k + 2) & 3) && ck_WeakPtr_CObj(a3, (k + 3) & 3) && ck_Vec_u8(a4, (k + 4) & 3) && ck_ref_RObj(a5, (k + 5) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi349(std::int32_t k) { Eu8 x = r_abi349(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), mk_ref_RObj((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi350(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::int32_t k) { note(ck_WeakPtr_CObj(a0, (k + 0) & 3) && ck_Vec_u8(a1, (k + 1) & 3) && ck_ref_RObj(a2, (k + 2) & 3) && ck_mut_S7(a3, (k + 3) & 3) && ck_i8(a4, (k + 4) & 3) && ck_c_char(a5, (k + 5) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi350(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi350(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi351(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, float a5, std::int32_t k) { note(ck_mut_S7(a0, (k + 0) & 3) && ck_i8(a1, (k + 1) & 3) && ck_c_char(a2, (k + 2) & 3) && ck_u8(a3, (k + 3) & 3) && ck_u64(a4, (k + 4) & 3) && ck_f32(a5, (k + 5) & 3) ? 7 : 8); }
bool c_run_abi351(std::int32_t k) { r_abi351(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), mk_f32((k + 5) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi352(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, S6 a6, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f32(a2, (k + 2) & 3) && ck_f64(a3, (k + 3) & 3) && ck_S2(a4, (k + 4) & 3) && ck_S3(a5, (k + 5) & 3) && ck_S6(a6, (k + 6) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi352(std::int32_t k) { rust::String x = r_abi352(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), mk_S6((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi353(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, rust::Str a5, rust::Box<RObj> a6, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) && ck_S6(a3, (k + 3) & 3) && ck_String(a4, (k + 4) & 3) && ck_str(a5, (k + 5) & 3) && ck_Box_RObj(a6, (k + 6) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi353(std::int32_t k) { S3 x = r_abi353(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), mk_str((k + 5) & 3), mk_Box_RObj((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi354(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, bool a6, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) && ck_Box_RObj(a3, (k + 3) & 3) && ck_UniquePtr_CObj(a4, (k + 4) & 3) && ck_sl_u16(a5, (k + 5) & 3) && ck_bool(a6, (k + 6) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi354(std::int32_t k) { S6 x = r_abi354(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), mk_bool((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
rust::Box<RObj> c_abi355(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, TrivA a5, std::array<std::uint8_t, 4> a6, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) && ck_sl_u16(a2, (k + 2) & 3) && ck_bool(a3, (k + 3) & 3) && ck_Eu8(a4, (k + 4) & 3) && ck_TrivA(a5, (k + 5) & 3) && ck_arr4_u8(a6, (k + 6) & 3) ? 7 : 8); return mk_Box_RObj(k); }
bool c_run_abi355(std::int32_t k) { rust::Box<RObj> x = r_abi355(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), mk_TrivA((k + 5) & 3), mk_arr4_u8((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_Box_RObj(x, k); }
std::uint8_t c_abi356(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::weak_ptr<CObj> a6, std::int32_t k) { note(ck_bool(a0, (k + 0) & 3) && ck_Eu8(a1, (k + 1) & 3) && ck_TrivA(a2, (k + 2) & 3) && ck_arr4_u8(a3, (k + 3) & 3) && ck_ref_S2(a4, (k + 4) & 3) && ck_SharedPtr_CObj(a5, (k + 5) & 3) && ck_WeakPtr_CObj(a6, (k + 6) & 3) ? 7 : 8); return mk_u8(k); }
bool c_run_abi356(std::int32_t k) { std::uint8_t x = r_abi356(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), mk_WeakPtr_CObj((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_u8(x, k); }
double c_abi357(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, RObj const & a5, S7 & a6, std::int32_t k) { note(ck_arr4_u8(a0, (k + 0) & 3) && ck_ref_S2(a1, (k + 1) & 3) && ck_SharedPtr_CObj(a2, (k + 2) & 3) && ck_WeakPtr_CObj(a3, (k + 3) & 3) && ck_Vec_u8(a4, (k + 4) & 3) && ck_ref_RObj(a5, (k + 5) & 3) && ck_mut_S7(a6, (k + 6) & 3) ? 7 : 8); return mk_f64(k); }
bool c_run_abi357(std::int32_t k) { double x = r_abi357(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), mk_ref_RObj((k + 5) & 3), mk_mut_S7((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_f64(x, k); }
std::unique_ptr<CObj> c_abi358(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::uint8_t a6, std::int32_t k) { note(ck_WeakPtr_CObj(a0, (k + 0) & 3) && ck_Vec_u8(a1, (k + 1) & 3) && ck_ref_RObj(a2, (k + 2) & 3) && ck_mut_S7(a3, (k + 3) & 3) && ck_i8(a4, (k + 4) & 3) && ck_c_char(a5, (k + 5) & 3) && ck_u8(a6, (k + 6) & 3) ? 7 : 8); return mk_UniquePtr_CObj(k); }
bool c_run_abi358(std::int32_t k) { std::unique_ptr<CObj> x = r_abi358(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), mk_u8((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_UniquePtr_CObj(x, k); }
rust::Vec<std::uint8_t> c_abi359(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, float a5, double a6, std::int32_t k) { note(ck_mut_S7(a0, (k + 0) & 3) && ck_i8(a1, (k + 1) & 3) && ck_c_char(a2, (k + 2) & 3) && ck_u8(a3, (k + 3) & 3) && ck_u64(a4, (k + 4) & 3) && ck_f32(a5, (k + 5) & 3) && ck_f64(a6, (k + 6) & 3) ? 7 : 8); return mk_Vec_u8(k); }
bool c_run_abi359(std::int32_t k) { rust::Vec<std::uint8_t> x = r_abi359(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), mk_f32((k + 5) & 3), mk_f64((k + 6) & 3), k); return vk_addr_c09d == 7 && ck_Vec_u8(x, k); }
std::shared_ptr<CObj> c_abi360(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, S6 a6, rust::String a7, std::int32_t k) { note(ck_u8(a0, (k + 0) & 3) && ck_u64(a1, (k + 1) & 3) && ck_f32(a2, (k + 2) & 3) && ck_f64(a3, (k + 3) & 3) && ck_S2(a4, (k + 4) & 3) && ck_S3(a5, (k + 5) & 3) && ck_S6(a6, (k + 6) & 3) && ck_String(a7, (k + 7) & 3) ? 7 : 8); return mk_SharedPtr_CObj(k); }
bool c_run_abi360(std::int32_t k) { std::shared_ptr<CObj> x = r_abi360(mk_u8((k + 0) & 3), mk_u64((k + 1) & 3), mk_f32((k + 2) & 3), mk_f64((k + 3) & 3), mk_S2((k + 4) & 3), mk_S3((k + 5) & 3), mk_S6((k + 6) & 3), mk_String((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_SharedPtr_CObj(x, k); }
TrivA c_abi361(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, rust::Str a5, rust::Box<RObj> a6, std::unique_ptr<CObj> a7, std::int32_t k) { note(ck_f64(a0, (k + 0) & 3) && ck_S2(a1, (k + 1) & 3) && ck_S3(a2, (k + 2) & 3) && ck_S6(a3, (k + 3) & 3) && ck_String(a4, (k + 4) & 3) && ck_str(a5, (k + 5) & 3) && ck_Box_RObj(a6, (k + 6) & 3) && ck_UniquePtr_CObj(a7, (k + 7) & 3) ? 7 : 8); return mk_TrivA(k); }
bool c_run_abi361(std::int32_t k) { TrivA x = r_abi361(mk_f64((k + 0) & 3), mk_S2((k + 1) & 3), mk_S3((k + 2) & 3), mk_S6((k + 3) & 3), mk_String((k + 4) & 3), mk_str((k + 5) & 3), mk_Box_RObj((k + 6) & 3), mk_UniquePtr_CObj((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_TrivA(x, k); }
Eu8 c_abi362(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, bool a6, Eu8 a7, std::int32_t k) { note(ck_S6(a0, (k + 0) & 3) && ck_String(a1, (k + 1) & 3) && ck_str(a2, (k + 2) & 3) && ck_Box_RObj(a3, (k + 3) & 3) && ck_UniquePtr_CObj(a4, (k + 4) & 3) && ck_sl_u16(a5, (k + 5) & 3) && ck_bool(a6, (k + 6) & 3) && ck_Eu8(a7, (k + 7) & 3) ? 7 : 8); return mk_Eu8(k); }
bool c_run_abi362(std::int32_t k) { Eu8 x = r_abi362(mk_S6((k + 0) & 3), mk_String((k + 1) & 3), mk_str((k + 2) & 3), mk_Box_RObj((k + 3) & 3), mk_UniquePtr_CObj((k + 4) & 3), mk_sl_u16((k + 5) & 3), mk_bool((k + 6) & 3), mk_Eu8((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_Eu8(x, k); }
std::array<std::uint8_t, 4> c_abi363(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, TrivA a5, std::array<std::uint8_t, 4> a6, S2 const & a7, std::int32_t k) { note(ck_Box_RObj(a0, (k + 0) & 3) && ck_UniquePtr_CObj(a1, (k + 1) & 3) && ck_sl_u16(a2, (k + 2) & 3) && ck_bool(a3, (k + 3) & 3) && ck_Eu8(a4, (k + 4) & 3) && ck_TrivA(a5, (k + 5) & 3) && ck_arr4_u8(a6, (k + 6) & 3) && ck_ref_S2(a7, (k + 7) & 3) ? 7 : 8); return mk_arr4_u8(k); }
bool c_run_abi363(std::int32_t k) { std::array<std::uint8_t, 4> x = r_abi363(mk_Box_RObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_sl_u16((k + 2) & 3), mk_bool((k + 3) & 3), mk_Eu8((k + 4) & 3), mk_TrivA((k + 5) & 3), mk_arr4_u8((k + 6) & 3), mk_ref_S2((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_arr4_u8(x, k); }
void c_abi364(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::weak_ptr<CObj> a6, rust::Vec<std::uint8_t> a7, std::int32_t k) { note(ck_bool(a0, (k + 0) & 3) && ck_Eu8(a1, (k + 1) & 3) && ck_TrivA(a2, (k + 2) & 3) && ck_arr4_u8(a3, (k + 3) & 3) && ck_ref_S2(a4, (k + 4) & 3) && ck_SharedPtr_CObj(a5, (k + 5) & 3) && ck_WeakPtr_CObj(a6, (k + 6) & 3) && ck_Vec_u8(a7, (k + 7) & 3) ? 7 : 8); }
bool c_run_abi364(std::int32_t k) { r_abi364(mk_bool((k + 0) & 3), mk_Eu8((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_arr4_u8((k + 3) & 3), mk_ref_S2((k + 4) & 3), mk_SharedPtr_CObj((k + 5) & 3), mk_WeakPtr_CObj((k + 6) & 3), mk_Vec_u8((k + 7) & 3), k); return vk_addr_c09d == 7; }
rust::String c_abi365(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, RObj const & a5, S7 & a6, std::int8_t a7, std::int32_t k) { note(ck_arr4_u8(a0, (k + 0) & 3) && ck_ref_S2(a1, (k + 1) & 3) && ck_SharedPtr_CObj(a2, (k + 2) & 3) && ck_WeakPtr_CObj(a3, (k + 3) & 3) && ck_Vec_u8(a4, (k + 4) & 3) && ck_ref_RObj(a5, (k + 5) & 3) && ck_mut_S7(a6, (k + 6) & 3) && ck_i8(a7, (k + 7) & 3) ? 7 : 8); return mk_String(k); }
bool c_run_abi365(std::int32_t k) { rust::String x = r_abi365(mk_arr4_u8((k + 0) & 3), mk_ref_S2((k + 1) & 3), mk_SharedPtr_CObj((k + 2) & 3), mk_WeakPtr_CObj((k + 3) & 3), mk_Vec_u8((k + 4) & 3), mk_ref_RObj((k + 5) & 3), mk_mut_S7((k + 6) & 3), mk_i8((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_String(x, k); }
S3 c_abi366(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::uint8_t a6, std::uint64_t a7, std::int32_t k) { note(ck_WeakPtr_CObj(a0, (k + 0) & 3) && ck_Vec_u8(a1, (k + 1) & 3) && ck_ref_RObj(a2, (k + 2) & 3) && ck_mut_S7(a3, (k + 3) & 3) && ck_i8(a4, (k + 4) & 3) && ck_c_char(a5, (k + 5) & 3) && ck_u8(a6, (k + 6) & 3) && ck_u64(a7, (k + 7) & 3) ? 7 : 8); return mk_S3(k); }
bool c_run_abi366(std::int32_t k) { S3 x = r_abi366(mk_WeakPtr_CObj((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_ref_RObj((k + 2) & 3), mk_mut_S7((k + 3) & 3), mk_i8((k + 4) & 3), mk_c_char((k + 5) & 3), mk_u8((k + 6) & 3), mk_u64((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_S3(x, k); }
S6 c_abi367(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, float a5, double a6, S2 a7, std::int32_t k) { note(ck_mut_S7(a0, (k + 0) & 3) && ck_i8(a1, (k + 1) & 3) && ck_c_char(a2, (k + 2) & 3) && ck_u8(a3, (k + 3) & 3) && ck_u64(a4, (k + 4) & 3) && ck_f32(a5, (k + 5) & 3) && ck_f64(a6, (k + 6) & 3) && ck_S2(a7, (k + 7) & 3) ? 7 : 8); return mk_S6(k); }
bool c_run_abi367(std::int32_t k) { S6 x = r_abi367(mk_mut_S7((k + 0) & 3), mk_i8((k + 1) & 3), mk_c_char((k + 2) & 3), mk_u8((k + 3) & 3), mk_u64((k + 4) & 3), mk_f32((k + 5) & 3), mk_f64((k + 6) & 3), mk_S2((k + 7) & 3), k); return vk_addr_c09d == 7 && ck_S6(x, k); }
}
