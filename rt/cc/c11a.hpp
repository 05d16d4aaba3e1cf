// Generated by gen_c11.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
namespace c11a {
struct Sh; struct Small; enum class En : std::uint8_t; struct RObj;
class CObj { std::int32_t v; std::string pad = "padding that does not fit a small string"; public: CObj(std::int32_t k) : v(k) {} std::int32_t cval() const { return v; } };
using S = rust::Slice<const std::uint8_t>;
std::unique_ptr<CObj> mkcobj(std::int32_t k);
std::shared_ptr<CObj> mkshared(std::int32_t k);
std::unique_ptr<std::string> mkstr();
CObj *static_cobj();
void cthrow(std::int32_t kind, S msg);
std::int32_t csees(std::int32_t kind, S msg);
std::int32_t csees_other(std::int32_t kind, rust::Str msg);
std::int32_t clevel(std::size_t n);
std::int32_t guards();
std::int32_t croot(rust::String &out);
std::int32_t clog();
void wild(std::int32_t k);
rust::String wild_result(std::int32_t k);
void cret_unit(std::int32_t kind, S msg);
std::int32_t cdrive_unit(std::int32_t kind, S msg);
std::uint8_t cret_u8(std::int32_t kind, S msg);
std::int32_t cdrive_u8(std::int32_t kind, S msg);
std::int64_t cret_i128less(std::int32_t kind, S msg);
std::int32_t cdrive_i128less(std::int32_t kind, S msg);
double cret_f64(std::int32_t kind, S msg);
std::int32_t cdrive_f64(std::int32_t kind, S msg);
bool cret_boolean(std::int32_t kind, S msg);
std::int32_t cdrive_boolean(std::int32_t kind, S msg);
rust::String cret_string(std::int32_t kind, S msg);
std::int32_t cdrive_string(std::int32_t kind, S msg);
rust::Str cret_str(std::int32_t kind, S msg);
std::int32_t cdrive_str(std::int32_t kind, S msg);
rust::Slice<const std::uint16_t> cret_slice(std::int32_t kind, S msg);
std::int32_t cdrive_slice(std::int32_t kind, S msg);
rust::Box<RObj> cret_boxed(std::int32_t kind, S msg);
std::int32_t cdrive_boxed(std::int32_t kind, S msg);
rust::Vec<std::uint32_t> cret_vecn(std::int32_t kind, S msg);
std::int32_t cdrive_vecn(std::int32_t kind, S msg);
rust::Vec<rust::String> cret_vecs(std::int32_t kind, S msg);
std::int32_t cdrive_vecs(std::int32_t kind, S msg);
Sh cret_sh(std::int32_t kind, S msg);
std::int32_t cdrive_sh(std::int32_t kind, S msg);
Small cret_small(std::int32_t kind, S msg);
std::int32_t cdrive_small(std::int32_t kind, S msg);
En cret_en(std::int32_t kind, S msg);
std::int32_t cdrive_en(std::int32_t kind, S msg);
std::unique_ptr<CObj> cret_up(std::int32_t kind, S msg);
std::int32_t cdrive_up(std::int32_t kind, S msg);
std::unique_ptr<CObj> cret_upn(std::int32_t kind, S msg);
std::int32_t cdrive_upn(std::int32_t kind, S msg);
std::unique_ptr<std::string> cret_ups(std::int32_t kind, S msg);
std::int32_t cdrive_ups(std::int32_t kind, S msg);
std::shared_ptr<CObj> cret_sp(std::int32_t kind, S msg);
std::int32_t cdrive_sp(std::int32_t kind, S msg);
std::array<std::uint16_t, 3> cret_arr(std::int32_t kind, S msg);
std::int32_t cdrive_arr(std::int32_t kind, S msg);
std::array<rust::String, 2> cret_arrs(std::int32_t kind, S msg);
std::int32_t cdrive_arrs(std::int32_t kind, S msg);
const RObj & cret_refr(std::int32_t kind, S msg);
std::int32_t cdrive_refr(std::int32_t kind, S msg);
const CObj & cret_refc(std::int32_t kind, S msg);
std::int32_t cdrive_refc(std::int32_t kind, S msg);
CObj * cret_ptr(std::int32_t kind, S msg);
std::int32_t cdrive_ptr(std::int32_t kind, S msg);
} // namespace c11a
