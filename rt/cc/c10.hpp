// Generated by gen_c10.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
extern "C" std::uint64_t vk10_new();
extern "C" void vk10_drop(std::uint64_t);
extern "C" bool vk10_alive(std::uint64_t);
namespace c10 {
struct Sh; struct One; struct OneT; struct Nest; struct RObj; struct RHolder;
class CObj {
  std::uint64_t id; std::int32_t v;
public:
  CObj(std::int32_t k) : id(vk10_new()), v(k) {}
  CObj(const CObj &o) : id(vk10_new()), v(o.val()) {}
  CObj &operator=(const CObj &) = delete;
  ~CObj() { vk10_drop(id); }
  std::int32_t val() const { return vk10_alive(id) ? v : -3; }
};
struct Base { virtual ~Base() {} virtual std::int32_t bval() const = 0; };
struct Derived : Base { std::string pad = "some padding in front of the object"; CObj o; Derived(std::int32_t k) : o(k) {} std::int32_t bval() const override { return o.val(); } };
struct Tracked {
  using IsRelocatable = std::true_type;
  std::int32_t val, pad = 0; std::uint64_t id;
  explicit Tracked(std::int32_t k) : val(k), id(vk10_new()) {}
  Tracked(Tracked &&o) noexcept : val(o.val), id(vk10_new()) { if (!vk10_alive(o.id)) val = -3; }
  Tracked &operator=(Tracked &&o) noexcept { val = o.val; return *this; }
  ~Tracked() { vk10_drop(id); }
};
struct Holder {
  void hput_box(std::size_t i, rust::Box<RObj> x, std::int32_t mode) const;
  rust::Box<RObj> htake_box(std::size_t i, std::int32_t mode);
  void hput_vec(std::size_t i, rust::Vec<RObj> x, std::int32_t mode) const;
  rust::Vec<RObj> htake_vec(std::size_t i, std::int32_t mode);
  void hput_string(std::size_t i, rust::String x, std::int32_t mode) const;
  rust::String htake_string(std::size_t i, std::int32_t mode);
  void hput_unique(std::size_t i, std::unique_ptr<CObj> x, std::int32_t mode) const;
  std::unique_ptr<CObj> htake_unique(std::size_t i, std::int32_t mode);
  void hput_base(std::size_t i, std::unique_ptr<Base> x, std::int32_t mode) const;
  std::unique_ptr<Base> htake_base(std::size_t i, std::int32_t mode);
  void hput_shared(std::size_t i, std::shared_ptr<CObj> x, std::int32_t mode) const;
  std::shared_ptr<CObj> htake_shared(std::size_t i, std::int32_t mode);
  void hput_ustring(std::size_t i, std::unique_ptr<std::string> x, std::int32_t mode) const;
  std::unique_ptr<std::string> htake_ustring(std::size_t i, std::int32_t mode);
  void hput_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> x, std::int32_t mode) const;
  std::unique_ptr<std::vector<CObj>> htake_uvec(std::size_t i, std::int32_t mode);
  void hput_sh(std::size_t i, Sh x, std::int32_t mode) const;
  Sh htake_sh(std::size_t i, std::int32_t mode);
  void hput_vecsh(std::size_t i, rust::Vec<Sh> x, std::int32_t mode) const;
  rust::Vec<Sh> htake_vecsh(std::size_t i, std::int32_t mode);
  void hput_boxsh(std::size_t i, rust::Box<Sh> x, std::int32_t mode) const;
  rust::Box<Sh> htake_boxsh(std::size_t i, std::int32_t mode);
  void hput_uniquesh(std::size_t i, std::unique_ptr<Sh> x, std::int32_t mode) const;
  std::unique_ptr<Sh> htake_uniquesh(std::size_t i, std::int32_t mode);
  void hput_sharedsh(std::size_t i, std::shared_ptr<Sh> x, std::int32_t mode) const;
  std::shared_ptr<Sh> htake_sharedsh(std::size_t i, std::int32_t mode);
  void hput_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> x, std::int32_t mode) const;
  std::array<rust::Box<RObj>, 2> htake_arrbox(std::size_t i, std::int32_t mode);
  void hput_arrsh(std::size_t i, std::array<Sh, 2> x, std::int32_t mode) const;
  std::array<Sh, 2> htake_arrsh(std::size_t i, std::int32_t mode);
  void hput_tracked(std::size_t i, Tracked x, std::int32_t mode) const;
  Tracked htake_tracked(std::size_t i, std::int32_t mode);
  void hput_vectr(std::size_t i, rust::Vec<Tracked> x, std::int32_t mode) const;
  rust::Vec<Tracked> htake_vectr(std::size_t i, std::int32_t mode);
  void hput_boxtr(std::size_t i, rust::Box<Tracked> x, std::int32_t mode) const;
  rust::Box<Tracked> htake_boxtr(std::size_t i, std::int32_t mode);
  void hput_vecstr(std::size_t i, rust::Vec<rust::String> x, std::int32_t mode) const;
  rust::Vec<rust::String> htake_vecstr(std::size_t i, std::int32_t mode);
  void hput_one(std::size_t i, One x, std::int32_t mode) const;
  One htake_one(std::size_t i, std::int32_t mode);
  void hput_onet(std::size_t i, OneT x, std::int32_t mode) const;
  OneT htake_onet(std::size_t i, std::int32_t mode);
  void hput_nest(std::size_t i, Nest x, std::int32_t mode) const;
  Nest htake_nest(std::size_t i, std::int32_t mode);
};
Holder *holder();
std::unique_ptr<CObj> mkcobj(std::int32_t k);
std::unique_ptr<Base> mkbase(std::int32_t k);
std::shared_ptr<CObj> mkshared(std::int32_t k);
std::unique_ptr<std::string> mkustring(const std::string &s);
std::unique_ptr<std::vector<CObj>> mkuvec(std::int32_t k);
std::int64_t live();
bool bad();
rust::Box<RObj> unpack(Sh x);
void put_box(std::size_t i, rust::Box<RObj> x);
rust::Box<RObj> take_box(std::size_t i);
void try_put_box(std::size_t i, rust::Box<RObj> x, std::int32_t mode);
rust::Box<RObj> try_take_box(std::size_t i, std::int32_t mode);
rust::Box<RObj> two_box(rust::Box<RObj> x, rust::Box<RObj> y, std::int32_t mode);
rust::Box<RObj> three_box(std::uint8_t a, rust::Box<RObj> x, rust::String b, rust::Box<RObj> y, rust::Str c);
rust::Box<RObj> cb_box(rust::Fn<rust::Box<RObj>(rust::Box<RObj>)> f, rust::Box<RObj> x);
rust::Box<RObj> cb2_box(rust::Fn<rust::Box<RObj>(rust::Box<RObj>, rust::Box<RObj>)> f, rust::Box<RObj> x, rust::Box<RObj> y);
void repl_box(std::size_t i, rust::Box<RObj> &x);
rust::Box<RObj> deep_box(rust::Box<RObj> x, std::int32_t d, std::int32_t mode);
void cnew_box(std::size_t i, std::int32_t k);
void cdrop_box(std::size_t i);
std::int32_t cval_box(std::size_t i);
void c_rput_box(std::size_t i, std::size_t j);
void c_rtake_box(std::size_t i, std::size_t j);
void c_rignore_box(std::size_t j);
bool c_rtry_put_box(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_box(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_box(std::int32_t mode);
void c_rthree_box();
void c_rrepl_box(std::size_t i, std::size_t j);
bool c_rdeep_box(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_box(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_box(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_vec(std::size_t i, rust::Vec<RObj> x);
rust::Vec<RObj> take_vec(std::size_t i);
void try_put_vec(std::size_t i, rust::Vec<RObj> x, std::int32_t mode);
rust::Vec<RObj> try_take_vec(std::size_t i, std::int32_t mode);
rust::Vec<RObj> two_vec(rust::Vec<RObj> x, rust::Vec<RObj> y, std::int32_t mode);
rust::Vec<RObj> three_vec(std::uint8_t a, rust::Vec<RObj> x, rust::String b, rust::Vec<RObj> y, rust::Str c);
rust::Vec<RObj> cb_vec(rust::Fn<rust::Vec<RObj>(rust::Vec<RObj>)> f, rust::Vec<RObj> x);
rust::Vec<RObj> cb2_vec(rust::Fn<rust::Vec<RObj>(rust::Vec<RObj>, rust::Vec<RObj>)> f, rust::Vec<RObj> x, rust::Vec<RObj> y);
void repl_vec(std::size_t i, rust::Vec<RObj> &x);
rust::Vec<RObj> deep_vec(rust::Vec<RObj> x, std::int32_t d, std::int32_t mode);
void cnew_vec(std::size_t i, std::int32_t k);
void cdrop_vec(std::size_t i);
std::int32_t cval_vec(std::size_t i);
void c_rput_vec(std::size_t i, std::size_t j);
void c_rtake_vec(std::size_t i, std::size_t j);
void c_rignore_vec(std::size_t j);
bool c_rtry_put_vec(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_vec(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_vec(std::int32_t mode);
void c_rthree_vec();
void c_rrepl_vec(std::size_t i, std::size_t j);
bool c_rdeep_vec(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_vec(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_vec(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_string(std::size_t i, rust::String x);
rust::String take_string(std::size_t i);
void try_put_string(std::size_t i, rust::String x, std::int32_t mode);
rust::String try_take_string(std::size_t i, std::int32_t mode);
rust::String two_string(rust::String x, rust::String y, std::int32_t mode);
rust::String three_string(std::uint8_t a, rust::String x, rust::String b, rust::String y, rust::Str c);
rust::String cb_string(rust::Fn<rust::String(rust::String)> f, rust::String x);
rust::String cb2_string(rust::Fn<rust::String(rust::String, rust::String)> f, rust::String x, rust::String y);
void repl_string(std::size_t i, rust::String &x);
rust::String deep_string(rust::String x, std::int32_t d, std::int32_t mode);
void cnew_string(std::size_t i, std::int32_t k);
void cdrop_string(std::size_t i);
std::int32_t cval_string(std::size_t i);
void c_rput_string(std::size_t i, std::size_t j);
void c_rtake_string(std::size_t i, std::size_t j);
void c_rignore_string(std::size_t j);
bool c_rtry_put_string(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_string(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_string(std::int32_t mode);
void c_rthree_string();
void c_rrepl_string(std::size_t i, std::size_t j);
bool c_rdeep_string(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_string(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_string(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_unique(std::size_t i, std::unique_ptr<CObj> x);
std::unique_ptr<CObj> take_unique(std::size_t i);
void try_put_unique(std::size_t i, std::unique_ptr<CObj> x, std::int32_t mode);
std::unique_ptr<CObj> try_take_unique(std::size_t i, std::int32_t mode);
std::unique_ptr<CObj> two_unique(std::unique_ptr<CObj> x, std::unique_ptr<CObj> y, std::int32_t mode);
std::unique_ptr<CObj> three_unique(std::uint8_t a, std::unique_ptr<CObj> x, rust::String b, std::unique_ptr<CObj> y, rust::Str c);
std::unique_ptr<CObj> cb_unique(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>)> f, std::unique_ptr<CObj> x);
std::unique_ptr<CObj> cb2_unique(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::unique_ptr<CObj>)> f, std::unique_ptr<CObj> x, std::unique_ptr<CObj> y);
void repl_unique(std::size_t i, std::unique_ptr<CObj> &x);
std::unique_ptr<CObj> deep_unique(std::unique_ptr<CObj> x, std::int32_t d, std::int32_t mode);
void cnew_unique(std::size_t i, std::int32_t k);
void cdrop_unique(std::size_t i);
std::int32_t cval_unique(std::size_t i);
void c_rput_unique(std::size_t i, std::size_t j);
void c_rtake_unique(std::size_t i, std::size_t j);
void c_rignore_unique(std::size_t j);
bool c_rtry_put_unique(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_unique(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_unique(std::int32_t mode);
void c_rthree_unique();
void c_rrepl_unique(std::size_t i, std::size_t j);
bool c_rdeep_unique(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_unique(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_unique(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_base(std::size_t i, std::unique_ptr<Base> x);
std::unique_ptr<Base> take_base(std::size_t i);
void try_put_base(std::size_t i, std::unique_ptr<Base> x, std::int32_t mode);
std::unique_ptr<Base> try_take_base(std::size_t i, std::int32_t mode);
std::unique_ptr<Base> two_base(std::unique_ptr<Base> x, std::unique_ptr<Base> y, std::int32_t mode);
std::unique_ptr<Base> three_base(std::uint8_t a, std::unique_ptr<Base> x, rust::String b, std::unique_ptr<Base> y, rust::Str c);
std::unique_ptr<Base> cb_base(rust::Fn<std::unique_ptr<Base>(std::unique_ptr<Base>)> f, std::unique_ptr<Base> x);
std::unique_ptr<Base> cb2_base(rust::Fn<std::unique_ptr<Base>(std::unique_ptr<Base>, std::unique_ptr<Base>)> f, std::unique_ptr<Base> x, std::unique_ptr<Base> y);
void repl_base(std::size_t i, std::unique_ptr<Base> &x);
std::unique_ptr<Base> deep_base(std::unique_ptr<Base> x, std::int32_t d, std::int32_t mode);
void cnew_base(std::size_t i, std::int32_t k);
void cdrop_base(std::size_t i);
std::int32_t cval_base(std::size_t i);
void c_rput_base(std::size_t i, std::size_t j);
void c_rtake_base(std::size_t i, std::size_t j);
void c_rignore_base(std::size_t j);
bool c_rtry_put_base(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_base(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_base(std::int32_t mode);
void c_rthree_base();
void c_rrepl_base(std::size_t i, std::size_t j);
bool c_rdeep_base(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_base(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_base(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_shared(std::size_t i, std::shared_ptr<CObj> x);
std::shared_ptr<CObj> take_shared(std::size_t i);
void try_put_shared(std::size_t i, std::shared_ptr<CObj> x, std::int32_t mode);
std::shared_ptr<CObj> try_take_shared(std::size_t i, std::int32_t mode);
std::shared_ptr<CObj> two_shared(std::shared_ptr<CObj> x, std::shared_ptr<CObj> y, std::int32_t mode);
std::shared_ptr<CObj> three_shared(std::uint8_t a, std::shared_ptr<CObj> x, rust::String b, std::shared_ptr<CObj> y, rust::Str c);
std::shared_ptr<CObj> cb_shared(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>)> f, std::shared_ptr<CObj> x);
std::shared_ptr<CObj> cb2_shared(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::shared_ptr<CObj>)> f, std::shared_ptr<CObj> x, std::shared_ptr<CObj> y);
void repl_shared(std::size_t i, std::shared_ptr<CObj> &x);
std::shared_ptr<CObj> deep_shared(std::shared_ptr<CObj> x, std::int32_t d, std::int32_t mode);
void cnew_shared(std::size_t i, std::int32_t k);
void cdrop_shared(std::size_t i);
std::int32_t cval_shared(std::size_t i);
void c_rput_shared(std::size_t i, std::size_t j);
void c_rtake_shared(std::size_t i, std::size_t j);
void c_rignore_shared(std::size_t j);
bool c_rtry_put_shared(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_shared(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_shared(std::int32_t mode);
void c_rthree_shared();
void c_rrepl_shared(std::size_t i, std::size_t j);
bool c_rdeep_shared(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_shared(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_shared(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_ustring(std::size_t i, std::unique_ptr<std::string> x);
std::unique_ptr<std::string> take_ustring(std::size_t i);
void try_put_ustring(std::size_t i, std::unique_ptr<std::string> x, std::int32_t mode);
std::unique_ptr<std::string> try_take_ustring(std::size_t i, std::int32_t mode);
std::unique_ptr<std::string> two_ustring(std::unique_ptr<std::string> x, std::unique_ptr<std::string> y, std::int32_t mode);
std::unique_ptr<std::string> three_ustring(std::uint8_t a, std::unique_ptr<std::string> x, rust::String b, std::unique_ptr<std::string> y, rust::Str c);
std::unique_ptr<std::string> cb_ustring(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>)> f, std::unique_ptr<std::string> x);
std::unique_ptr<std::string> cb2_ustring(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>, std::unique_ptr<std::string>)> f, std::unique_ptr<std::string> x, std::unique_ptr<std::string> y);
void repl_ustring(std::size_t i, std::unique_ptr<std::string> &x);
std::unique_ptr<std::string> deep_ustring(std::unique_ptr<std::string> x, std::int32_t d, std::int32_t mode);
void cnew_ustring(std::size_t i, std::int32_t k);
void cdrop_ustring(std::size_t i);
std::int32_t cval_ustring(std::size_t i);
void c_rput_ustring(std::size_t i, std::size_t j);
void c_rtake_ustring(std::size_t i, std::size_t j);
void c_rignore_ustring(std::size_t j);
bool c_rtry_put_ustring(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_ustring(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_ustring(std::int32_t mode);
void c_rthree_ustring();
void c_rrepl_ustring(std::size_t i, std::size_t j);
bool c_rdeep_ustring(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_ustring(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_ustring(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> x);
std::unique_ptr<std::vector<CObj>> take_uvec(std::size_t i);
void try_put_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> x, std::int32_t mode);
std::unique_ptr<std::vector<CObj>> try_take_uvec(std::size_t i, std::int32_t mode);
std::unique_ptr<std::vector<CObj>> two_uvec(std::unique_ptr<std::vector<CObj>> x, std::unique_ptr<std::vector<CObj>> y, std::int32_t mode);
std::unique_ptr<std::vector<CObj>> three_uvec(std::uint8_t a, std::unique_ptr<std::vector<CObj>> x, rust::String b, std::unique_ptr<std::vector<CObj>> y, rust::Str c);
std::unique_ptr<std::vector<CObj>> cb_uvec(rust::Fn<std::unique_ptr<std::vector<CObj>>(std::unique_ptr<std::vector<CObj>>)> f, std::unique_ptr<std::vector<CObj>> x);
std::unique_ptr<std::vector<CObj>> cb2_uvec(rust::Fn<std::unique_ptr<std::vector<CObj>>(std::unique_ptr<std::vector<CObj>>, std::unique_ptr<std::vector<CObj>>)> f, std::unique_ptr<std::vector<CObj>> x, std::unique_ptr<std::vector<CObj>> y);
void repl_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> &x);
std::unique_ptr<std::vector<CObj>> deep_uvec(std::unique_ptr<std::vector<CObj>> x, std::int32_t d, std::int32_t mode);
void cnew_uvec(std::size_t i, std::int32_t k);
void cdrop_uvec(std::size_t i);
std::int32_t cval_uvec(std::size_t i);
void c_rput_uvec(std::size_t i, std::size_t j);
void c_rtake_uvec(std::size_t i, std::size_t j);
void c_rignore_uvec(std::size_t j);
bool c_rtry_put_uvec(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_uvec(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_uvec(std::int32_t mode);
void c_rthree_uvec();
void c_rrepl_uvec(std::size_t i, std::size_t j);
bool c_rdeep_uvec(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_uvec(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_uvec(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_sh(std::size_t i, Sh x);
Sh take_sh(std::size_t i);
void try_put_sh(std::size_t i, Sh x, std::int32_t mode);
Sh try_take_sh(std::size_t i, std::int32_t mode);
Sh two_sh(Sh x, Sh y, std::int32_t mode);
Sh three_sh(std::uint8_t a, Sh x, rust::String b, Sh y, rust::Str c);
Sh cb_sh(rust::Fn<Sh(Sh)> f, Sh x);
Sh cb2_sh(rust::Fn<Sh(Sh, Sh)> f, Sh x, Sh y);
void repl_sh(std::size_t i, Sh &x);
Sh deep_sh(Sh x, std::int32_t d, std::int32_t mode);
void cnew_sh(std::size_t i, std::int32_t k);
void cdrop_sh(std::size_t i);
std::int32_t cval_sh(std::size_t i);
void c_rput_sh(std::size_t i, std::size_t j);
void c_rtake_sh(std::size_t i, std::size_t j);
void c_rignore_sh(std::size_t j);
bool c_rtry_put_sh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_sh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_sh(std::int32_t mode);
void c_rthree_sh();
void c_rrepl_sh(std::size_t i, std::size_t j);
bool c_rdeep_sh(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_sh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_sh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_vecsh(std::size_t i, rust::Vec<Sh> x);
rust::Vec<Sh> take_vecsh(std::size_t i);
void try_put_vecsh(std::size_t i, rust::Vec<Sh> x, std::int32_t mode);
rust::Vec<Sh> try_take_vecsh(std::size_t i, std::int32_t mode);
rust::Vec<Sh> two_vecsh(rust::Vec<Sh> x, rust::Vec<Sh> y, std::int32_t mode);
rust::Vec<Sh> three_vecsh(std::uint8_t a, rust::Vec<Sh> x, rust::String b, rust::Vec<Sh> y, rust::Str c);
rust::Vec<Sh> cb_vecsh(rust::Fn<rust::Vec<Sh>(rust::Vec<Sh>)> f, rust::Vec<Sh> x);
rust::Vec<Sh> cb2_vecsh(rust::Fn<rust::Vec<Sh>(rust::Vec<Sh>, rust::Vec<Sh>)> f, rust::Vec<Sh> x, rust::Vec<Sh> y);
void repl_vecsh(std::size_t i, rust::Vec<Sh> &x);
rust::Vec<Sh> deep_vecsh(rust::Vec<Sh> x, std::int32_t d, std::int32_t mode);
void cnew_vecsh(std::size_t i, std::int32_t k);
void cdrop_vecsh(std::size_t i);
std::int32_t cval_vecsh(std::size_t i);
void c_rput_vecsh(std::size_t i, std::size_t j);
void c_rtake_vecsh(std::size_t i, std::size_t j);
void c_rignore_vecsh(std::size_t j);
bool c_rtry_put_vecsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_vecsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_vecsh(std::int32_t mode);
void c_rthree_vecsh();
void c_rrepl_vecsh(std::size_t i, std::size_t j);
bool c_rdeep_vecsh(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_vecsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_vecsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_boxsh(std::size_t i, rust::Box<Sh> x);
rust::Box<Sh> take_boxsh(std::size_t i);
void try_put_boxsh(std::size_t i, rust::Box<Sh> x, std::int32_t mode);
rust::Box<Sh> try_take_boxsh(std::size_t i, std::int32_t mode);
rust::Box<Sh> two_boxsh(rust::Box<Sh> x, rust::Box<Sh> y, std::int32_t mode);
rust::Box<Sh> three_boxsh(std::uint8_t a, rust::Box<Sh> x, rust::String b, rust::Box<Sh> y, rust::Str c);
rust::Box<Sh> cb_boxsh(rust::Fn<rust::Box<Sh>(rust::Box<Sh>)> f, rust::Box<Sh> x);
rust::Box<Sh> cb2_boxsh(rust::Fn<rust::Box<Sh>(rust::Box<Sh>, rust::Box<Sh>)> f, rust::Box<Sh> x, rust::Box<Sh> y);
void repl_boxsh(std::size_t i, rust::Box<Sh> &x);
rust::Box<Sh> deep_boxsh(rust::Box<Sh> x, std::int32_t d, std::int32_t mode);
void cnew_boxsh(std::size_t i, std::int32_t k);
void cdrop_boxsh(std::size_t i);
std::int32_t cval_boxsh(std::size_t i);
void c_rput_boxsh(std::size_t i, std::size_t j);
void c_rtake_boxsh(std::size_t i, std::size_t j);
void c_rignore_boxsh(std::size_t j);
bool c_rtry_put_boxsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_boxsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_boxsh(std::int32_t mode);
void c_rthree_boxsh();
void c_rrepl_boxsh(std::size_t i, std::size_t j);
bool c_rdeep_boxsh(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_boxsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_boxsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_uniquesh(std::size_t i, std::unique_ptr<Sh> x);
std::unique_ptr<Sh> take_uniquesh(std::size_t i);
void try_put_uniquesh(std::size_t i, std::unique_ptr<Sh> x, std::int32_t mode);
std::unique_ptr<Sh> try_take_uniquesh(std::size_t i, std::int32_t mode);
std::unique_ptr<Sh> two_uniquesh(std::unique_ptr<Sh> x, std::unique_ptr<Sh> y, std::int32_t mode);
std::unique_ptr<Sh> three_uniquesh(std::uint8_t a, std::unique_ptr<Sh> x, rust::String b, std::unique_ptr<Sh> y, rust::Str c);
std::unique_ptr<Sh> cb_uniquesh(rust::Fn<std::unique_ptr<Sh>(std::unique_ptr<Sh>)> f, std::unique_ptr<Sh> x);
std::unique_ptr<Sh> cb2_uniquesh(rust::Fn<std::unique_ptr<Sh>(std::unique_ptr<Sh>, std::unique_ptr<Sh>)> f, std::unique_ptr<Sh> x, std::unique_ptr<Sh> y);
void repl_uniquesh(std::size_t i, std::unique_ptr<Sh> &x);
std::unique_ptr<Sh> deep_uniquesh(std::unique_ptr<Sh> x, std::int32_t d, std::int32_t mode);
void cnew_uniquesh(std::size_t i, std::int32_t k);
void cdrop_uniquesh(std::size_t i);
std::int32_t cval_uniquesh(std::size_t i);
void c_rput_uniquesh(std::size_t i, std::size_t j);
void c_rtake_uniquesh(std::size_t i, std::size_t j);
void c_rignore_uniquesh(std::size_t j);
bool c_rtry_put_uniquesh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_uniquesh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_uniquesh(std::int32_t mode);
void c_rthree_uniquesh();
void c_rrepl_uniquesh(std::size_t i, std::size_t j);
bool c_rdeep_uniquesh(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_uniquesh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_uniquesh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_sharedsh(std::size_t i, std::shared_ptr<Sh> x);
std::shared_ptr<Sh> take_sharedsh(std::size_t i);
void try_put_sharedsh(std::size_t i, std::shared_ptr<Sh> x, std::int32_t mode);
std::shared_ptr<Sh> try_take_sharedsh(std::size_t i, std::int32_t mode);
std::shared_ptr<Sh> two_sharedsh(std::shared_ptr<Sh> x, std::shared_ptr<Sh> y, std::int32_t mode);
std::shared_ptr<Sh> three_sharedsh(std::uint8_t a, std::shared_ptr<Sh> x, rust::String b, std::shared_ptr<Sh> y, rust::Str c);
std::shared_ptr<Sh> cb_sharedsh(rust::Fn<std::shared_ptr<Sh>(std::shared_ptr<Sh>)> f, std::shared_ptr<Sh> x);
std::shared_ptr<Sh> cb2_sharedsh(rust::Fn<std::shared_ptr<Sh>(std::shared_ptr<Sh>, std::shared_ptr<Sh>)> f, std::shared_ptr<Sh> x, std::shared_ptr<Sh> y);
void repl_sharedsh(std::size_t i, std::shared_ptr<Sh> &x);
std::shared_ptr<Sh> deep_sharedsh(std::shared_ptr<Sh> x, std::int32_t d, std::int32_t mode);
void cnew_sharedsh(std::size_t i, std::int32_t k);
void cdrop_sharedsh(std::size_t i);
std::int32_t cval_sharedsh(std::size_t i);
void c_rput_sharedsh(std::size_t i, std::size_t j);
void c_rtake_sharedsh(std::size_t i, std::size_t j);
void c_rignore_sharedsh(std::size_t j);
bool c_rtry_put_sharedsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_sharedsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_sharedsh(std::int32_t mode);
void c_rthree_sharedsh();
void c_rrepl_sharedsh(std::size_t i, std::size_t j);
bool c_rdeep_sharedsh(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_sharedsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_sharedsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> x);
std::array<rust::Box<RObj>, 2> take_arrbox(std::size_t i);
void try_put_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> x, std::int32_t mode);
std::array<rust::Box<RObj>, 2> try_take_arrbox(std::size_t i, std::int32_t mode);
std::array<rust::Box<RObj>, 2> two_arrbox(std::array<rust::Box<RObj>, 2> x, std::array<rust::Box<RObj>, 2> y, std::int32_t mode);
std::array<rust::Box<RObj>, 2> three_arrbox(std::uint8_t a, std::array<rust::Box<RObj>, 2> x, rust::String b, std::array<rust::Box<RObj>, 2> y, rust::Str c);
std::array<rust::Box<RObj>, 2> cb_arrbox(rust::Fn<std::array<rust::Box<RObj>, 2>(std::array<rust::Box<RObj>, 2>)> f, std::array<rust::Box<RObj>, 2> x);
std::array<rust::Box<RObj>, 2> cb2_arrbox(rust::Fn<std::array<rust::Box<RObj>, 2>(std::array<rust::Box<RObj>, 2>, std::array<rust::Box<RObj>, 2>)> f, std::array<rust::Box<RObj>, 2> x, std::array<rust::Box<RObj>, 2> y);
void repl_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> &x);
std::array<rust::Box<RObj>, 2> deep_arrbox(std::array<rust::Box<RObj>, 2> x, std::int32_t d, std::int32_t mode);
void cnew_arrbox(std::size_t i, std::int32_t k);
void cdrop_arrbox(std::size_t i);
std::int32_t cval_arrbox(std::size_t i);
void c_rput_arrbox(std::size_t i, std::size_t j);
void c_rtake_arrbox(std::size_t i, std::size_t j);
void c_rignore_arrbox(std::size_t j);
bool c_rtry_put_arrbox(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_arrbox(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_arrbox(std::int32_t mode);
void c_rthree_arrbox();
void c_rrepl_arrbox(std::size_t i, std::size_t j);
bool c_rdeep_arrbox(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_arrbox(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_arrbox(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_arrsh(std::size_t i, std::array<Sh, 2> x);
std::array<Sh, 2> take_arrsh(std::size_t i);
void try_put_arrsh(std::size_t i, std::array<Sh, 2> x, std::int32_t mode);
std::array<Sh, 2> try_take_arrsh(std::size_t i, std::int32_t mode);
std::array<Sh, 2> two_arrsh(std::array<Sh, 2> x, std::array<Sh, 2> y, std::int32_t mode);
std::array<Sh, 2> three_arrsh(std::uint8_t a, std::array<Sh, 2> x, rust::String b, std::array<Sh, 2> y, rust::Str c);
std::array<Sh, 2> cb_arrsh(rust::Fn<std::array<Sh, 2>(std::array<Sh, 2>)> f, std::array<Sh, 2> x);
std::array<Sh, 2> cb2_arrsh(rust::Fn<std::array<Sh, 2>(std::array<Sh, 2>, std::array<Sh, 2>)> f, std::array<Sh, 2> x, std::array<Sh, 2> y);
void repl_arrsh(std::size_t i, std::array<Sh, 2> &x);
std::array<Sh, 2> deep_arrsh(std::array<Sh, 2> x, std::int32_t d, std::int32_t mode);
void cnew_arrsh(std::size_t i, std::int32_t k);
void cdrop_arrsh(std::size_t i);
std::int32_t cval_arrsh(std::size_t i);
void c_rput_arrsh(std::size_t i, std::size_t j);
void c_rtake_arrsh(std::size_t i, std::size_t j);
void c_rignore_arrsh(std::size_t j);
bool c_rtry_put_arrsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_arrsh(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_arrsh(std::int32_t mode);
void c_rthree_arrsh();
void c_rrepl_arrsh(std::size_t i, std::size_t j);
bool c_rdeep_arrsh(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_arrsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_arrsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_tracked(std::size_t i, Tracked x);
Tracked take_tracked(std::size_t i);
void try_put_tracked(std::size_t i, Tracked x, std::int32_t mode);
Tracked try_take_tracked(std::size_t i, std::int32_t mode);
Tracked two_tracked(Tracked x, Tracked y, std::int32_t mode);
Tracked three_tracked(std::uint8_t a, Tracked x, rust::String b, Tracked y, rust::Str c);
Tracked cb_tracked(rust::Fn<Tracked(Tracked)> f, Tracked x);
Tracked cb2_tracked(rust::Fn<Tracked(Tracked, Tracked)> f, Tracked x, Tracked y);
void repl_tracked(std::size_t i, Tracked &x);
Tracked deep_tracked(Tracked x, std::int32_t d, std::int32_t mode);
void cnew_tracked(std::size_t i, std::int32_t k);
void cdrop_tracked(std::size_t i);
std::int32_t cval_tracked(std::size_t i);
void c_rput_tracked(std::size_t i, std::size_t j);
void c_rtake_tracked(std::size_t i, std::size_t j);
void c_rignore_tracked(std::size_t j);
bool c_rtry_put_tracked(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_tracked(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_tracked(std::int32_t mode);
void c_rthree_tracked();
void c_rrepl_tracked(std::size_t i, std::size_t j);
bool c_rdeep_tracked(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_tracked(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_tracked(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_vectr(std::size_t i, rust::Vec<Tracked> x);
rust::Vec<Tracked> take_vectr(std::size_t i);
void try_put_vectr(std::size_t i, rust::Vec<Tracked> x, std::int32_t mode);
rust::Vec<Tracked> try_take_vectr(std::size_t i, std::int32_t mode);
rust::Vec<Tracked> two_vectr(rust::Vec<Tracked> x, rust::Vec<Tracked> y, std::int32_t mode);
rust::Vec<Tracked> three_vectr(std::uint8_t a, rust::Vec<Tracked> x, rust::String b, rust::Vec<Tracked> y, rust::Str c);
rust::Vec<Tracked> cb_vectr(rust::Fn<rust::Vec<Tracked>(rust::Vec<Tracked>)> f, rust::Vec<Tracked> x);
rust::Vec<Tracked> cb2_vectr(rust::Fn<rust::Vec<Tracked>(rust::Vec<Tracked>, rust::Vec<Tracked>)> f, rust::Vec<Tracked> x, rust::Vec<Tracked> y);
void repl_vectr(std::size_t i, rust::Vec<Tracked> &x);
rust::Vec<Tracked> deep_vectr(rust::Vec<Tracked> x, std::int32_t d, std::int32_t mode);
void cnew_vectr(std::size_t i, std::int32_t k);
void cdrop_vectr(std::size_t i);
std::int32_t cval_vectr(std::size_t i);
void c_rput_vectr(std::size_t i, std::size_t j);
void c_rtake_vectr(std::size_t i, std::size_t j);
void c_rignore_vectr(std::size_t j);
bool c_rtry_put_vectr(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_vectr(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_vectr(std::int32_t mode);
void c_rthree_vectr();
void c_rrepl_vectr(std::size_t i, std::size_t j);
bool c_rdeep_vectr(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_vectr(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_vectr(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_boxtr(std::size_t i, rust::Box<Tracked> x);
rust::Box<Tracked> take_boxtr(std::size_t i);
void try_put_boxtr(std::size_t i, rust::Box<Tracked> x, std::int32_t mode);
rust::Box<Tracked> try_take_boxtr(std::size_t i, std::int32_t mode);
rust::Box<Tracked> two_boxtr(rust::Box<Tracked> x, rust::Box<Tracked> y, std::int32_t mode);
rust::Box<Tracked> three_boxtr(std::uint8_t a, rust::Box<Tracked> x, rust::String b, rust::Box<Tracked> y, rust::Str c);
rust::Box<Tracked> cb_boxtr(rust::Fn<rust::Box<Tracked>(rust::Box<Tracked>)> f, rust::Box<Tracked> x);
rust::Box<Tracked> cb2_boxtr(rust::Fn<rust::Box<Tracked>(rust::Box<Tracked>, rust::Box<Tracked>)> f, rust::Box<Tracked> x, rust::Box<Tracked> y);
void repl_boxtr(std::size_t i, rust::Box<Tracked> &x);
rust::Box<Tracked> deep_boxtr(rust::Box<Tracked> x, std::int32_t d, std::int32_t mode);
void cnew_boxtr(std::size_t i, std::int32_t k);
void cdrop_boxtr(std::size_t i);
std::int32_t cval_boxtr(std::size_t i);
void c_rput_boxtr(std::size_t i, std::size_t j);
void c_rtake_boxtr(std::size_t i, std::size_t j);
void c_rignore_boxtr(std::size_t j);
bool c_rtry_put_boxtr(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_boxtr(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_boxtr(std::int32_t mode);
void c_rthree_boxtr();
void c_rrepl_boxtr(std::size_t i, std::size_t j);
bool c_rdeep_boxtr(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_boxtr(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_boxtr(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_vecstr(std::size_t i, rust::Vec<rust::String> x);
rust::Vec<rust::String> take_vecstr(std::size_t i);
void try_put_vecstr(std::size_t i, rust::Vec<rust::String> x, std::int32_t mode);
rust::Vec<rust::String> try_take_vecstr(std::size_t i, std::int32_t mode);
rust::Vec<rust::String> two_vecstr(rust::Vec<rust::String> x, rust::Vec<rust::String> y, std::int32_t mode);
rust::Vec<rust::String> three_vecstr(std::uint8_t a, rust::Vec<rust::String> x, rust::String b, rust::Vec<rust::String> y, rust::Str c);
rust::Vec<rust::String> cb_vecstr(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>)> f, rust::Vec<rust::String> x);
rust::Vec<rust::String> cb2_vecstr(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>, rust::Vec<rust::String>)> f, rust::Vec<rust::String> x, rust::Vec<rust::String> y);
void repl_vecstr(std::size_t i, rust::Vec<rust::String> &x);
rust::Vec<rust::String> deep_vecstr(rust::Vec<rust::String> x, std::int32_t d, std::int32_t mode);
void cnew_vecstr(std::size_t i, std::int32_t k);
void cdrop_vecstr(std::size_t i);
std::int32_t cval_vecstr(std::size_t i);
void c_rput_vecstr(std::size_t i, std::size_t j);
void c_rtake_vecstr(std::size_t i, std::size_t j);
void c_rignore_vecstr(std::size_t j);
bool c_rtry_put_vecstr(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_vecstr(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_vecstr(std::int32_t mode);
void c_rthree_vecstr();
void c_rrepl_vecstr(std::size_t i, std::size_t j);
bool c_rdeep_vecstr(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_vecstr(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_vecstr(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_one(std::size_t i, One x);
One take_one(std::size_t i);
void try_put_one(std::size_t i, One x, std::int32_t mode);
One try_take_one(std::size_t i, std::int32_t mode);
One two_one(One x, One y, std::int32_t mode);
One three_one(std::uint8_t a, One x, rust::String b, One y, rust::Str c);
One cb_one(rust::Fn<One(One)> f, One x);
One cb2_one(rust::Fn<One(One, One)> f, One x, One y);
void repl_one(std::size_t i, One &x);
One deep_one(One x, std::int32_t d, std::int32_t mode);
void cnew_one(std::size_t i, std::int32_t k);
void cdrop_one(std::size_t i);
std::int32_t cval_one(std::size_t i);
void c_rput_one(std::size_t i, std::size_t j);
void c_rtake_one(std::size_t i, std::size_t j);
void c_rignore_one(std::size_t j);
bool c_rtry_put_one(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_one(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_one(std::int32_t mode);
void c_rthree_one();
void c_rrepl_one(std::size_t i, std::size_t j);
bool c_rdeep_one(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_one(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_one(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_onet(std::size_t i, OneT x);
OneT take_onet(std::size_t i);
void try_put_onet(std::size_t i, OneT x, std::int32_t mode);
OneT try_take_onet(std::size_t i, std::int32_t mode);
OneT two_onet(OneT x, OneT y, std::int32_t mode);
OneT three_onet(std::uint8_t a, OneT x, rust::String b, OneT y, rust::Str c);
OneT cb_onet(rust::Fn<OneT(OneT)> f, OneT x);
OneT cb2_onet(rust::Fn<OneT(OneT, OneT)> f, OneT x, OneT y);
void repl_onet(std::size_t i, OneT &x);
OneT deep_onet(OneT x, std::int32_t d, std::int32_t mode);
void cnew_onet(std::size_t i, std::int32_t k);
void cdrop_onet(std::size_t i);
std::int32_t cval_onet(std::size_t i);
void c_rput_onet(std::size_t i, std::size_t j);
void c_rtake_onet(std::size_t i, std::size_t j);
void c_rignore_onet(std::size_t j);
bool c_rtry_put_onet(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_onet(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_onet(std::int32_t mode);
void c_rthree_onet();
void c_rrepl_onet(std::size_t i, std::size_t j);
bool c_rdeep_onet(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_onet(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_onet(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
void put_nest(std::size_t i, Nest x);
Nest take_nest(std::size_t i);
void try_put_nest(std::size_t i, Nest x, std::int32_t mode);
Nest try_take_nest(std::size_t i, std::int32_t mode);
Nest two_nest(Nest x, Nest y, std::int32_t mode);
Nest three_nest(std::uint8_t a, Nest x, rust::String b, Nest y, rust::Str c);
Nest cb_nest(rust::Fn<Nest(Nest)> f, Nest x);
Nest cb2_nest(rust::Fn<Nest(Nest, Nest)> f, Nest x, Nest y);
void repl_nest(std::size_t i, Nest &x);
Nest deep_nest(Nest x, std::int32_t d, std::int32_t mode);
void cnew_nest(std::size_t i, std::int32_t k);
void cdrop_nest(std::size_t i);
std::int32_t cval_nest(std::size_t i);
void c_rput_nest(std::size_t i, std::size_t j);
void c_rtake_nest(std::size_t i, std::size_t j);
void c_rignore_nest(std::size_t j);
bool c_rtry_put_nest(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtry_take_nest(std::size_t i, std::size_t j, std::int32_t mode);
bool c_rtwo_nest(std::int32_t mode);
void c_rthree_nest();
void c_rrepl_nest(std::size_t i, std::size_t j);
bool c_rdeep_nest(std::size_t i, std::int32_t d, std::int32_t mode);
bool c_rhput_nest(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
bool c_rhtake_nest(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode);
} // namespace c10
