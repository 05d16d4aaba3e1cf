// Generated by gen_c08.py.
#pragma once
#include "rust/cxx.h"
#include <cstdlib>
#include <memory>
#include <new>
#include <string>
#include <vector>
extern "C" {
std::uint64_t vk8_new();
void vk8_drop(std::uint64_t);
}
namespace c08 {
struct Sh;
struct P3;
enum class En : std::int16_t;
struct Look;
extern std::int64_t own;
struct Base {
  std::int32_t val;
  std::int32_t pad = 0;
  std::uint64_t id;
  Base(int v = 0) : val(v), id(vk8_new()) {}
  Base(const Base &o) : val(o.val), id(vk8_new()) {}
  Base(Base &&o) noexcept : val(o.val), id(o.id) { o.id = 0; }
  Base &operator=(const Base &o) { val = o.val; return *this; }
  ~Base() {
    vk8_drop(id);
    id = 0xdead0000dead;
  }
};
// has allocation functions of its own
struct Tracked : Base {
  using IsRelocatable = std::true_type;
  using Base::Base;
  static void *operator new(std::size_t n) {
    own++;
    void *p = std::malloc(n + 64);
    return static_cast<char *>(p) + 64;
  }
  static void *operator new(std::size_t, void *p) { return p; }
  static void operator delete(void *p) noexcept {
    own--;
    std::free(static_cast<char *>(p) - 64);
  }
};
struct alignas(32) TrackedA {
  using IsRelocatable = std::true_type;
  Base t;
  TrackedA(int k) : t(k) {}
};
struct Obj : Base {
  const Obj *self = this;
  using Base::Base;
  Obj(const Obj &) = delete;
  std::int32_t oval() const noexcept { return self == this ? val : -2; }
  void oset(std::int32_t k) noexcept { val = k; }
};
struct Poly {
  virtual ~Poly() {}
  virtual std::int32_t pval() const noexcept = 0;
  virtual void pset(std::int32_t k) noexcept = 0;
};
std::int64_t live() noexcept;
bool bad() noexcept;
std::int64_t own_news() noexcept;
void string_set(std::string &s, std::int32_t k);
Tracked tracked_mk(std::int32_t k);
void vobj_set(std::vector<Obj> &v, std::int32_t k);
std::int32_t vobj_val(const std::vector<Obj> &v);
void vstring_set(std::vector<std::string> &v, std::int32_t k);
std::unique_ptr<Obj> umake_obj(std::int32_t k);
std::int32_t utake_obj(std::unique_ptr<Obj> p);
std::unique_ptr<Obj> uecho_obj(std::unique_ptr<Obj> p);
void ureset_obj(std::unique_ptr<Obj> &p, std::int32_t k);
Look ulook_obj(const std::unique_ptr<Obj> &p);
std::unique_ptr<Poly> umake_poly(std::int32_t k);
std::int32_t utake_poly(std::unique_ptr<Poly> p);
std::unique_ptr<Poly> uecho_poly(std::unique_ptr<Poly> p);
void ureset_poly(std::unique_ptr<Poly> &p, std::int32_t k);
Look ulook_poly(const std::unique_ptr<Poly> &p);
std::unique_ptr<Sh> umake_sh(std::int32_t k);
std::int32_t utake_sh(std::unique_ptr<Sh> p);
std::unique_ptr<Sh> uecho_sh(std::unique_ptr<Sh> p);
void ureset_sh(std::unique_ptr<Sh> &p, std::int32_t k);
Look ulook_sh(const std::unique_ptr<Sh> &p);
std::unique_ptr<P3> umake_p3(std::int32_t k);
std::int32_t utake_p3(std::unique_ptr<P3> p);
std::unique_ptr<P3> uecho_p3(std::unique_ptr<P3> p);
void ureset_p3(std::unique_ptr<P3> &p, std::int32_t k);
Look ulook_p3(const std::unique_ptr<P3> &p);
std::unique_ptr<En> umake_en(std::int32_t k);
std::int32_t utake_en(std::unique_ptr<En> p);
std::unique_ptr<En> uecho_en(std::unique_ptr<En> p);
void ureset_en(std::unique_ptr<En> &p, std::int32_t k);
Look ulook_en(const std::unique_ptr<En> &p);
std::unique_ptr<Tracked> umake_tracked(std::int32_t k);
std::int32_t utake_tracked(std::unique_ptr<Tracked> p);
std::unique_ptr<Tracked> uecho_tracked(std::unique_ptr<Tracked> p);
void ureset_tracked(std::unique_ptr<Tracked> &p, std::int32_t k);
Look ulook_tracked(const std::unique_ptr<Tracked> &p);
std::unique_ptr<TrackedA> umake_trackeda(std::int32_t k);
std::int32_t utake_trackeda(std::unique_ptr<TrackedA> p);
std::unique_ptr<TrackedA> uecho_trackeda(std::unique_ptr<TrackedA> p);
void ureset_trackeda(std::unique_ptr<TrackedA> &p, std::int32_t k);
Look ulook_trackeda(const std::unique_ptr<TrackedA> &p);
std::unique_ptr<std::string> umake_string(std::int32_t k);
std::int32_t utake_string(std::unique_ptr<std::string> p);
std::unique_ptr<std::string> uecho_string(std::unique_ptr<std::string> p);
void ureset_string(std::unique_ptr<std::string> &p, std::int32_t k);
Look ulook_string(const std::unique_ptr<std::string> &p);
std::unique_ptr<std::vector<std::int32_t>> umake_vi32(std::int32_t k);
std::int32_t utake_vi32(std::unique_ptr<std::vector<std::int32_t>> p);
std::unique_ptr<std::vector<std::int32_t>> uecho_vi32(std::unique_ptr<std::vector<std::int32_t>> p);
void ureset_vi32(std::unique_ptr<std::vector<std::int32_t>> &p, std::int32_t k);
Look ulook_vi32(const std::unique_ptr<std::vector<std::int32_t>> &p);
std::unique_ptr<std::vector<std::string>> umake_vstring(std::int32_t k);
std::int32_t utake_vstring(std::unique_ptr<std::vector<std::string>> p);
std::unique_ptr<std::vector<std::string>> uecho_vstring(std::unique_ptr<std::vector<std::string>> p);
void ureset_vstring(std::unique_ptr<std::vector<std::string>> &p, std::int32_t k);
Look ulook_vstring(const std::unique_ptr<std::vector<std::string>> &p);
std::unique_ptr<std::vector<Sh>> umake_vsh(std::int32_t k);
std::int32_t utake_vsh(std::unique_ptr<std::vector<Sh>> p);
std::unique_ptr<std::vector<Sh>> uecho_vsh(std::unique_ptr<std::vector<Sh>> p);
void ureset_vsh(std::unique_ptr<std::vector<Sh>> &p, std::int32_t k);
Look ulook_vsh(const std::unique_ptr<std::vector<Sh>> &p);
std::unique_ptr<std::vector<Obj>> umake_vobj(std::int32_t k);
std::int32_t utake_vobj(std::unique_ptr<std::vector<Obj>> p);
std::unique_ptr<std::vector<Obj>> uecho_vobj(std::unique_ptr<std::vector<Obj>> p);
void ureset_vobj(std::unique_ptr<std::vector<Obj>> &p, std::int32_t k);
Look ulook_vobj(const std::unique_ptr<std::vector<Obj>> &p);
std::shared_ptr<Obj> smake_obj(std::int32_t k);
std::int32_t stake_obj(std::shared_ptr<Obj> p);
std::shared_ptr<Obj> secho_obj(std::shared_ptr<Obj> p);
void sreset_obj(std::shared_ptr<Obj> &p, std::int32_t k);
Look slook_obj(const std::shared_ptr<Obj> &p);
std::int64_t suse_obj(const std::shared_ptr<Obj> &p);
std::shared_ptr<Obj> salias_obj(const std::shared_ptr<Obj> &p);
void hold_obj(const std::shared_ptr<Obj> &p);
std::shared_ptr<Obj> held_obj();
std::weak_ptr<Obj> wmake_obj(std::shared_ptr<Obj> p);
std::weak_ptr<Obj> wecho_obj(std::weak_ptr<Obj> p);
Look wlook_obj(const std::weak_ptr<Obj> &p);
std::shared_ptr<Poly> smake_poly(std::int32_t k);
std::int32_t stake_poly(std::shared_ptr<Poly> p);
std::shared_ptr<Poly> secho_poly(std::shared_ptr<Poly> p);
void sreset_poly(std::shared_ptr<Poly> &p, std::int32_t k);
Look slook_poly(const std::shared_ptr<Poly> &p);
std::int64_t suse_poly(const std::shared_ptr<Poly> &p);
std::shared_ptr<Poly> salias_poly(const std::shared_ptr<Poly> &p);
void hold_poly(const std::shared_ptr<Poly> &p);
std::shared_ptr<Poly> held_poly();
std::weak_ptr<Poly> wmake_poly(std::shared_ptr<Poly> p);
std::weak_ptr<Poly> wecho_poly(std::weak_ptr<Poly> p);
Look wlook_poly(const std::weak_ptr<Poly> &p);
std::shared_ptr<Sh> smake_sh(std::int32_t k);
std::int32_t stake_sh(std::shared_ptr<Sh> p);
std::shared_ptr<Sh> secho_sh(std::shared_ptr<Sh> p);
void sreset_sh(std::shared_ptr<Sh> &p, std::int32_t k);
Look slook_sh(const std::shared_ptr<Sh> &p);
std::int64_t suse_sh(const std::shared_ptr<Sh> &p);
std::shared_ptr<Sh> salias_sh(const std::shared_ptr<Sh> &p);
void hold_sh(const std::shared_ptr<Sh> &p);
std::shared_ptr<Sh> held_sh();
std::weak_ptr<Sh> wmake_sh(std::shared_ptr<Sh> p);
std::weak_ptr<Sh> wecho_sh(std::weak_ptr<Sh> p);
Look wlook_sh(const std::weak_ptr<Sh> &p);
std::shared_ptr<P3> smake_p3(std::int32_t k);
std::int32_t stake_p3(std::shared_ptr<P3> p);
std::shared_ptr<P3> secho_p3(std::shared_ptr<P3> p);
void sreset_p3(std::shared_ptr<P3> &p, std::int32_t k);
Look slook_p3(const std::shared_ptr<P3> &p);
std::int64_t suse_p3(const std::shared_ptr<P3> &p);
std::shared_ptr<P3> salias_p3(const std::shared_ptr<P3> &p);
void hold_p3(const std::shared_ptr<P3> &p);
std::shared_ptr<P3> held_p3();
std::weak_ptr<P3> wmake_p3(std::shared_ptr<P3> p);
std::weak_ptr<P3> wecho_p3(std::weak_ptr<P3> p);
Look wlook_p3(const std::weak_ptr<P3> &p);
std::shared_ptr<En> smake_en(std::int32_t k);
std::int32_t stake_en(std::shared_ptr<En> p);
std::shared_ptr<En> secho_en(std::shared_ptr<En> p);
void sreset_en(std::shared_ptr<En> &p, std::int32_t k);
Look slook_en(const std::shared_ptr<En> &p);
std::int64_t suse_en(const std::shared_ptr<En> &p);
std::shared_ptr<En> salias_en(const std::shared_ptr<En> &p);
void hold_en(const std::shared_ptr<En> &p);
std::shared_ptr<En> held_en();
std::weak_ptr<En> wmake_en(std::shared_ptr<En> p);
std::weak_ptr<En> wecho_en(std::weak_ptr<En> p);
Look wlook_en(const std::weak_ptr<En> &p);
std::shared_ptr<Tracked> smake_tracked(std::int32_t k);
std::int32_t stake_tracked(std::shared_ptr<Tracked> p);
std::shared_ptr<Tracked> secho_tracked(std::shared_ptr<Tracked> p);
void sreset_tracked(std::shared_ptr<Tracked> &p, std::int32_t k);
Look slook_tracked(const std::shared_ptr<Tracked> &p);
std::int64_t suse_tracked(const std::shared_ptr<Tracked> &p);
std::shared_ptr<Tracked> salias_tracked(const std::shared_ptr<Tracked> &p);
void hold_tracked(const std::shared_ptr<Tracked> &p);
std::shared_ptr<Tracked> held_tracked();
std::weak_ptr<Tracked> wmake_tracked(std::shared_ptr<Tracked> p);
std::weak_ptr<Tracked> wecho_tracked(std::weak_ptr<Tracked> p);
Look wlook_tracked(const std::weak_ptr<Tracked> &p);
std::shared_ptr<TrackedA> smake_trackeda(std::int32_t k);
std::int32_t stake_trackeda(std::shared_ptr<TrackedA> p);
std::shared_ptr<TrackedA> secho_trackeda(std::shared_ptr<TrackedA> p);
void sreset_trackeda(std::shared_ptr<TrackedA> &p, std::int32_t k);
Look slook_trackeda(const std::shared_ptr<TrackedA> &p);
std::int64_t suse_trackeda(const std::shared_ptr<TrackedA> &p);
std::shared_ptr<TrackedA> salias_trackeda(const std::shared_ptr<TrackedA> &p);
void hold_trackeda(const std::shared_ptr<TrackedA> &p);
std::shared_ptr<TrackedA> held_trackeda();
std::weak_ptr<TrackedA> wmake_trackeda(std::shared_ptr<TrackedA> p);
std::weak_ptr<TrackedA> wecho_trackeda(std::weak_ptr<TrackedA> p);
Look wlook_trackeda(const std::weak_ptr<TrackedA> &p);
std::shared_ptr<std::string> smake_string(std::int32_t k);
std::int32_t stake_string(std::shared_ptr<std::string> p);
std::shared_ptr<std::string> secho_string(std::shared_ptr<std::string> p);
void sreset_string(std::shared_ptr<std::string> &p, std::int32_t k);
Look slook_string(const std::shared_ptr<std::string> &p);
std::int64_t suse_string(const std::shared_ptr<std::string> &p);
std::shared_ptr<std::string> salias_string(const std::shared_ptr<std::string> &p);
void hold_string(const std::shared_ptr<std::string> &p);
std::shared_ptr<std::string> held_string();
std::weak_ptr<std::string> wmake_string(std::shared_ptr<std::string> p);
std::weak_ptr<std::string> wecho_string(std::weak_ptr<std::string> p);
Look wlook_string(const std::weak_ptr<std::string> &p);
std::shared_ptr<bool> smake_bool(std::int32_t k);
std::int32_t stake_bool(std::shared_ptr<bool> p);
std::shared_ptr<bool> secho_bool(std::shared_ptr<bool> p);
void sreset_bool(std::shared_ptr<bool> &p, std::int32_t k);
Look slook_bool(const std::shared_ptr<bool> &p);
std::int64_t suse_bool(const std::shared_ptr<bool> &p);
std::shared_ptr<bool> salias_bool(const std::shared_ptr<bool> &p);
void hold_bool(const std::shared_ptr<bool> &p);
std::shared_ptr<bool> held_bool();
std::weak_ptr<bool> wmake_bool(std::shared_ptr<bool> p);
std::weak_ptr<bool> wecho_bool(std::weak_ptr<bool> p);
Look wlook_bool(const std::weak_ptr<bool> &p);
std::shared_ptr<std::uint8_t> smake_u8(std::int32_t k);
std::int32_t stake_u8(std::shared_ptr<std::uint8_t> p);
std::shared_ptr<std::uint8_t> secho_u8(std::shared_ptr<std::uint8_t> p);
void sreset_u8(std::shared_ptr<std::uint8_t> &p, std::int32_t k);
Look slook_u8(const std::shared_ptr<std::uint8_t> &p);
std::int64_t suse_u8(const std::shared_ptr<std::uint8_t> &p);
std::shared_ptr<std::uint8_t> salias_u8(const std::shared_ptr<std::uint8_t> &p);
void hold_u8(const std::shared_ptr<std::uint8_t> &p);
std::shared_ptr<std::uint8_t> held_u8();
std::weak_ptr<std::uint8_t> wmake_u8(std::shared_ptr<std::uint8_t> p);
std::weak_ptr<std::uint8_t> wecho_u8(std::weak_ptr<std::uint8_t> p);
Look wlook_u8(const std::weak_ptr<std::uint8_t> &p);
std::shared_ptr<std::uint16_t> smake_u16(std::int32_t k);
std::int32_t stake_u16(std::shared_ptr<std::uint16_t> p);
std::shared_ptr<std::uint16_t> secho_u16(std::shared_ptr<std::uint16_t> p);
void sreset_u16(std::shared_ptr<std::uint16_t> &p, std::int32_t k);
Look slook_u16(const std::shared_ptr<std::uint16_t> &p);
std::int64_t suse_u16(const std::shared_ptr<std::uint16_t> &p);
std::shared_ptr<std::uint16_t> salias_u16(const std::shared_ptr<std::uint16_t> &p);
void hold_u16(const std::shared_ptr<std::uint16_t> &p);
std::shared_ptr<std::uint16_t> held_u16();
std::weak_ptr<std::uint16_t> wmake_u16(std::shared_ptr<std::uint16_t> p);
std::weak_ptr<std::uint16_t> wecho_u16(std::weak_ptr<std::uint16_t> p);
Look wlook_u16(const std::weak_ptr<std::uint16_t> &p);
std::shared_ptr<std::uint32_t> smake_u32(std::int32_t k);
std::int32_t stake_u32(std::shared_ptr<std::uint32_t> p);
std::shared_ptr<std::uint32_t> secho_u32(std::shared_ptr<std::uint32_t> p);
void sreset_u32(std::shared_ptr<std::uint32_t> &p, std::int32_t k);
Look slook_u32(const std::shared_ptr<std::uint32_t> &p);
std::int64_t suse_u32(const std::shared_ptr<std::uint32_t> &p);
std::shared_ptr<std::uint32_t> salias_u32(const std::shared_ptr<std::uint32_t> &p);
void hold_u32(const std::shared_ptr<std::uint32_t> &p);
std::shared_ptr<std::uint32_t> held_u32();
std::weak_ptr<std::uint32_t> wmake_u32(std::shared_ptr<std::uint32_t> p);
std::weak_ptr<std::uint32_t> wecho_u32(std::weak_ptr<std::uint32_t> p);
Look wlook_u32(const std::weak_ptr<std::uint32_t> &p);
std::shared_ptr<std::uint64_t> smake_u64(std::int32_t k);
std::int32_t stake_u64(std::shared_ptr<std::uint64_t> p);
std::shared_ptr<std::uint64_t> secho_u64(std::shared_ptr<std::uint64_t> p);
void sreset_u64(std::shared_ptr<std::uint64_t> &p, std::int32_t k);
Look slook_u64(const std::shared_ptr<std::uint64_t> &p);
std::int64_t suse_u64(const std::shared_ptr<std::uint64_t> &p);
std::shared_ptr<std::uint64_t> salias_u64(const std::shared_ptr<std::uint64_t> &p);
void hold_u64(const std::shared_ptr<std::uint64_t> &p);
std::shared_ptr<std::uint64_t> held_u64();
std::weak_ptr<std::uint64_t> wmake_u64(std::shared_ptr<std::uint64_t> p);
std::weak_ptr<std::uint64_t> wecho_u64(std::weak_ptr<std::uint64_t> p);
Look wlook_u64(const std::weak_ptr<std::uint64_t> &p);
std::shared_ptr<std::size_t> smake_usize(std::int32_t k);
std::int32_t stake_usize(std::shared_ptr<std::size_t> p);
std::shared_ptr<std::size_t> secho_usize(std::shared_ptr<std::size_t> p);
void sreset_usize(std::shared_ptr<std::size_t> &p, std::int32_t k);
Look slook_usize(const std::shared_ptr<std::size_t> &p);
std::int64_t suse_usize(const std::shared_ptr<std::size_t> &p);
std::shared_ptr<std::size_t> salias_usize(const std::shared_ptr<std::size_t> &p);
void hold_usize(const std::shared_ptr<std::size_t> &p);
std::shared_ptr<std::size_t> held_usize();
std::weak_ptr<std::size_t> wmake_usize(std::shared_ptr<std::size_t> p);
std::weak_ptr<std::size_t> wecho_usize(std::weak_ptr<std::size_t> p);
Look wlook_usize(const std::weak_ptr<std::size_t> &p);
std::shared_ptr<std::int8_t> smake_i8(std::int32_t k);
std::int32_t stake_i8(std::shared_ptr<std::int8_t> p);
std::shared_ptr<std::int8_t> secho_i8(std::shared_ptr<std::int8_t> p);
void sreset_i8(std::shared_ptr<std::int8_t> &p, std::int32_t k);
Look slook_i8(const std::shared_ptr<std::int8_t> &p);
std::int64_t suse_i8(const std::shared_ptr<std::int8_t> &p);
std::shared_ptr<std::int8_t> salias_i8(const std::shared_ptr<std::int8_t> &p);
void hold_i8(const std::shared_ptr<std::int8_t> &p);
std::shared_ptr<std::int8_t> held_i8();
std::weak_ptr<std::int8_t> wmake_i8(std::shared_ptr<std::int8_t> p);
std::weak_ptr<std::int8_t> wecho_i8(std::weak_ptr<std::int8_t> p);
Look wlook_i8(const std::weak_ptr<std::int8_t> &p);
std::shared_ptr<std::int16_t> smake_i16(std::int32_t k);
std::int32_t stake_i16(std::shared_ptr<std::int16_t> p);
std::shared_ptr<std::int16_t> secho_i16(std::shared_ptr<std::int16_t> p);
void sreset_i16(std::shared_ptr<std::int16_t> &p, std::int32_t k);
Look slook_i16(const std::shared_ptr<std::int16_t> &p);
std::int64_t suse_i16(const std::shared_ptr<std::int16_t> &p);
std::shared_ptr<std::int16_t> salias_i16(const std::shared_ptr<std::int16_t> &p);
void hold_i16(const std::shared_ptr<std::int16_t> &p);
std::shared_ptr<std::int16_t> held_i16();
std::weak_ptr<std::int16_t> wmake_i16(std::shared_ptr<std::int16_t> p);
std::weak_ptr<std::int16_t> wecho_i16(std::weak_ptr<std::int16_t> p);
Look wlook_i16(const std::weak_ptr<std::int16_t> &p);
std::shared_ptr<std::int32_t> smake_i32(std::int32_t k);
std::int32_t stake_i32(std::shared_ptr<std::int32_t> p);
std::shared_ptr<std::int32_t> secho_i32(std::shared_ptr<std::int32_t> p);
void sreset_i32(std::shared_ptr<std::int32_t> &p, std::int32_t k);
Look slook_i32(const std::shared_ptr<std::int32_t> &p);
std::int64_t suse_i32(const std::shared_ptr<std::int32_t> &p);
std::shared_ptr<std::int32_t> salias_i32(const std::shared_ptr<std::int32_t> &p);
void hold_i32(const std::shared_ptr<std::int32_t> &p);
std::shared_ptr<std::int32_t> held_i32();
std::weak_ptr<std::int32_t> wmake_i32(std::shared_ptr<std::int32_t> p);
std::weak_ptr<std::int32_t> wecho_i32(std::weak_ptr<std::int32_t> p);
Look wlook_i32(const std::weak_ptr<std::int32_t> &p);
std::shared_ptr<std::int64_t> smake_i64(std::int32_t k);
std::int32_t stake_i64(std::shared_ptr<std::int64_t> p);
std::shared_ptr<std::int64_t> secho_i64(std::shared_ptr<std::int64_t> p);
void sreset_i64(std::shared_ptr<std::int64_t> &p, std::int32_t k);
Look slook_i64(const std::shared_ptr<std::int64_t> &p);
std::int64_t suse_i64(const std::shared_ptr<std::int64_t> &p);
std::shared_ptr<std::int64_t> salias_i64(const std::shared_ptr<std::int64_t> &p);
void hold_i64(const std::shared_ptr<std::int64_t> &p);
std::shared_ptr<std::int64_t> held_i64();
std::weak_ptr<std::int64_t> wmake_i64(std::shared_ptr<std::int64_t> p);
std::weak_ptr<std::int64_t> wecho_i64(std::weak_ptr<std::int64_t> p);
Look wlook_i64(const std::weak_ptr<std::int64_t> &p);
std::shared_ptr<rust::isize> smake_isize(std::int32_t k);
std::int32_t stake_isize(std::shared_ptr<rust::isize> p);
std::shared_ptr<rust::isize> secho_isize(std::shared_ptr<rust::isize> p);
void sreset_isize(std::shared_ptr<rust::isize> &p, std::int32_t k);
Look slook_isize(const std::shared_ptr<rust::isize> &p);
std::int64_t suse_isize(const std::shared_ptr<rust::isize> &p);
std::shared_ptr<rust::isize> salias_isize(const std::shared_ptr<rust::isize> &p);
void hold_isize(const std::shared_ptr<rust::isize> &p);
std::shared_ptr<rust::isize> held_isize();
std::weak_ptr<rust::isize> wmake_isize(std::shared_ptr<rust::isize> p);
std::weak_ptr<rust::isize> wecho_isize(std::weak_ptr<rust::isize> p);
Look wlook_isize(const std::weak_ptr<rust::isize> &p);
std::shared_ptr<float> smake_f32(std::int32_t k);
std::int32_t stake_f32(std::shared_ptr<float> p);
std::shared_ptr<float> secho_f32(std::shared_ptr<float> p);
void sreset_f32(std::shared_ptr<float> &p, std::int32_t k);
Look slook_f32(const std::shared_ptr<float> &p);
std::int64_t suse_f32(const std::shared_ptr<float> &p);
std::shared_ptr<float> salias_f32(const std::shared_ptr<float> &p);
void hold_f32(const std::shared_ptr<float> &p);
std::shared_ptr<float> held_f32();
std::weak_ptr<float> wmake_f32(std::shared_ptr<float> p);
std::weak_ptr<float> wecho_f32(std::weak_ptr<float> p);
Look wlook_f32(const std::weak_ptr<float> &p);
std::shared_ptr<double> smake_f64(std::int32_t k);
std::int32_t stake_f64(std::shared_ptr<double> p);
std::shared_ptr<double> secho_f64(std::shared_ptr<double> p);
void sreset_f64(std::shared_ptr<double> &p, std::int32_t k);
Look slook_f64(const std::shared_ptr<double> &p);
std::int64_t suse_f64(const std::shared_ptr<double> &p);
std::shared_ptr<double> salias_f64(const std::shared_ptr<double> &p);
void hold_f64(const std::shared_ptr<double> &p);
std::shared_ptr<double> held_f64();
std::weak_ptr<double> wmake_f64(std::shared_ptr<double> p);
std::weak_ptr<double> wecho_f64(std::weak_ptr<double> p);
Look wlook_f64(const std::weak_ptr<double> &p);
} // namespace c08
