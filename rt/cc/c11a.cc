// Generated by gen_c11.py.
#include "rt/src/c11a.rs.h"
#include <exception>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>
namespace c11a {
static const std::uint16_t three[3] = {1, 2, 3};
std::unique_ptr<CObj> mkcobj(std::int32_t k) { return std::make_unique<CObj>(k); }
std::shared_ptr<CObj> mkshared(std::int32_t k) { return std::make_shared<CObj>(k); }
std::unique_ptr<std::string> mkstr() { return std::make_unique<std::string>("cxx"); }
CObj *static_cobj() { static CObj o(78); return &o; }
struct Custom : std::exception { std::string m; Custom(std::string m) : m(std::move(m)) {} const char *what() const noexcept override { return m.c_str(); } };
struct Derived : std::runtime_error { std::string m; Derived(std::string m) : std::runtime_error("hidden"), m(m + "!") {} const char *what() const noexcept override { return m.c_str(); } };
struct Mixin { virtual ~Mixin() {} int pad = 3; };
struct Second : Mixin, std::logic_error { Second(const std::string &m) : std::logic_error(m) {} };
[[noreturn]] static void raise(std::int32_t kind, const std::string &m) {
  switch (kind) {
  case 1: throw std::runtime_error(m);
  case 2: throw Custom(m);
  case 3: throw Second(m);
  case 4: throw std::bad_alloc();
  case 5: throw std::exception();
  case 6: { std::vector<int> v; v.at(3); std::terminate(); }
  case 7: try { throw std::runtime_error(m); } catch (...) { throw; }
  case 8: throw Derived(m);
  case 9: try { rfail(1, S(reinterpret_cast<const std::uint8_t *>(m.data()), m.size())); std::terminate(); } catch (const rust::Error &e) { throw rust::Error(e); }
  case 10: { std::exception_ptr p; try { throw std::logic_error(m); } catch (...) { p = std::current_exception(); } std::rethrow_exception(p); }
  case 11: try { throw std::logic_error("inner"); } catch (...) { std::throw_with_nested(Custom(m)); }
  }
  std::terminate();
}
static std::string text(S m) { return std::string(reinterpret_cast<const char *>(m.data()), m.size()); }
void cthrow(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); }
// The text C++ should see: Rust decodes lossily, what() ends at a NUL.
static std::string expected(S msg) { return std::string(std::string(rust::String::lossy(text(msg))).c_str()); }
static std::int32_t look(const rust::Error &e, const std::string &w) {
  if (e.what() == nullptr) return 2;
  if (w != e.what()) return 3;
  rust::Error c(e), d(std::move(c));
  if (w != d.what()) return 4;
  c = e;
  if (w != c.what() || w != e.what()) return 5;
  try { throw d; } catch (const std::exception &f) { if (w != f.what() || typeid(f) != typeid(rust::Error)) return 6; }
  return 0;
}
template <class F> static std::int32_t sees(const std::string &w, F f) {
  try { f(); return 1; } catch (const rust::Error &e) { if (auto r = look(e, w)) return r; }
  try { f(); return 1; } catch (const std::exception &e) { if (w != e.what() || typeid(e) != typeid(rust::Error)) return 7; }
  try { f(); return 1; } catch (rust::Error e) { if (auto r = look(e, w)) return r + 10; }
  std::exception_ptr p;
  try { f(); return 1; } catch (...) { p = std::current_exception(); }
  try { std::rethrow_exception(p); } catch (const rust::Error &e) { if (auto r = look(e, w)) return r + 20; }
  return 0;
}
std::int32_t csees(std::int32_t kind, S msg) { return sees(expected(msg), [&] { rfail(kind, msg); }); }
std::int32_t csees_other(std::int32_t kind, rust::Str msg) {
  std::string w = std::string(msg).c_str();
  switch (kind) {
  case 0: return sees(w, [&] { rfail_io(msg); });
  case 1: return sees(w, [&] { rfail_dyn(msg); });
  case 2: return sees(w, [&] { rfail_str(msg); });
  case 3: { // {:>6}|1 pads to six characters
    std::string s(msg); int n = 0; for (char c : s) n += (c & 0xc0) != 0x80;
    std::string f = std::string(n < 6 ? 6 - n : 0, ' ') + s + "|1";
    return sees(f.c_str(), [&] { rfail_fmt(msg); }); }
  case 4: return sees(w, [&] { rfail_exc(msg); });
  }
  return 99;
}
static std::int32_t nguards;
std::int32_t guards() { return nguards; }
struct Guard { std::string s = "a guard that owns some memory"; Guard() { ++nguards; } ~Guard() { --nguards; } };
std::int32_t clevel(std::size_t n) {
  Guard g;
  rlog(n);
  auto next = [&] { Guard h; return rlevel(n + 1); };
  std::string me = "c" + std::to_string(n);
  switch (action(n)) {
  case 0: return next() + 1;
  case 1: try { return next() + 1; } catch (const rust::Error &e) { throw std::runtime_error(me + ":" + e.what()); }
  case 2: try { return next(); } catch (const std::exception &) { return -(std::int32_t)n; }
  case 3: throw Custom(me);
  case 4: next(); throw std::logic_error(me);
  case 5: try { return next(); } catch (...) { throw; }
  case 6: { std::exception_ptr p; std::int32_t r = 0; try { r = next(); } catch (...) { p = std::current_exception(); } if (p) std::rethrow_exception(p); return r; }
  case 7: try { next(); return 5; } catch (rust::Error e) { throw e; }
  case 8: try { next(); } catch (const rust::Error &) {} return next();
  case 9: return 100 + n;
  case 10: { std::exception_ptr p, q; std::int32_t a = 0, b = 0; try { a = next(); } catch (...) { p = std::current_exception(); } try { b = next(); } catch (...) { q = std::current_exception(); } if (p) std::rethrow_exception(p); if (q) std::rethrow_exception(q); return a + b; }
  case 11: { struct D { decltype(next) &f; ~D() { try { f(); } catch (const rust::Error &) {} } }; try { D d{next}; throw 3; } catch (int) {} return 7; }
  default: { std::exception_ptr p; std::int32_t r = 0; std::thread t([&] { try { r = next(); } catch (...) { p = std::current_exception(); } }); t.join(); if (p) std::rethrow_exception(p); return r; }
  }
}
std::int32_t croot(rust::String &out) { try { Guard g; return rlevel(0); } catch (const rust::Error &e) { out = rust::String(e.what()); return INT32_MIN; } }
std::int32_t clog() { return 0; }
static void throw_any(std::int32_t k) {
  switch (k) {
  case 0: throw 1;
  case 1: throw "text";
  case 2: throw std::string("text");
  case 3: { struct X {}; throw X(); }
  case 4: throw std::runtime_error("x");
  }
}
void wild(std::int32_t k) { std::set_terminate([] { _exit(45); }); throw_any(k); }
rust::String wild_result(std::int32_t k) { std::set_terminate([] { _exit(45); }); throw_any(k); return {}; }
void cret_unit(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return; }
std::int32_t cdrive_unit(std::int32_t kind, S msg) { try { rret_unit(kind, msg); return kind ? 1 : 0; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::uint8_t cret_u8(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return 200; }
std::int32_t cdrive_u8(std::int32_t kind, S msg) { try { std::uint8_t x = rret_u8(kind, msg); return kind ? 1 : x == 200 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::int64_t cret_i128less(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return INT64_MIN; }
std::int32_t cdrive_i128less(std::int32_t kind, S msg) { try { std::int64_t x = rret_i128less(kind, msg); return kind ? 1 : x == INT64_MIN ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
double cret_f64(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return -0.5; }
std::int32_t cdrive_f64(std::int32_t kind, S msg) { try { double x = rret_f64(kind, msg); return kind ? 1 : x == -0.5 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
bool cret_boolean(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return true; }
std::int32_t cdrive_boolean(std::int32_t kind, S msg) { try { bool x = rret_boolean(kind, msg); return kind ? 1 : x ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
rust::String cret_string(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return rust::String("a string"); }
std::int32_t cdrive_string(std::int32_t kind, S msg) { try { rust::String x = rret_string(kind, msg); return kind ? 1 : x == "a string" ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
rust::Str cret_str(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return rust::Str("a str"); }
std::int32_t cdrive_str(std::int32_t kind, S msg) { try { rust::Str x = rret_str(kind, msg); return kind ? 1 : x == "a str" ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
rust::Slice<const std::uint16_t> cret_slice(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return rust::Slice<const std::uint16_t>(three, 3); }
std::int32_t cdrive_slice(std::int32_t kind, S msg) { try { rust::Slice<const std::uint16_t> x = rret_slice(kind, msg); return kind ? 1 : x.size() == 3 && x[2] == 3 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
rust::Box<RObj> cret_boxed(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return mkrobj(5); }
std::int32_t cdrive_boxed(std::int32_t kind, S msg) { try { rust::Box<RObj> x = rret_boxed(kind, msg); return kind ? 1 : rval(*x) == 5 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
rust::Vec<std::uint32_t> cret_vecn(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return rust::Vec<std::uint32_t>{1, 2}; }
std::int32_t cdrive_vecn(std::int32_t kind, S msg) { try { rust::Vec<std::uint32_t> x = rret_vecn(kind, msg); return kind ? 1 : x.size() == 2 && x[1] == 2 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
rust::Vec<rust::String> cret_vecs(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return rust::Vec<rust::String>{rust::String("q")}; }
std::int32_t cdrive_vecs(std::int32_t kind, S msg) { try { rust::Vec<rust::String> x = rret_vecs(kind, msg); return kind ? 1 : x.size() == 1 && x[0] == "q" ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
Sh cret_sh(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return Sh{rust::String("f"), mkrobj(6), 9}; }
std::int32_t cdrive_sh(std::int32_t kind, S msg) { try { Sh x = rret_sh(kind, msg); return kind ? 1 : x.s == "f" && rval(*x.b) == 6 && x.n == 9 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
Small cret_small(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return Small{1, 2}; }
std::int32_t cdrive_small(std::int32_t kind, S msg) { try { Small x = rret_small(kind, msg); return kind ? 1 : x.a == 1 && x.b == 2 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
En cret_en(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return En::B; }
std::int32_t cdrive_en(std::int32_t kind, S msg) { try { En x = rret_en(kind, msg); return kind ? 1 : x == En::B ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::unique_ptr<CObj> cret_up(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return std::make_unique<CObj>(7); }
std::int32_t cdrive_up(std::int32_t kind, S msg) { try { std::unique_ptr<CObj> x = rret_up(kind, msg); return kind ? 1 : x->cval() == 7 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::unique_ptr<CObj> cret_upn(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return nullptr; }
std::int32_t cdrive_upn(std::int32_t kind, S msg) { try { std::unique_ptr<CObj> x = rret_upn(kind, msg); return kind ? 1 : !x ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::unique_ptr<std::string> cret_ups(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return mkstr(); }
std::int32_t cdrive_ups(std::int32_t kind, S msg) { try { std::unique_ptr<std::string> x = rret_ups(kind, msg); return kind ? 1 : *x == "cxx" ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::shared_ptr<CObj> cret_sp(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return std::make_shared<CObj>(8); }
std::int32_t cdrive_sp(std::int32_t kind, S msg) { try { std::shared_ptr<CObj> x = rret_sp(kind, msg); return kind ? 1 : x->cval() == 8 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::array<std::uint16_t, 3> cret_arr(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return {{1, 2, 3}}; }
std::int32_t cdrive_arr(std::int32_t kind, S msg) { try { std::array<std::uint16_t, 3> x = rret_arr(kind, msg); return kind ? 1 : x[2] == 3 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
std::array<rust::String, 2> cret_arrs(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return {{rust::String("a"), rust::String("b")}}; }
std::int32_t cdrive_arrs(std::int32_t kind, S msg) { try { std::array<rust::String, 2> x = rret_arrs(kind, msg); return kind ? 1 : x[1] == "b" ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
const RObj & cret_refr(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return static_robj(); }
std::int32_t cdrive_refr(std::int32_t kind, S msg) { try { const RObj & x = rret_refr(kind, msg); return kind ? 1 : rval(x) == 77 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
const CObj & cret_refc(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return *static_cobj(); }
std::int32_t cdrive_refc(std::int32_t kind, S msg) { try { const CObj & x = rret_refc(kind, msg); return kind ? 1 : x.cval() == 78 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
CObj * cret_ptr(std::int32_t kind, S msg) { if (kind) raise(kind, text(msg)); return static_cobj(); }
std::int32_t cdrive_ptr(std::int32_t kind, S msg) { try { CObj * x = rret_ptr(kind, msg); return kind ? 1 : x->cval() == 78 ? 0 : 8; } catch (const rust::Error &e) { return kind ? look(e, expected(msg)) : 9; } }
} // namespace c11a
