// Generated by gen_c12.py.
#include "rt/src/c12.rs.h"
#include <cstdlib>
#include <exception>
#include <stdexcept>
#include <thread>
#include <unistd.h>
namespace c12 {
// A C++ frame that notices being unwound.
struct Frame { bool armed = true; ~Frame() { if (armed) _exit(44); } };
template <class F> static auto framed(F f) { Frame fr; try { if constexpr (std::is_void_v<decltype(f())>) { f(); fr.armed = false; } else { auto x = f(); fr.armed = false; return x; } } catch (const rust::Error &) { fr.armed = false; throw; } catch (...) { _exit(42); } }
void c_call_fn(rust::Fn<std::int32_t(std::int32_t)> f) { framed([&] { f(1); }); }
void c_call_fn2(rust::Fn<rust::String(rust::Box<P>, rust::Vec<std::uint8_t>)> f) { framed([&] { f(mkp(0), rust::Vec<std::uint8_t>{1}); }); }
void c_call_fn3(rust::Fn<bool(rust::Str)> f) { framed([&] { f("x"); }); }
void c_call_fn4(rust::Fn<Sh(Small, std::array<std::uint8_t, 3>)> f) { framed([&] { f(Small{1, 2}, {{1, 2, 3}}); }); }
void c_call_fn5(rust::Fn<void()> f) { framed([&] { f(); }); }
void c_deep(std::int32_t n) { framed([&] { deep(n); }); }
void c_deep_try(std::int32_t n) { framed([&] { deep_try(n); }); }
static void entry(std::size_t e) {
  std::uint8_t z_ = 0; (void)z_;
  auto keep = mkp(0);
  Sh sh{mkp(0), 1}, sh2{mkp(0), 1};
  So so{1, mkp(0)}, so2{1, mkp(0)};
  std::string str_ = "x";
  framed([&] {
    switch (e) {
    case 0: { (void)ret_unit(); break; }
    case 1: { (void)try_unit(); break; }
    case 2: { try { (void)err_unit(); } catch (const rust::Error &) {} break; }
    case 3: { (void)ret_u8(); break; }
    case 4: { (void)try_u8(); break; }
    case 5: { try { (void)err_u8(); } catch (const rust::Error &) {} break; }
    case 6: { (void)ret_f64(); break; }
    case 7: { (void)try_f64(); break; }
    case 8: { try { (void)err_f64(); } catch (const rust::Error &) {} break; }
    case 9: { (void)ret_bool(); break; }
    case 10: { (void)try_bool(); break; }
    case 11: { try { (void)err_bool(); } catch (const rust::Error &) {} break; }
    case 12: { (void)ret_string(); break; }
    case 13: { (void)try_string(); break; }
    case 14: { try { (void)err_string(); } catch (const rust::Error &) {} break; }
    case 15: { (void)ret_str(z_); break; }
    case 16: { (void)try_str(z_); break; }
    case 17: { try { (void)err_str(z_); } catch (const rust::Error &) {} break; }
    case 18: { (void)ret_slice(z_); break; }
    case 19: { (void)try_slice(z_); break; }
    case 20: { try { (void)err_slice(z_); } catch (const rust::Error &) {} break; }
    case 21: { (void)ret_box(); break; }
    case 22: { (void)try_box(); break; }
    case 23: { try { (void)err_box(); } catch (const rust::Error &) {} break; }
    case 24: { (void)ret_vec(); break; }
    case 25: { (void)try_vec(); break; }
    case 26: { try { (void)err_vec(); } catch (const rust::Error &) {} break; }
    case 27: { (void)ret_vecs(); break; }
    case 28: { (void)try_vecs(); break; }
    case 29: { try { (void)err_vecs(); } catch (const rust::Error &) {} break; }
    case 30: { (void)ret_sh(); break; }
    case 31: { (void)try_sh(); break; }
    case 32: { try { (void)err_sh(); } catch (const rust::Error &) {} break; }
    case 33: { (void)ret_small(); break; }
    case 34: { (void)try_small(); break; }
    case 35: { try { (void)err_small(); } catch (const rust::Error &) {} break; }
    case 36: { (void)ret_en(); break; }
    case 37: { (void)try_en(); break; }
    case 38: { try { (void)err_en(); } catch (const rust::Error &) {} break; }
    case 39: { (void)ret_up(); break; }
    case 40: { (void)try_up(); break; }
    case 41: { try { (void)err_up(); } catch (const rust::Error &) {} break; }
    case 42: { (void)ret_sp(); break; }
    case 43: { (void)try_sp(); break; }
    case 44: { try { (void)err_sp(); } catch (const rust::Error &) {} break; }
    case 45: { (void)ret_refp(z_); break; }
    case 46: { (void)try_refp(z_); break; }
    case 47: { try { (void)err_refp(z_); } catch (const rust::Error &) {} break; }
    case 48: { (void)ret_mutp(z_); break; }
    case 49: { (void)try_mutp(z_); break; }
    case 50: { try { (void)err_mutp(z_); } catch (const rust::Error &) {} break; }
    case 51: { (void)ret_arr(); break; }
    case 52: { (void)try_arr(); break; }
    case 53: { try { (void)err_arr(); } catch (const rust::Error &) {} break; }
    case 54: { (void)ret_cs(); break; }
    case 55: { (void)try_cs(); break; }
    case 56: { try { (void)err_cs(); } catch (const rust::Error &) {} break; }
    case 57: { a_u8(1); break; }
    case 58: { ta_u8(1); break; }
    case 59: { a_string(rust::String("x")); break; }
    case 60: { ta_string(rust::String("x")); break; }
    case 61: { a_str(rust::Str("x")); break; }
    case 62: { ta_str(rust::Str("x")); break; }
    case 63: { a_box(mkp(0)); break; }
    case 64: { ta_box(mkp(0)); break; }
    case 65: { a_vec(rust::Vec<std::uint8_t>{1, 2}); break; }
    case 66: { ta_vec(rust::Vec<std::uint8_t>{1, 2}); break; }
    case 67: { a_sh(Sh{mkp(0), 1}); break; }
    case 68: { ta_sh(Sh{mkp(0), 1}); break; }
    case 69: { a_up(std::make_unique<CObj>()); break; }
    case 70: { ta_up(std::make_unique<CObj>()); break; }
    case 71: { a_ref(*keep); break; }
    case 72: { ta_ref(*keep); break; }
    case 73: { a_mut(*keep); break; }
    case 74: { ta_mut(*keep); break; }
    case 75: { a_sl(rust::Slice<const std::uint8_t>()); break; }
    case 76: { ta_sl(rust::Slice<const std::uint8_t>()); break; }
    case 77: { a_arr(std::array<std::uint8_t, 3>{{1, 2, 3}}); break; }
    case 78: { ta_arr(std::array<std::uint8_t, 3>{{1, 2, 3}}); break; }
    case 79: { a_cs(str_); break; }
    case 80: { ta_cs(str_); break; }
    case 81: { a_vp(mkv()); break; }
    case 82: { ta_vp(mkv()); break; }
    case 83: { keep->m_cref(); break; }
    case 84: { (void)keep->tm_cref(rust::String("q")); break; }
    case 85: { keep->m_cmut(); break; }
    case 86: { (void)keep->tm_cmut(rust::String("q")); break; }
    case 87: { keep->m_pin(); break; }
    case 88: { (void)keep->tm_pin(rust::String("q")); break; }
    case 89: { sh.m_sref(); break; }
    case 90: { (void)sh.tm_sref(rust::String("q")); break; }
    case 91: { sh.m_smut(); break; }
    case 92: { (void)sh.tm_smut(rust::String("q")); break; }
    case 93: { (void)(sh == sh2); break; }
    case 94: { (void)(so == so2); break; }
    case 95: { (void)(sh != sh2); break; }
    case 96: { (void)(so != so2); break; }
    case 97: { (void)(sh < sh2); break; }
    case 98: { (void)(so < so2); break; }
    case 99: { (void)(sh <= sh2); break; }
    case 100: { (void)(so <= so2); break; }
    case 101: { (void)(sh > sh2); break; }
    case 102: { (void)(so > so2); break; }
    case 103: { (void)(sh >= sh2); break; }
    case 104: { (void)(so >= so2); break; }
    case 105: { (void)std::hash<Sh>()(sh); break; }
    case 106: { { auto b = mkp(1); } break; }
    case 107: { { auto b = mkp(1); b = mkp(0); } break; }
    case 108: { { rust::Box<Sh> b(Sh{mkp(1), 1}); } break; }
    case 109: { { Sh s{mkp(1), 1}; } break; }
    case 110: { { auto v = mkv1(); } break; }
    case 111: { { auto v = mkv1(); v.clear(); std::_Exit(v.size() ? 46 : 47); } break; }
    case 112: { { auto v = mkv1(); v.truncate(1); std::_Exit(47); } break; }
    case 113: { { auto v = mkv1(); v = rust::Vec<P>(); } break; }
    case 114: { { rust::Vec<Sh> v; v.push_back(Sh{mkp(1), 1}); } break; }
    case 115: { drop_box(mkp(1)); break; }
    case 116: { drop_sh(Sh{mkp(1), 1}); break; }
    case 117: { drop_vec(mkv1()); break; }
    case 118: { try { err_drop(); } catch (const rust::Error &) {} break; }
    case 119: { with_fn(1); break; }
    case 120: { with_fn(2); break; }
    case 121: { with_fn(3); break; }
    case 122: { with_fn(4); break; }
    case 123: { with_fn(5); break; }
    case 124: { deep(3); break; }
    case 125: { deep_try(3); break; }
    case 126: { rust::String s("abc"); s.reserve(SIZE_MAX / 2 + 5); break; }
    case 127: { rust::Vec<std::uint8_t> v; v.push_back(1); v.reserve(SIZE_MAX); break; }
    case 128: { rust::Vec<rust::String> v; v.reserve(SIZE_MAX / 3); break; }
    case 129: { auto v = mkv(); v.reserve(SIZE_MAX / 2); break; }
    case 130: { rust::Vec<Sh> v; v.reserve(SIZE_MAX / 2); break; }
    case 131: { rust::Vec<double> v; v.reserve(SIZE_MAX / 4); break; }
    default: _exit(49);
    }
  });
}
struct InDtor { std::size_t e; ~InDtor() { entry(e); } };
std::int32_t c_entry(std::size_t e, std::int32_t context) {
  std::set_terminate([] { _exit(45); });
  switch (context) {
  case 0: entry(e); break;
  case 1: { InDtor d{e}; break; }
  case 2: try { throw 1; } catch (int) { entry(e); } break;
  case 3: try { InDtor d{e}; throw std::runtime_error("x"); } catch (const std::exception &) {} break;
  case 4: { std::thread t([&] { entry(e); }); t.join(); break; }
  case 5: [&]() noexcept { entry(e); }(); break;
  case 6: entry(e); entry(e); break;
  case 7: try { try { entry(e); } catch (...) { throw; } } catch (...) { _exit(42); } break;
  }
  return 43;
}
} // namespace c12
