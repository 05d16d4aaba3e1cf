// Generated by gen_c10.py.
#include "rt/src/c10.rs.h"
#include <optional>
#include <stdexcept>
#include <unordered_set>
static std::vector<bool> alive; // by id
static std::int64_t nlive;
static bool isbad;
extern "C" std::uint64_t vk10_new() { if (nlive == 0) alive.clear(); ++nlive; alive.push_back(true); return alive.size() * 2654435761u; }
static std::uint64_t idx(std::uint64_t id) { std::uint64_t n = id / 2654435761u; return id % 2654435761u == 0 && n >= 1 && n <= alive.size() ? n - 1 : ~0ull; }
extern "C" bool vk10_alive(std::uint64_t id) { auto n = idx(id); if (n == ~0ull || !alive[n]) { isbad = true; return false; } return true; }
extern "C" void vk10_drop(std::uint64_t id) { if (vk10_alive(id)) { alive[idx(id)] = false; --nlive; } }
namespace c10 {
// The exception owns an object too.
struct Ex : std::exception { CObj o{7}; std::string m; explicit Ex(std::int32_t mode) : m(mode == 2 ? "a message that is not \xff UTF-8" : "a message that is longer than a small string") {} const char *what() const noexcept override { return m.c_str(); } };
std::int64_t live() { return nlive; }
bool bad() { bool b = isbad; isbad = false; return b; }
static Holder the_holder;
Holder *holder() { return &the_holder; }
std::unique_ptr<CObj> mkcobj(std::int32_t k) { return std::make_unique<CObj>(k); }
std::unique_ptr<Base> mkbase(std::int32_t k) { return std::make_unique<Derived>(k); }
std::shared_ptr<CObj> mkshared(std::int32_t k) { return std::make_shared<CObj>(k); }
std::unique_ptr<std::string> mkustring(const std::string &s) { return std::make_unique<std::string>(s); }
std::unique_ptr<std::vector<CObj>> mkuvec(std::int32_t k) { auto v = std::make_unique<std::vector<CObj>>(); v->reserve(2); v->emplace_back(k); v->emplace_back(k); return v; }
rust::Box<RObj> unpack(Sh x) { return std::move(x.b); }
static const char *const texts[] = {"", "one", "a text longer than any small string buffer", "\xf0\x9f\xa6\x80"};
static std::string ctext(std::int32_t k) { return texts[k]; }
static std::int32_t cpos(const std::string &s) { for (int i = 0; i < 4; ++i) if (s == texts[i]) return i; return -2; }
static Sh mksh(std::int32_t k) { rust::Vec<std::uint8_t> v; for (int i = 0; i < 3; ++i) v.push_back(k); return Sh{mkrobj(k), mkcobj(k), rust::String(ctext(k)), std::move(v), mkshared(k)}; }
static std::int32_t shval(const Sh &x) { std::int32_t k = rval(*x.b); return x.u->val() == k && x.p->val() == k && std::string(x.s) == ctext(k) && x.v.size() == 3 && x.v[2] == k ? k : -2; }
static rust::Vec<Sh> mkvecsh(std::int32_t k) { rust::Vec<Sh> v; v.push_back(mksh(k)); v.push_back(mksh(k)); return v; }
static rust::Vec<Tracked> mkvectr(std::int32_t k) { rust::Vec<Tracked> v; v.push_back(Tracked(k)); return v; }
static Nest mknest(std::int32_t k) { return Nest{Tracked(k), std::uint8_t(k), mksh(k), {{rust::String(ctext(k)), rust::String(ctext(k))}}, One{mkrobj(k)}}; }
static std::optional<rust::Box<RObj>> s_box[2];
static rust::Box<RObj> pop_box(std::size_t i) { rust::Box<RObj> x = std::move(*s_box[i]); s_box[i].reset(); return x; }
void put_box(std::size_t i, rust::Box<RObj> x) { s_box[i].reset(); s_box[i].emplace(std::move(x)); }
rust::Box<RObj> take_box(std::size_t i) { return pop_box(i); }
void try_put_box(std::size_t i, rust::Box<RObj> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_box(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Box<RObj> try_take_box(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Box<RObj> x = pop_box(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_box(std::size_t i, rust::Box<RObj> x, std::int32_t mode) const { try_put_box(i, std::move(x), mode); }
rust::Box<RObj> Holder::htake_box(std::size_t i, std::int32_t mode) { return try_take_box(i, mode); }
rust::Box<RObj> two_box(rust::Box<RObj> x, rust::Box<RObj> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Box<RObj> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Box<RObj> three_box(std::uint8_t a, rust::Box<RObj> x, rust::String b, rust::Box<RObj> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Box<RObj> z = std::move(x); (void)z; return y; }
rust::Box<RObj> cb_box(rust::Fn<rust::Box<RObj>(rust::Box<RObj>)> f, rust::Box<RObj> x) { return f(f(std::move(x))); }
rust::Box<RObj> cb2_box(rust::Fn<rust::Box<RObj>(rust::Box<RObj>, rust::Box<RObj>)> f, rust::Box<RObj> x, rust::Box<RObj> y) { return f(std::move(x), std::move(y)); }
void repl_box(std::size_t i, rust::Box<RObj> &x) { rust::Box<RObj> t = std::move(x); x = pop_box(i); s_box[i].emplace(std::move(t)); }
rust::Box<RObj> deep_box(rust::Box<RObj> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_box(std::move(x), d - 1, mode); }
void cnew_box(std::size_t i, std::int32_t k) { s_box[i].reset(); rust::Box<RObj> x = mkrobj(k); s_box[i].emplace(std::move(x)); }
void cdrop_box(std::size_t i) { s_box[i].reset(); }
static std::int32_t v_box(const rust::Box<RObj> &x) { return rval(*x); }
std::int32_t cval_box(std::size_t i) { return s_box[i] ? v_box(*s_box[i]) : -1; }
void c_rput_box(std::size_t i, std::size_t j) { rput_box(j, pop_box(i)); }
void c_rtake_box(std::size_t i, std::size_t j) { s_box[i].reset(); s_box[i].emplace(rtake_box(j)); }
void c_rignore_box(std::size_t j) { rtake_box(j); }
bool c_rtry_put_box(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_box(j, pop_box(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_box(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Box<RObj> x = rtry_take_box(j, mode); s_box[i].reset(); s_box[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_box(std::int32_t mode) { try { rust::Box<RObj> x = rtwo_box(pop_box(0), pop_box(1), mode); s_box[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_box() { s_box[1].emplace(rthree_box(1, pop_box(0), rust::String(ctext(2)), pop_box(1), rust::Str("z"))); }
void c_rrepl_box(std::size_t i, std::size_t j) { rrepl_box(j, *s_box[i]); }
bool c_rdeep_box(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Box<RObj> x = rdeep_box(pop_box(i), d, mode); s_box[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_box(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_box(j, pop_box(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_box(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Box<RObj> x = h.rhtake_box(j, mode); s_box[i].reset(); s_box[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::Vec<RObj>> s_vec[2];
static rust::Vec<RObj> pop_vec(std::size_t i) { rust::Vec<RObj> x = std::move(*s_vec[i]); s_vec[i].reset(); return x; }
void put_vec(std::size_t i, rust::Vec<RObj> x) { s_vec[i].reset(); s_vec[i].emplace(std::move(x)); }
rust::Vec<RObj> take_vec(std::size_t i) { return pop_vec(i); }
void try_put_vec(std::size_t i, rust::Vec<RObj> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_vec(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Vec<RObj> try_take_vec(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Vec<RObj> x = pop_vec(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_vec(std::size_t i, rust::Vec<RObj> x, std::int32_t mode) const { try_put_vec(i, std::move(x), mode); }
rust::Vec<RObj> Holder::htake_vec(std::size_t i, std::int32_t mode) { return try_take_vec(i, mode); }
rust::Vec<RObj> two_vec(rust::Vec<RObj> x, rust::Vec<RObj> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Vec<RObj> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Vec<RObj> three_vec(std::uint8_t a, rust::Vec<RObj> x, rust::String b, rust::Vec<RObj> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Vec<RObj> z = std::move(x); (void)z; return y; }
rust::Vec<RObj> cb_vec(rust::Fn<rust::Vec<RObj>(rust::Vec<RObj>)> f, rust::Vec<RObj> x) { return f(f(std::move(x))); }
rust::Vec<RObj> cb2_vec(rust::Fn<rust::Vec<RObj>(rust::Vec<RObj>, rust::Vec<RObj>)> f, rust::Vec<RObj> x, rust::Vec<RObj> y) { return f(std::move(x), std::move(y)); }
void repl_vec(std::size_t i, rust::Vec<RObj> &x) { rust::Vec<RObj> t = std::move(x); x = pop_vec(i); s_vec[i].emplace(std::move(t)); }
rust::Vec<RObj> deep_vec(rust::Vec<RObj> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_vec(std::move(x), d - 1, mode); }
void cnew_vec(std::size_t i, std::int32_t k) { s_vec[i].reset(); rust::Vec<RObj> x = mkvec(k); s_vec[i].emplace(std::move(x)); }
void cdrop_vec(std::size_t i) { s_vec[i].reset(); }
static std::int32_t v_vec(const rust::Vec<RObj> &x) { return x.size() == 2 ? rval(x.front()) : -2; }
std::int32_t cval_vec(std::size_t i) { return s_vec[i] ? v_vec(*s_vec[i]) : -1; }
void c_rput_vec(std::size_t i, std::size_t j) { rput_vec(j, pop_vec(i)); }
void c_rtake_vec(std::size_t i, std::size_t j) { s_vec[i].reset(); s_vec[i].emplace(rtake_vec(j)); }
void c_rignore_vec(std::size_t j) { rtake_vec(j); }
bool c_rtry_put_vec(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_vec(j, pop_vec(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_vec(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<RObj> x = rtry_take_vec(j, mode); s_vec[i].reset(); s_vec[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_vec(std::int32_t mode) { try { rust::Vec<RObj> x = rtwo_vec(pop_vec(0), pop_vec(1), mode); s_vec[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_vec() { s_vec[1].emplace(rthree_vec(1, pop_vec(0), rust::String(ctext(2)), pop_vec(1), rust::Str("z"))); }
void c_rrepl_vec(std::size_t i, std::size_t j) { rrepl_vec(j, *s_vec[i]); }
bool c_rdeep_vec(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Vec<RObj> x = rdeep_vec(pop_vec(i), d, mode); s_vec[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_vec(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_vec(j, pop_vec(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_vec(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<RObj> x = h.rhtake_vec(j, mode); s_vec[i].reset(); s_vec[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::String> s_string[2];
static rust::String pop_string(std::size_t i) { rust::String x = std::move(*s_string[i]); s_string[i].reset(); return x; }
void put_string(std::size_t i, rust::String x) { s_string[i].reset(); s_string[i].emplace(std::move(x)); }
rust::String take_string(std::size_t i) { return pop_string(i); }
void try_put_string(std::size_t i, rust::String x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_string(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::String try_take_string(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::String x = pop_string(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_string(std::size_t i, rust::String x, std::int32_t mode) const { try_put_string(i, std::move(x), mode); }
rust::String Holder::htake_string(std::size_t i, std::int32_t mode) { return try_take_string(i, mode); }
rust::String two_string(rust::String x, rust::String y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::String z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::String three_string(std::uint8_t a, rust::String x, rust::String b, rust::String y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::String z = std::move(x); (void)z; return y; }
rust::String cb_string(rust::Fn<rust::String(rust::String)> f, rust::String x) { return f(f(std::move(x))); }
rust::String cb2_string(rust::Fn<rust::String(rust::String, rust::String)> f, rust::String x, rust::String y) { return f(std::move(x), std::move(y)); }
void repl_string(std::size_t i, rust::String &x) { rust::String t = std::move(x); x = pop_string(i); s_string[i].emplace(std::move(t)); }
rust::String deep_string(rust::String x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_string(std::move(x), d - 1, mode); }
void cnew_string(std::size_t i, std::int32_t k) { s_string[i].reset(); rust::String x = rust::String(ctext(k)); s_string[i].emplace(std::move(x)); }
void cdrop_string(std::size_t i) { s_string[i].reset(); }
static std::int32_t v_string(const rust::String &x) { return cpos(std::string(x)); }
std::int32_t cval_string(std::size_t i) { return s_string[i] ? v_string(*s_string[i]) : -1; }
void c_rput_string(std::size_t i, std::size_t j) { rput_string(j, pop_string(i)); }
void c_rtake_string(std::size_t i, std::size_t j) { s_string[i].reset(); s_string[i].emplace(rtake_string(j)); }
void c_rignore_string(std::size_t j) { rtake_string(j); }
bool c_rtry_put_string(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_string(j, pop_string(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_string(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::String x = rtry_take_string(j, mode); s_string[i].reset(); s_string[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_string(std::int32_t mode) { try { rust::String x = rtwo_string(pop_string(0), pop_string(1), mode); s_string[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_string() { s_string[1].emplace(rthree_string(1, pop_string(0), rust::String(ctext(2)), pop_string(1), rust::Str("z"))); }
void c_rrepl_string(std::size_t i, std::size_t j) { rrepl_string(j, *s_string[i]); }
bool c_rdeep_string(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::String x = rdeep_string(pop_string(i), d, mode); s_string[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_string(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_string(j, pop_string(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_string(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::String x = h.rhtake_string(j, mode); s_string[i].reset(); s_string[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::unique_ptr<CObj>> s_unique[2];
static std::unique_ptr<CObj> pop_unique(std::size_t i) { std::unique_ptr<CObj> x = std::move(*s_unique[i]); s_unique[i].reset(); return x; }
void put_unique(std::size_t i, std::unique_ptr<CObj> x) { s_unique[i].reset(); s_unique[i].emplace(std::move(x)); }
std::unique_ptr<CObj> take_unique(std::size_t i) { return pop_unique(i); }
void try_put_unique(std::size_t i, std::unique_ptr<CObj> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_unique(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::unique_ptr<CObj> try_take_unique(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::unique_ptr<CObj> x = pop_unique(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_unique(std::size_t i, std::unique_ptr<CObj> x, std::int32_t mode) const { try_put_unique(i, std::move(x), mode); }
std::unique_ptr<CObj> Holder::htake_unique(std::size_t i, std::int32_t mode) { return try_take_unique(i, mode); }
std::unique_ptr<CObj> two_unique(std::unique_ptr<CObj> x, std::unique_ptr<CObj> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::unique_ptr<CObj> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::unique_ptr<CObj> three_unique(std::uint8_t a, std::unique_ptr<CObj> x, rust::String b, std::unique_ptr<CObj> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::unique_ptr<CObj> z = std::move(x); (void)z; return y; }
std::unique_ptr<CObj> cb_unique(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>)> f, std::unique_ptr<CObj> x) { return f(f(std::move(x))); }
std::unique_ptr<CObj> cb2_unique(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::unique_ptr<CObj>)> f, std::unique_ptr<CObj> x, std::unique_ptr<CObj> y) { return f(std::move(x), std::move(y)); }
void repl_unique(std::size_t i, std::unique_ptr<CObj> &x) { std::unique_ptr<CObj> t = std::move(x); x = pop_unique(i); s_unique[i].emplace(std::move(t)); }
std::unique_ptr<CObj> deep_unique(std::unique_ptr<CObj> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_unique(std::move(x), d - 1, mode); }
void cnew_unique(std::size_t i, std::int32_t k) { s_unique[i].reset(); std::unique_ptr<CObj> x = mkcobj(k); s_unique[i].emplace(std::move(x)); }
void cdrop_unique(std::size_t i) { s_unique[i].reset(); }
static std::int32_t v_unique(const std::unique_ptr<CObj> &x) { return x->val(); }
std::int32_t cval_unique(std::size_t i) { return s_unique[i] ? v_unique(*s_unique[i]) : -1; }
void c_rput_unique(std::size_t i, std::size_t j) { rput_unique(j, pop_unique(i)); }
void c_rtake_unique(std::size_t i, std::size_t j) { s_unique[i].reset(); s_unique[i].emplace(rtake_unique(j)); }
void c_rignore_unique(std::size_t j) { rtake_unique(j); }
bool c_rtry_put_unique(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_unique(j, pop_unique(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_unique(std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<CObj> x = rtry_take_unique(j, mode); s_unique[i].reset(); s_unique[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_unique(std::int32_t mode) { try { std::unique_ptr<CObj> x = rtwo_unique(pop_unique(0), pop_unique(1), mode); s_unique[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_unique() { s_unique[1].emplace(rthree_unique(1, pop_unique(0), rust::String(ctext(2)), pop_unique(1), rust::Str("z"))); }
void c_rrepl_unique(std::size_t i, std::size_t j) { rrepl_unique(j, *s_unique[i]); }
bool c_rdeep_unique(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::unique_ptr<CObj> x = rdeep_unique(pop_unique(i), d, mode); s_unique[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_unique(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_unique(j, pop_unique(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_unique(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<CObj> x = h.rhtake_unique(j, mode); s_unique[i].reset(); s_unique[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::unique_ptr<Base>> s_base[2];
static std::unique_ptr<Base> pop_base(std::size_t i) { std::unique_ptr<Base> x = std::move(*s_base[i]); s_base[i].reset(); return x; }
void put_base(std::size_t i, std::unique_ptr<Base> x) { s_base[i].reset(); s_base[i].emplace(std::move(x)); }
std::unique_ptr<Base> take_base(std::size_t i) { return pop_base(i); }
void try_put_base(std::size_t i, std::unique_ptr<Base> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_base(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::unique_ptr<Base> try_take_base(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::unique_ptr<Base> x = pop_base(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_base(std::size_t i, std::unique_ptr<Base> x, std::int32_t mode) const { try_put_base(i, std::move(x), mode); }
std::unique_ptr<Base> Holder::htake_base(std::size_t i, std::int32_t mode) { return try_take_base(i, mode); }
std::unique_ptr<Base> two_base(std::unique_ptr<Base> x, std::unique_ptr<Base> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::unique_ptr<Base> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::unique_ptr<Base> three_base(std::uint8_t a, std::unique_ptr<Base> x, rust::String b, std::unique_ptr<Base> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::unique_ptr<Base> z = std::move(x); (void)z; return y; }
std::unique_ptr<Base> cb_base(rust::Fn<std::unique_ptr<Base>(std::unique_ptr<Base>)> f, std::unique_ptr<Base> x) { return f(f(std::move(x))); }
std::unique_ptr<Base> cb2_base(rust::Fn<std::unique_ptr<Base>(std::unique_ptr<Base>, std::unique_ptr<Base>)> f, std::unique_ptr<Base> x, std::unique_ptr<Base> y) { return f(std::move(x), std::move(y)); }
void repl_base(std::size_t i, std::unique_ptr<Base> &x) { std::unique_ptr<Base> t = std::move(x); x = pop_base(i); s_base[i].emplace(std::move(t)); }
std::unique_ptr<Base> deep_base(std::unique_ptr<Base> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_base(std::move(x), d - 1, mode); }
void cnew_base(std::size_t i, std::int32_t k) { s_base[i].reset(); std::unique_ptr<Base> x = mkbase(k); s_base[i].emplace(std::move(x)); }
void cdrop_base(std::size_t i) { s_base[i].reset(); }
static std::int32_t v_base(const std::unique_ptr<Base> &x) { return x->bval(); }
std::int32_t cval_base(std::size_t i) { return s_base[i] ? v_base(*s_base[i]) : -1; }
void c_rput_base(std::size_t i, std::size_t j) { rput_base(j, pop_base(i)); }
void c_rtake_base(std::size_t i, std::size_t j) { s_base[i].reset(); s_base[i].emplace(rtake_base(j)); }
void c_rignore_base(std::size_t j) { rtake_base(j); }
bool c_rtry_put_base(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_base(j, pop_base(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_base(std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<Base> x = rtry_take_base(j, mode); s_base[i].reset(); s_base[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_base(std::int32_t mode) { try { std::unique_ptr<Base> x = rtwo_base(pop_base(0), pop_base(1), mode); s_base[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_base() { s_base[1].emplace(rthree_base(1, pop_base(0), rust::String(ctext(2)), pop_base(1), rust::Str("z"))); }
void c_rrepl_base(std::size_t i, std::size_t j) { rrepl_base(j, *s_base[i]); }
bool c_rdeep_base(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::unique_ptr<Base> x = rdeep_base(pop_base(i), d, mode); s_base[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_base(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_base(j, pop_base(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_base(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<Base> x = h.rhtake_base(j, mode); s_base[i].reset(); s_base[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::shared_ptr<CObj>> s_shared[2];
static std::shared_ptr<CObj> pop_shared(std::size_t i) { std::shared_ptr<CObj> x = std::move(*s_shared[i]); s_shared[i].reset(); return x; }
void put_shared(std::size_t i, std::shared_ptr<CObj> x) { s_shared[i].reset(); s_shared[i].emplace(std::move(x)); }
std::shared_ptr<CObj> take_shared(std::size_t i) { return pop_shared(i); }
void try_put_shared(std::size_t i, std::shared_ptr<CObj> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_shared(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::shared_ptr<CObj> try_take_shared(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::shared_ptr<CObj> x = pop_shared(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_shared(std::size_t i, std::shared_ptr<CObj> x, std::int32_t mode) const { try_put_shared(i, std::move(x), mode); }
std::shared_ptr<CObj> Holder::htake_shared(std::size_t i, std::int32_t mode) { return try_take_shared(i, mode); }
std::shared_ptr<CObj> two_shared(std::shared_ptr<CObj> x, std::shared_ptr<CObj> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::shared_ptr<CObj> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::shared_ptr<CObj> three_shared(std::uint8_t a, std::shared_ptr<CObj> x, rust::String b, std::shared_ptr<CObj> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::shared_ptr<CObj> z = std::move(x); (void)z; return y; }
std::shared_ptr<CObj> cb_shared(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>)> f, std::shared_ptr<CObj> x) { return f(f(std::move(x))); }
std::shared_ptr<CObj> cb2_shared(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::shared_ptr<CObj>)> f, std::shared_ptr<CObj> x, std::shared_ptr<CObj> y) { return f(std::move(x), std::move(y)); }
void repl_shared(std::size_t i, std::shared_ptr<CObj> &x) { std::shared_ptr<CObj> t = std::move(x); x = pop_shared(i); s_shared[i].emplace(std::move(t)); }
std::shared_ptr<CObj> deep_shared(std::shared_ptr<CObj> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_shared(std::move(x), d - 1, mode); }
void cnew_shared(std::size_t i, std::int32_t k) { s_shared[i].reset(); std::shared_ptr<CObj> x = mkshared(k); s_shared[i].emplace(std::move(x)); }
void cdrop_shared(std::size_t i) { s_shared[i].reset(); }
static std::int32_t v_shared(const std::shared_ptr<CObj> &x) { return x->val(); }
std::int32_t cval_shared(std::size_t i) { return s_shared[i] ? v_shared(*s_shared[i]) : -1; }
void c_rput_shared(std::size_t i, std::size_t j) { rput_shared(j, pop_shared(i)); }
void c_rtake_shared(std::size_t i, std::size_t j) { s_shared[i].reset(); s_shared[i].emplace(rtake_shared(j)); }
void c_rignore_shared(std::size_t j) { rtake_shared(j); }
bool c_rtry_put_shared(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_shared(j, pop_shared(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_shared(std::size_t i, std::size_t j, std::int32_t mode) { try { std::shared_ptr<CObj> x = rtry_take_shared(j, mode); s_shared[i].reset(); s_shared[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_shared(std::int32_t mode) { try { std::shared_ptr<CObj> x = rtwo_shared(pop_shared(0), pop_shared(1), mode); s_shared[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_shared() { s_shared[1].emplace(rthree_shared(1, pop_shared(0), rust::String(ctext(2)), pop_shared(1), rust::Str("z"))); }
void c_rrepl_shared(std::size_t i, std::size_t j) { rrepl_shared(j, *s_shared[i]); }
bool c_rdeep_shared(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::shared_ptr<CObj> x = rdeep_shared(pop_shared(i), d, mode); s_shared[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_shared(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_shared(j, pop_shared(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_shared(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::shared_ptr<CObj> x = h.rhtake_shared(j, mode); s_shared[i].reset(); s_shared[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::unique_ptr<std::string>> s_ustring[2];
static std::unique_ptr<std::string> pop_ustring(std::size_t i) { std::unique_ptr<std::string> x = std::move(*s_ustring[i]); s_ustring[i].reset(); return x; }
void put_ustring(std::size_t i, std::unique_ptr<std::string> x) { s_ustring[i].reset(); s_ustring[i].emplace(std::move(x)); }
std::unique_ptr<std::string> take_ustring(std::size_t i) { return pop_ustring(i); }
void try_put_ustring(std::size_t i, std::unique_ptr<std::string> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_ustring(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::unique_ptr<std::string> try_take_ustring(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::unique_ptr<std::string> x = pop_ustring(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_ustring(std::size_t i, std::unique_ptr<std::string> x, std::int32_t mode) const { try_put_ustring(i, std::move(x), mode); }
std::unique_ptr<std::string> Holder::htake_ustring(std::size_t i, std::int32_t mode) { return try_take_ustring(i, mode); }
std::unique_ptr<std::string> two_ustring(std::unique_ptr<std::string> x, std::unique_ptr<std::string> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::unique_ptr<std::string> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::unique_ptr<std::string> three_ustring(std::uint8_t a, std::unique_ptr<std::string> x, rust::String b, std::unique_ptr<std::string> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::unique_ptr<std::string> z = std::move(x); (void)z; return y; }
std::unique_ptr<std::string> cb_ustring(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>)> f, std::unique_ptr<std::string> x) { return f(f(std::move(x))); }
std::unique_ptr<std::string> cb2_ustring(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>, std::unique_ptr<std::string>)> f, std::unique_ptr<std::string> x, std::unique_ptr<std::string> y) { return f(std::move(x), std::move(y)); }
void repl_ustring(std::size_t i, std::unique_ptr<std::string> &x) { std::unique_ptr<std::string> t = std::move(x); x = pop_ustring(i); s_ustring[i].emplace(std::move(t)); }
std::unique_ptr<std::string> deep_ustring(std::unique_ptr<std::string> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_ustring(std::move(x), d - 1, mode); }
void cnew_ustring(std::size_t i, std::int32_t k) { s_ustring[i].reset(); std::unique_ptr<std::string> x = std::make_unique<std::string>(ctext(k)); s_ustring[i].emplace(std::move(x)); }
void cdrop_ustring(std::size_t i) { s_ustring[i].reset(); }
static std::int32_t v_ustring(const std::unique_ptr<std::string> &x) { return cpos(*x); }
std::int32_t cval_ustring(std::size_t i) { return s_ustring[i] ? v_ustring(*s_ustring[i]) : -1; }
void c_rput_ustring(std::size_t i, std::size_t j) { rput_ustring(j, pop_ustring(i)); }
void c_rtake_ustring(std::size_t i, std::size_t j) { s_ustring[i].reset(); s_ustring[i].emplace(rtake_ustring(j)); }
void c_rignore_ustring(std::size_t j) { rtake_ustring(j); }
bool c_rtry_put_ustring(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_ustring(j, pop_ustring(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_ustring(std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<std::string> x = rtry_take_ustring(j, mode); s_ustring[i].reset(); s_ustring[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_ustring(std::int32_t mode) { try { std::unique_ptr<std::string> x = rtwo_ustring(pop_ustring(0), pop_ustring(1), mode); s_ustring[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_ustring() { s_ustring[1].emplace(rthree_ustring(1, pop_ustring(0), rust::String(ctext(2)), pop_ustring(1), rust::Str("z"))); }
void c_rrepl_ustring(std::size_t i, std::size_t j) { rrepl_ustring(j, *s_ustring[i]); }
bool c_rdeep_ustring(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::unique_ptr<std::string> x = rdeep_ustring(pop_ustring(i), d, mode); s_ustring[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_ustring(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_ustring(j, pop_ustring(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_ustring(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<std::string> x = h.rhtake_ustring(j, mode); s_ustring[i].reset(); s_ustring[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::unique_ptr<std::vector<CObj>>> s_uvec[2];
static std::unique_ptr<std::vector<CObj>> pop_uvec(std::size_t i) { std::unique_ptr<std::vector<CObj>> x = std::move(*s_uvec[i]); s_uvec[i].reset(); return x; }
void put_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> x) { s_uvec[i].reset(); s_uvec[i].emplace(std::move(x)); }
std::unique_ptr<std::vector<CObj>> take_uvec(std::size_t i) { return pop_uvec(i); }
void try_put_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_uvec(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::unique_ptr<std::vector<CObj>> try_take_uvec(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::unique_ptr<std::vector<CObj>> x = pop_uvec(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> x, std::int32_t mode) const { try_put_uvec(i, std::move(x), mode); }
std::unique_ptr<std::vector<CObj>> Holder::htake_uvec(std::size_t i, std::int32_t mode) { return try_take_uvec(i, mode); }
std::unique_ptr<std::vector<CObj>> two_uvec(std::unique_ptr<std::vector<CObj>> x, std::unique_ptr<std::vector<CObj>> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::unique_ptr<std::vector<CObj>> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::unique_ptr<std::vector<CObj>> three_uvec(std::uint8_t a, std::unique_ptr<std::vector<CObj>> x, rust::String b, std::unique_ptr<std::vector<CObj>> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::unique_ptr<std::vector<CObj>> z = std::move(x); (void)z; return y; }
std::unique_ptr<std::vector<CObj>> cb_uvec(rust::Fn<std::unique_ptr<std::vector<CObj>>(std::unique_ptr<std::vector<CObj>>)> f, std::unique_ptr<std::vector<CObj>> x) { return f(f(std::move(x))); }
std::unique_ptr<std::vector<CObj>> cb2_uvec(rust::Fn<std::unique_ptr<std::vector<CObj>>(std::unique_ptr<std::vector<CObj>>, std::unique_ptr<std::vector<CObj>>)> f, std::unique_ptr<std::vector<CObj>> x, std::unique_ptr<std::vector<CObj>> y) { return f(std::move(x), std::move(y)); }
void repl_uvec(std::size_t i, std::unique_ptr<std::vector<CObj>> &x) { std::unique_ptr<std::vector<CObj>> t = std::move(x); x = pop_uvec(i); s_uvec[i].emplace(std::move(t)); }
std::unique_ptr<std::vector<CObj>> deep_uvec(std::unique_ptr<std::vector<CObj>> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_uvec(std::move(x), d - 1, mode); }
void cnew_uvec(std::size_t i, std::int32_t k) { s_uvec[i].reset(); std::unique_ptr<std::vector<CObj>> x = mkuvec(k); s_uvec[i].emplace(std::move(x)); }
void cdrop_uvec(std::size_t i) { s_uvec[i].reset(); }
static std::int32_t v_uvec(const std::unique_ptr<std::vector<CObj>> &x) { return x->size() == 2 ? x->at(1).val() : -2; }
std::int32_t cval_uvec(std::size_t i) { return s_uvec[i] ? v_uvec(*s_uvec[i]) : -1; }
void c_rput_uvec(std::size_t i, std::size_t j) { rput_uvec(j, pop_uvec(i)); }
void c_rtake_uvec(std::size_t i, std::size_t j) { s_uvec[i].reset(); s_uvec[i].emplace(rtake_uvec(j)); }
void c_rignore_uvec(std::size_t j) { rtake_uvec(j); }
bool c_rtry_put_uvec(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_uvec(j, pop_uvec(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_uvec(std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<std::vector<CObj>> x = rtry_take_uvec(j, mode); s_uvec[i].reset(); s_uvec[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_uvec(std::int32_t mode) { try { std::unique_ptr<std::vector<CObj>> x = rtwo_uvec(pop_uvec(0), pop_uvec(1), mode); s_uvec[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_uvec() { s_uvec[1].emplace(rthree_uvec(1, pop_uvec(0), rust::String(ctext(2)), pop_uvec(1), rust::Str("z"))); }
void c_rrepl_uvec(std::size_t i, std::size_t j) { rrepl_uvec(j, *s_uvec[i]); }
bool c_rdeep_uvec(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::unique_ptr<std::vector<CObj>> x = rdeep_uvec(pop_uvec(i), d, mode); s_uvec[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_uvec(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_uvec(j, pop_uvec(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_uvec(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<std::vector<CObj>> x = h.rhtake_uvec(j, mode); s_uvec[i].reset(); s_uvec[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<Sh> s_sh[2];
static Sh pop_sh(std::size_t i) { Sh x = std::move(*s_sh[i]); s_sh[i].reset(); return x; }
void put_sh(std::size_t i, Sh x) { s_sh[i].reset(); s_sh[i].emplace(std::move(x)); }
Sh take_sh(std::size_t i) { return pop_sh(i); }
void try_put_sh(std::size_t i, Sh x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_sh(i, std::move(x)); if (mode == 2) throw Ex(mode); }
Sh try_take_sh(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); Sh x = pop_sh(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_sh(std::size_t i, Sh x, std::int32_t mode) const { try_put_sh(i, std::move(x), mode); }
Sh Holder::htake_sh(std::size_t i, std::int32_t mode) { return try_take_sh(i, mode); }
Sh two_sh(Sh x, Sh y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { Sh z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
Sh three_sh(std::uint8_t a, Sh x, rust::String b, Sh y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); Sh z = std::move(x); (void)z; return y; }
Sh cb_sh(rust::Fn<Sh(Sh)> f, Sh x) { return f(f(std::move(x))); }
Sh cb2_sh(rust::Fn<Sh(Sh, Sh)> f, Sh x, Sh y) { return f(std::move(x), std::move(y)); }
void repl_sh(std::size_t i, Sh &x) { Sh t = std::move(x); x = pop_sh(i); s_sh[i].emplace(std::move(t)); }
Sh deep_sh(Sh x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_sh(std::move(x), d - 1, mode); }
void cnew_sh(std::size_t i, std::int32_t k) { s_sh[i].reset(); Sh x = mksh(k); s_sh[i].emplace(std::move(x)); }
void cdrop_sh(std::size_t i) { s_sh[i].reset(); }
static std::int32_t v_sh(const Sh &x) { return shval(x); }
std::int32_t cval_sh(std::size_t i) { return s_sh[i] ? v_sh(*s_sh[i]) : -1; }
void c_rput_sh(std::size_t i, std::size_t j) { rput_sh(j, pop_sh(i)); }
void c_rtake_sh(std::size_t i, std::size_t j) { s_sh[i].reset(); s_sh[i].emplace(rtake_sh(j)); }
void c_rignore_sh(std::size_t j) { rtake_sh(j); }
bool c_rtry_put_sh(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_sh(j, pop_sh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_sh(std::size_t i, std::size_t j, std::int32_t mode) { try { Sh x = rtry_take_sh(j, mode); s_sh[i].reset(); s_sh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_sh(std::int32_t mode) { try { Sh x = rtwo_sh(pop_sh(0), pop_sh(1), mode); s_sh[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_sh() { s_sh[1].emplace(rthree_sh(1, pop_sh(0), rust::String(ctext(2)), pop_sh(1), rust::Str("z"))); }
void c_rrepl_sh(std::size_t i, std::size_t j) { rrepl_sh(j, *s_sh[i]); }
bool c_rdeep_sh(std::size_t i, std::int32_t d, std::int32_t mode) { try { Sh x = rdeep_sh(pop_sh(i), d, mode); s_sh[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_sh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_sh(j, pop_sh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_sh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { Sh x = h.rhtake_sh(j, mode); s_sh[i].reset(); s_sh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::Vec<Sh>> s_vecsh[2];
static rust::Vec<Sh> pop_vecsh(std::size_t i) { rust::Vec<Sh> x = std::move(*s_vecsh[i]); s_vecsh[i].reset(); return x; }
void put_vecsh(std::size_t i, rust::Vec<Sh> x) { s_vecsh[i].reset(); s_vecsh[i].emplace(std::move(x)); }
rust::Vec<Sh> take_vecsh(std::size_t i) { return pop_vecsh(i); }
void try_put_vecsh(std::size_t i, rust::Vec<Sh> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_vecsh(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Vec<Sh> try_take_vecsh(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Vec<Sh> x = pop_vecsh(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_vecsh(std::size_t i, rust::Vec<Sh> x, std::int32_t mode) const { try_put_vecsh(i, std::move(x), mode); }
rust::Vec<Sh> Holder::htake_vecsh(std::size_t i, std::int32_t mode) { return try_take_vecsh(i, mode); }
rust::Vec<Sh> two_vecsh(rust::Vec<Sh> x, rust::Vec<Sh> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Vec<Sh> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Vec<Sh> three_vecsh(std::uint8_t a, rust::Vec<Sh> x, rust::String b, rust::Vec<Sh> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Vec<Sh> z = std::move(x); (void)z; return y; }
rust::Vec<Sh> cb_vecsh(rust::Fn<rust::Vec<Sh>(rust::Vec<Sh>)> f, rust::Vec<Sh> x) { return f(f(std::move(x))); }
rust::Vec<Sh> cb2_vecsh(rust::Fn<rust::Vec<Sh>(rust::Vec<Sh>, rust::Vec<Sh>)> f, rust::Vec<Sh> x, rust::Vec<Sh> y) { return f(std::move(x), std::move(y)); }
void repl_vecsh(std::size_t i, rust::Vec<Sh> &x) { rust::Vec<Sh> t = std::move(x); x = pop_vecsh(i); s_vecsh[i].emplace(std::move(t)); }
rust::Vec<Sh> deep_vecsh(rust::Vec<Sh> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_vecsh(std::move(x), d - 1, mode); }
void cnew_vecsh(std::size_t i, std::int32_t k) { s_vecsh[i].reset(); rust::Vec<Sh> x = mkvecsh(k); s_vecsh[i].emplace(std::move(x)); }
void cdrop_vecsh(std::size_t i) { s_vecsh[i].reset(); }
static std::int32_t v_vecsh(const rust::Vec<Sh> &x) { return x.size() == 2 ? shval(x[1]) : -2; }
std::int32_t cval_vecsh(std::size_t i) { return s_vecsh[i] ? v_vecsh(*s_vecsh[i]) : -1; }
void c_rput_vecsh(std::size_t i, std::size_t j) { rput_vecsh(j, pop_vecsh(i)); }
void c_rtake_vecsh(std::size_t i, std::size_t j) { s_vecsh[i].reset(); s_vecsh[i].emplace(rtake_vecsh(j)); }
void c_rignore_vecsh(std::size_t j) { rtake_vecsh(j); }
bool c_rtry_put_vecsh(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_vecsh(j, pop_vecsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_vecsh(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<Sh> x = rtry_take_vecsh(j, mode); s_vecsh[i].reset(); s_vecsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_vecsh(std::int32_t mode) { try { rust::Vec<Sh> x = rtwo_vecsh(pop_vecsh(0), pop_vecsh(1), mode); s_vecsh[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_vecsh() { s_vecsh[1].emplace(rthree_vecsh(1, pop_vecsh(0), rust::String(ctext(2)), pop_vecsh(1), rust::Str("z"))); }
void c_rrepl_vecsh(std::size_t i, std::size_t j) { rrepl_vecsh(j, *s_vecsh[i]); }
bool c_rdeep_vecsh(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Vec<Sh> x = rdeep_vecsh(pop_vecsh(i), d, mode); s_vecsh[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_vecsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_vecsh(j, pop_vecsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_vecsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<Sh> x = h.rhtake_vecsh(j, mode); s_vecsh[i].reset(); s_vecsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::Box<Sh>> s_boxsh[2];
static rust::Box<Sh> pop_boxsh(std::size_t i) { rust::Box<Sh> x = std::move(*s_boxsh[i]); s_boxsh[i].reset(); return x; }
void put_boxsh(std::size_t i, rust::Box<Sh> x) { s_boxsh[i].reset(); s_boxsh[i].emplace(std::move(x)); }
rust::Box<Sh> take_boxsh(std::size_t i) { return pop_boxsh(i); }
void try_put_boxsh(std::size_t i, rust::Box<Sh> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_boxsh(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Box<Sh> try_take_boxsh(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Box<Sh> x = pop_boxsh(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_boxsh(std::size_t i, rust::Box<Sh> x, std::int32_t mode) const { try_put_boxsh(i, std::move(x), mode); }
rust::Box<Sh> Holder::htake_boxsh(std::size_t i, std::int32_t mode) { return try_take_boxsh(i, mode); }
rust::Box<Sh> two_boxsh(rust::Box<Sh> x, rust::Box<Sh> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Box<Sh> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Box<Sh> three_boxsh(std::uint8_t a, rust::Box<Sh> x, rust::String b, rust::Box<Sh> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Box<Sh> z = std::move(x); (void)z; return y; }
rust::Box<Sh> cb_boxsh(rust::Fn<rust::Box<Sh>(rust::Box<Sh>)> f, rust::Box<Sh> x) { return f(f(std::move(x))); }
rust::Box<Sh> cb2_boxsh(rust::Fn<rust::Box<Sh>(rust::Box<Sh>, rust::Box<Sh>)> f, rust::Box<Sh> x, rust::Box<Sh> y) { return f(std::move(x), std::move(y)); }
void repl_boxsh(std::size_t i, rust::Box<Sh> &x) { rust::Box<Sh> t = std::move(x); x = pop_boxsh(i); s_boxsh[i].emplace(std::move(t)); }
rust::Box<Sh> deep_boxsh(rust::Box<Sh> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_boxsh(std::move(x), d - 1, mode); }
void cnew_boxsh(std::size_t i, std::int32_t k) { s_boxsh[i].reset(); rust::Box<Sh> x = rust::Box<Sh>(mksh(k)); s_boxsh[i].emplace(std::move(x)); }
void cdrop_boxsh(std::size_t i) { s_boxsh[i].reset(); }
static std::int32_t v_boxsh(const rust::Box<Sh> &x) { return shval(*x); }
std::int32_t cval_boxsh(std::size_t i) { return s_boxsh[i] ? v_boxsh(*s_boxsh[i]) : -1; }
void c_rput_boxsh(std::size_t i, std::size_t j) { rput_boxsh(j, pop_boxsh(i)); }
void c_rtake_boxsh(std::size_t i, std::size_t j) { s_boxsh[i].reset(); s_boxsh[i].emplace(rtake_boxsh(j)); }
void c_rignore_boxsh(std::size_t j) { rtake_boxsh(j); }
bool c_rtry_put_boxsh(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_boxsh(j, pop_boxsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_boxsh(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Box<Sh> x = rtry_take_boxsh(j, mode); s_boxsh[i].reset(); s_boxsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_boxsh(std::int32_t mode) { try { rust::Box<Sh> x = rtwo_boxsh(pop_boxsh(0), pop_boxsh(1), mode); s_boxsh[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_boxsh() { s_boxsh[1].emplace(rthree_boxsh(1, pop_boxsh(0), rust::String(ctext(2)), pop_boxsh(1), rust::Str("z"))); }
void c_rrepl_boxsh(std::size_t i, std::size_t j) { rrepl_boxsh(j, *s_boxsh[i]); }
bool c_rdeep_boxsh(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Box<Sh> x = rdeep_boxsh(pop_boxsh(i), d, mode); s_boxsh[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_boxsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_boxsh(j, pop_boxsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_boxsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Box<Sh> x = h.rhtake_boxsh(j, mode); s_boxsh[i].reset(); s_boxsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::unique_ptr<Sh>> s_uniquesh[2];
static std::unique_ptr<Sh> pop_uniquesh(std::size_t i) { std::unique_ptr<Sh> x = std::move(*s_uniquesh[i]); s_uniquesh[i].reset(); return x; }
void put_uniquesh(std::size_t i, std::unique_ptr<Sh> x) { s_uniquesh[i].reset(); s_uniquesh[i].emplace(std::move(x)); }
std::unique_ptr<Sh> take_uniquesh(std::size_t i) { return pop_uniquesh(i); }
void try_put_uniquesh(std::size_t i, std::unique_ptr<Sh> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_uniquesh(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::unique_ptr<Sh> try_take_uniquesh(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::unique_ptr<Sh> x = pop_uniquesh(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_uniquesh(std::size_t i, std::unique_ptr<Sh> x, std::int32_t mode) const { try_put_uniquesh(i, std::move(x), mode); }
std::unique_ptr<Sh> Holder::htake_uniquesh(std::size_t i, std::int32_t mode) { return try_take_uniquesh(i, mode); }
std::unique_ptr<Sh> two_uniquesh(std::unique_ptr<Sh> x, std::unique_ptr<Sh> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::unique_ptr<Sh> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::unique_ptr<Sh> three_uniquesh(std::uint8_t a, std::unique_ptr<Sh> x, rust::String b, std::unique_ptr<Sh> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::unique_ptr<Sh> z = std::move(x); (void)z; return y; }
std::unique_ptr<Sh> cb_uniquesh(rust::Fn<std::unique_ptr<Sh>(std::unique_ptr<Sh>)> f, std::unique_ptr<Sh> x) { return f(f(std::move(x))); }
std::unique_ptr<Sh> cb2_uniquesh(rust::Fn<std::unique_ptr<Sh>(std::unique_ptr<Sh>, std::unique_ptr<Sh>)> f, std::unique_ptr<Sh> x, std::unique_ptr<Sh> y) { return f(std::move(x), std::move(y)); }
void repl_uniquesh(std::size_t i, std::unique_ptr<Sh> &x) { std::unique_ptr<Sh> t = std::move(x); x = pop_uniquesh(i); s_uniquesh[i].emplace(std::move(t)); }
std::unique_ptr<Sh> deep_uniquesh(std::unique_ptr<Sh> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_uniquesh(std::move(x), d - 1, mode); }
void cnew_uniquesh(std::size_t i, std::int32_t k) { s_uniquesh[i].reset(); std::unique_ptr<Sh> x = std::make_unique<Sh>(mksh(k)); s_uniquesh[i].emplace(std::move(x)); }
void cdrop_uniquesh(std::size_t i) { s_uniquesh[i].reset(); }
static std::int32_t v_uniquesh(const std::unique_ptr<Sh> &x) { return shval(*x); }
std::int32_t cval_uniquesh(std::size_t i) { return s_uniquesh[i] ? v_uniquesh(*s_uniquesh[i]) : -1; }
void c_rput_uniquesh(std::size_t i, std::size_t j) { rput_uniquesh(j, pop_uniquesh(i)); }
void c_rtake_uniquesh(std::size_t i, std::size_t j) { s_uniquesh[i].reset(); s_uniquesh[i].emplace(rtake_uniquesh(j)); }
void c_rignore_uniquesh(std::size_t j) { rtake_uniquesh(j); }
bool c_rtry_put_uniquesh(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_uniquesh(j, pop_uniquesh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_uniquesh(std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<Sh> x = rtry_take_uniquesh(j, mode); s_uniquesh[i].reset(); s_uniquesh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_uniquesh(std::int32_t mode) { try { std::unique_ptr<Sh> x = rtwo_uniquesh(pop_uniquesh(0), pop_uniquesh(1), mode); s_uniquesh[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_uniquesh() { s_uniquesh[1].emplace(rthree_uniquesh(1, pop_uniquesh(0), rust::String(ctext(2)), pop_uniquesh(1), rust::Str("z"))); }
void c_rrepl_uniquesh(std::size_t i, std::size_t j) { rrepl_uniquesh(j, *s_uniquesh[i]); }
bool c_rdeep_uniquesh(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::unique_ptr<Sh> x = rdeep_uniquesh(pop_uniquesh(i), d, mode); s_uniquesh[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_uniquesh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_uniquesh(j, pop_uniquesh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_uniquesh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::unique_ptr<Sh> x = h.rhtake_uniquesh(j, mode); s_uniquesh[i].reset(); s_uniquesh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::shared_ptr<Sh>> s_sharedsh[2];
static std::shared_ptr<Sh> pop_sharedsh(std::size_t i) { std::shared_ptr<Sh> x = std::move(*s_sharedsh[i]); s_sharedsh[i].reset(); return x; }
void put_sharedsh(std::size_t i, std::shared_ptr<Sh> x) { s_sharedsh[i].reset(); s_sharedsh[i].emplace(std::move(x)); }
std::shared_ptr<Sh> take_sharedsh(std::size_t i) { return pop_sharedsh(i); }
void try_put_sharedsh(std::size_t i, std::shared_ptr<Sh> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_sharedsh(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::shared_ptr<Sh> try_take_sharedsh(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::shared_ptr<Sh> x = pop_sharedsh(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_sharedsh(std::size_t i, std::shared_ptr<Sh> x, std::int32_t mode) const { try_put_sharedsh(i, std::move(x), mode); }
std::shared_ptr<Sh> Holder::htake_sharedsh(std::size_t i, std::int32_t mode) { return try_take_sharedsh(i, mode); }
std::shared_ptr<Sh> two_sharedsh(std::shared_ptr<Sh> x, std::shared_ptr<Sh> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::shared_ptr<Sh> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::shared_ptr<Sh> three_sharedsh(std::uint8_t a, std::shared_ptr<Sh> x, rust::String b, std::shared_ptr<Sh> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::shared_ptr<Sh> z = std::move(x); (void)z; return y; }
std::shared_ptr<Sh> cb_sharedsh(rust::Fn<std::shared_ptr<Sh>(std::shared_ptr<Sh>)> f, std::shared_ptr<Sh> x) { return f(f(std::move(x))); }
std::shared_ptr<Sh> cb2_sharedsh(rust::Fn<std::shared_ptr<Sh>(std::shared_ptr<Sh>, std::shared_ptr<Sh>)> f, std::shared_ptr<Sh> x, std::shared_ptr<Sh> y) { return f(std::move(x), std::move(y)); }
void repl_sharedsh(std::size_t i, std::shared_ptr<Sh> &x) { std::shared_ptr<Sh> t = std::move(x); x = pop_sharedsh(i); s_sharedsh[i].emplace(std::move(t)); }
std::shared_ptr<Sh> deep_sharedsh(std::shared_ptr<Sh> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_sharedsh(std::move(x), d - 1, mode); }
void cnew_sharedsh(std::size_t i, std::int32_t k) { s_sharedsh[i].reset(); std::shared_ptr<Sh> x = std::make_shared<Sh>(mksh(k)); s_sharedsh[i].emplace(std::move(x)); }
void cdrop_sharedsh(std::size_t i) { s_sharedsh[i].reset(); }
static std::int32_t v_sharedsh(const std::shared_ptr<Sh> &x) { return shval(*x); }
std::int32_t cval_sharedsh(std::size_t i) { return s_sharedsh[i] ? v_sharedsh(*s_sharedsh[i]) : -1; }
void c_rput_sharedsh(std::size_t i, std::size_t j) { rput_sharedsh(j, pop_sharedsh(i)); }
void c_rtake_sharedsh(std::size_t i, std::size_t j) { s_sharedsh[i].reset(); s_sharedsh[i].emplace(rtake_sharedsh(j)); }
void c_rignore_sharedsh(std::size_t j) { rtake_sharedsh(j); }
bool c_rtry_put_sharedsh(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_sharedsh(j, pop_sharedsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_sharedsh(std::size_t i, std::size_t j, std::int32_t mode) { try { std::shared_ptr<Sh> x = rtry_take_sharedsh(j, mode); s_sharedsh[i].reset(); s_sharedsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_sharedsh(std::int32_t mode) { try { std::shared_ptr<Sh> x = rtwo_sharedsh(pop_sharedsh(0), pop_sharedsh(1), mode); s_sharedsh[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_sharedsh() { s_sharedsh[1].emplace(rthree_sharedsh(1, pop_sharedsh(0), rust::String(ctext(2)), pop_sharedsh(1), rust::Str("z"))); }
void c_rrepl_sharedsh(std::size_t i, std::size_t j) { rrepl_sharedsh(j, *s_sharedsh[i]); }
bool c_rdeep_sharedsh(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::shared_ptr<Sh> x = rdeep_sharedsh(pop_sharedsh(i), d, mode); s_sharedsh[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_sharedsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_sharedsh(j, pop_sharedsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_sharedsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::shared_ptr<Sh> x = h.rhtake_sharedsh(j, mode); s_sharedsh[i].reset(); s_sharedsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::array<rust::Box<RObj>, 2>> s_arrbox[2];
static std::array<rust::Box<RObj>, 2> pop_arrbox(std::size_t i) { std::array<rust::Box<RObj>, 2> x = std::move(*s_arrbox[i]); s_arrbox[i].reset(); return x; }
void put_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> x) { s_arrbox[i].reset(); s_arrbox[i].emplace(std::move(x)); }
std::array<rust::Box<RObj>, 2> take_arrbox(std::size_t i) { return pop_arrbox(i); }
void try_put_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_arrbox(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::array<rust::Box<RObj>, 2> try_take_arrbox(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::array<rust::Box<RObj>, 2> x = pop_arrbox(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> x, std::int32_t mode) const { try_put_arrbox(i, std::move(x), mode); }
std::array<rust::Box<RObj>, 2> Holder::htake_arrbox(std::size_t i, std::int32_t mode) { return try_take_arrbox(i, mode); }
std::array<rust::Box<RObj>, 2> two_arrbox(std::array<rust::Box<RObj>, 2> x, std::array<rust::Box<RObj>, 2> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::array<rust::Box<RObj>, 2> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::array<rust::Box<RObj>, 2> three_arrbox(std::uint8_t a, std::array<rust::Box<RObj>, 2> x, rust::String b, std::array<rust::Box<RObj>, 2> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::array<rust::Box<RObj>, 2> z = std::move(x); (void)z; return y; }
std::array<rust::Box<RObj>, 2> cb_arrbox(rust::Fn<std::array<rust::Box<RObj>, 2>(std::array<rust::Box<RObj>, 2>)> f, std::array<rust::Box<RObj>, 2> x) { return f(f(std::move(x))); }
std::array<rust::Box<RObj>, 2> cb2_arrbox(rust::Fn<std::array<rust::Box<RObj>, 2>(std::array<rust::Box<RObj>, 2>, std::array<rust::Box<RObj>, 2>)> f, std::array<rust::Box<RObj>, 2> x, std::array<rust::Box<RObj>, 2> y) { return f(std::move(x), std::move(y)); }
void repl_arrbox(std::size_t i, std::array<rust::Box<RObj>, 2> &x) { std::array<rust::Box<RObj>, 2> t = std::move(x); x = pop_arrbox(i); s_arrbox[i].emplace(std::move(t)); }
std::array<rust::Box<RObj>, 2> deep_arrbox(std::array<rust::Box<RObj>, 2> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_arrbox(std::move(x), d - 1, mode); }
void cnew_arrbox(std::size_t i, std::int32_t k) { s_arrbox[i].reset(); std::array<rust::Box<RObj>, 2> x{{mkrobj(k), mkrobj(k)}}; s_arrbox[i].emplace(std::move(x)); }
void cdrop_arrbox(std::size_t i) { s_arrbox[i].reset(); }
static std::int32_t v_arrbox(const std::array<rust::Box<RObj>, 2> &x) { return rval(*x[0]); }
std::int32_t cval_arrbox(std::size_t i) { return s_arrbox[i] ? v_arrbox(*s_arrbox[i]) : -1; }
void c_rput_arrbox(std::size_t i, std::size_t j) { rput_arrbox(j, pop_arrbox(i)); }
void c_rtake_arrbox(std::size_t i, std::size_t j) { s_arrbox[i].reset(); s_arrbox[i].emplace(rtake_arrbox(j)); }
void c_rignore_arrbox(std::size_t j) { rtake_arrbox(j); }
bool c_rtry_put_arrbox(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_arrbox(j, pop_arrbox(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_arrbox(std::size_t i, std::size_t j, std::int32_t mode) { try { std::array<rust::Box<RObj>, 2> x = rtry_take_arrbox(j, mode); s_arrbox[i].reset(); s_arrbox[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_arrbox(std::int32_t mode) { try { std::array<rust::Box<RObj>, 2> x = rtwo_arrbox(pop_arrbox(0), pop_arrbox(1), mode); s_arrbox[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_arrbox() { s_arrbox[1].emplace(rthree_arrbox(1, pop_arrbox(0), rust::String(ctext(2)), pop_arrbox(1), rust::Str("z"))); }
void c_rrepl_arrbox(std::size_t i, std::size_t j) { rrepl_arrbox(j, *s_arrbox[i]); }
bool c_rdeep_arrbox(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::array<rust::Box<RObj>, 2> x = rdeep_arrbox(pop_arrbox(i), d, mode); s_arrbox[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_arrbox(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_arrbox(j, pop_arrbox(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_arrbox(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::array<rust::Box<RObj>, 2> x = h.rhtake_arrbox(j, mode); s_arrbox[i].reset(); s_arrbox[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<std::array<Sh, 2>> s_arrsh[2];
static std::array<Sh, 2> pop_arrsh(std::size_t i) { std::array<Sh, 2> x = std::move(*s_arrsh[i]); s_arrsh[i].reset(); return x; }
void put_arrsh(std::size_t i, std::array<Sh, 2> x) { s_arrsh[i].reset(); s_arrsh[i].emplace(std::move(x)); }
std::array<Sh, 2> take_arrsh(std::size_t i) { return pop_arrsh(i); }
void try_put_arrsh(std::size_t i, std::array<Sh, 2> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_arrsh(i, std::move(x)); if (mode == 2) throw Ex(mode); }
std::array<Sh, 2> try_take_arrsh(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); std::array<Sh, 2> x = pop_arrsh(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_arrsh(std::size_t i, std::array<Sh, 2> x, std::int32_t mode) const { try_put_arrsh(i, std::move(x), mode); }
std::array<Sh, 2> Holder::htake_arrsh(std::size_t i, std::int32_t mode) { return try_take_arrsh(i, mode); }
std::array<Sh, 2> two_arrsh(std::array<Sh, 2> x, std::array<Sh, 2> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { std::array<Sh, 2> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
std::array<Sh, 2> three_arrsh(std::uint8_t a, std::array<Sh, 2> x, rust::String b, std::array<Sh, 2> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); std::array<Sh, 2> z = std::move(x); (void)z; return y; }
std::array<Sh, 2> cb_arrsh(rust::Fn<std::array<Sh, 2>(std::array<Sh, 2>)> f, std::array<Sh, 2> x) { return f(f(std::move(x))); }
std::array<Sh, 2> cb2_arrsh(rust::Fn<std::array<Sh, 2>(std::array<Sh, 2>, std::array<Sh, 2>)> f, std::array<Sh, 2> x, std::array<Sh, 2> y) { return f(std::move(x), std::move(y)); }
void repl_arrsh(std::size_t i, std::array<Sh, 2> &x) { std::array<Sh, 2> t = std::move(x); x = pop_arrsh(i); s_arrsh[i].emplace(std::move(t)); }
std::array<Sh, 2> deep_arrsh(std::array<Sh, 2> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_arrsh(std::move(x), d - 1, mode); }
void cnew_arrsh(std::size_t i, std::int32_t k) { s_arrsh[i].reset(); std::array<Sh, 2> x{{mksh(k), mksh(k)}}; s_arrsh[i].emplace(std::move(x)); }
void cdrop_arrsh(std::size_t i) { s_arrsh[i].reset(); }
static std::int32_t v_arrsh(const std::array<Sh, 2> &x) { return shval(x[1]); }
std::int32_t cval_arrsh(std::size_t i) { return s_arrsh[i] ? v_arrsh(*s_arrsh[i]) : -1; }
void c_rput_arrsh(std::size_t i, std::size_t j) { rput_arrsh(j, pop_arrsh(i)); }
void c_rtake_arrsh(std::size_t i, std::size_t j) { s_arrsh[i].reset(); s_arrsh[i].emplace(rtake_arrsh(j)); }
void c_rignore_arrsh(std::size_t j) { rtake_arrsh(j); }
bool c_rtry_put_arrsh(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_arrsh(j, pop_arrsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_arrsh(std::size_t i, std::size_t j, std::int32_t mode) { try { std::array<Sh, 2> x = rtry_take_arrsh(j, mode); s_arrsh[i].reset(); s_arrsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_arrsh(std::int32_t mode) { try { std::array<Sh, 2> x = rtwo_arrsh(pop_arrsh(0), pop_arrsh(1), mode); s_arrsh[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_arrsh() { s_arrsh[1].emplace(rthree_arrsh(1, pop_arrsh(0), rust::String(ctext(2)), pop_arrsh(1), rust::Str("z"))); }
void c_rrepl_arrsh(std::size_t i, std::size_t j) { rrepl_arrsh(j, *s_arrsh[i]); }
bool c_rdeep_arrsh(std::size_t i, std::int32_t d, std::int32_t mode) { try { std::array<Sh, 2> x = rdeep_arrsh(pop_arrsh(i), d, mode); s_arrsh[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_arrsh(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_arrsh(j, pop_arrsh(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_arrsh(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { std::array<Sh, 2> x = h.rhtake_arrsh(j, mode); s_arrsh[i].reset(); s_arrsh[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<Tracked> s_tracked[2];
static Tracked pop_tracked(std::size_t i) { Tracked x = std::move(*s_tracked[i]); s_tracked[i].reset(); return x; }
void put_tracked(std::size_t i, Tracked x) { s_tracked[i].reset(); s_tracked[i].emplace(std::move(x)); }
Tracked take_tracked(std::size_t i) { return pop_tracked(i); }
void try_put_tracked(std::size_t i, Tracked x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_tracked(i, std::move(x)); if (mode == 2) throw Ex(mode); }
Tracked try_take_tracked(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); Tracked x = pop_tracked(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_tracked(std::size_t i, Tracked x, std::int32_t mode) const { try_put_tracked(i, std::move(x), mode); }
Tracked Holder::htake_tracked(std::size_t i, std::int32_t mode) { return try_take_tracked(i, mode); }
Tracked two_tracked(Tracked x, Tracked y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { Tracked z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
Tracked three_tracked(std::uint8_t a, Tracked x, rust::String b, Tracked y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); Tracked z = std::move(x); (void)z; return y; }
Tracked cb_tracked(rust::Fn<Tracked(Tracked)> f, Tracked x) { return f(f(std::move(x))); }
Tracked cb2_tracked(rust::Fn<Tracked(Tracked, Tracked)> f, Tracked x, Tracked y) { return f(std::move(x), std::move(y)); }
void repl_tracked(std::size_t i, Tracked &x) { Tracked t = std::move(x); x = pop_tracked(i); s_tracked[i].emplace(std::move(t)); }
Tracked deep_tracked(Tracked x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_tracked(std::move(x), d - 1, mode); }
void cnew_tracked(std::size_t i, std::int32_t k) { s_tracked[i].reset(); Tracked x = Tracked(k); s_tracked[i].emplace(std::move(x)); }
void cdrop_tracked(std::size_t i) { s_tracked[i].reset(); }
static std::int32_t v_tracked(const Tracked &x) { return x.val; }
std::int32_t cval_tracked(std::size_t i) { return s_tracked[i] ? v_tracked(*s_tracked[i]) : -1; }
void c_rput_tracked(std::size_t i, std::size_t j) { rput_tracked(j, pop_tracked(i)); }
void c_rtake_tracked(std::size_t i, std::size_t j) { s_tracked[i].reset(); s_tracked[i].emplace(rtake_tracked(j)); }
void c_rignore_tracked(std::size_t j) { rtake_tracked(j); }
bool c_rtry_put_tracked(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_tracked(j, pop_tracked(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_tracked(std::size_t i, std::size_t j, std::int32_t mode) { try { Tracked x = rtry_take_tracked(j, mode); s_tracked[i].reset(); s_tracked[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_tracked(std::int32_t mode) { try { Tracked x = rtwo_tracked(pop_tracked(0), pop_tracked(1), mode); s_tracked[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_tracked() { s_tracked[1].emplace(rthree_tracked(1, pop_tracked(0), rust::String(ctext(2)), pop_tracked(1), rust::Str("z"))); }
void c_rrepl_tracked(std::size_t i, std::size_t j) { rrepl_tracked(j, *s_tracked[i]); }
bool c_rdeep_tracked(std::size_t i, std::int32_t d, std::int32_t mode) { try { Tracked x = rdeep_tracked(pop_tracked(i), d, mode); s_tracked[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_tracked(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_tracked(j, pop_tracked(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_tracked(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { Tracked x = h.rhtake_tracked(j, mode); s_tracked[i].reset(); s_tracked[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::Vec<Tracked>> s_vectr[2];
static rust::Vec<Tracked> pop_vectr(std::size_t i) { rust::Vec<Tracked> x = std::move(*s_vectr[i]); s_vectr[i].reset(); return x; }
void put_vectr(std::size_t i, rust::Vec<Tracked> x) { s_vectr[i].reset(); s_vectr[i].emplace(std::move(x)); }
rust::Vec<Tracked> take_vectr(std::size_t i) { return pop_vectr(i); }
void try_put_vectr(std::size_t i, rust::Vec<Tracked> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_vectr(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Vec<Tracked> try_take_vectr(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Vec<Tracked> x = pop_vectr(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_vectr(std::size_t i, rust::Vec<Tracked> x, std::int32_t mode) const { try_put_vectr(i, std::move(x), mode); }
rust::Vec<Tracked> Holder::htake_vectr(std::size_t i, std::int32_t mode) { return try_take_vectr(i, mode); }
rust::Vec<Tracked> two_vectr(rust::Vec<Tracked> x, rust::Vec<Tracked> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Vec<Tracked> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Vec<Tracked> three_vectr(std::uint8_t a, rust::Vec<Tracked> x, rust::String b, rust::Vec<Tracked> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Vec<Tracked> z = std::move(x); (void)z; return y; }
rust::Vec<Tracked> cb_vectr(rust::Fn<rust::Vec<Tracked>(rust::Vec<Tracked>)> f, rust::Vec<Tracked> x) { return f(f(std::move(x))); }
rust::Vec<Tracked> cb2_vectr(rust::Fn<rust::Vec<Tracked>(rust::Vec<Tracked>, rust::Vec<Tracked>)> f, rust::Vec<Tracked> x, rust::Vec<Tracked> y) { return f(std::move(x), std::move(y)); }
void repl_vectr(std::size_t i, rust::Vec<Tracked> &x) { rust::Vec<Tracked> t = std::move(x); x = pop_vectr(i); s_vectr[i].emplace(std::move(t)); }
rust::Vec<Tracked> deep_vectr(rust::Vec<Tracked> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_vectr(std::move(x), d - 1, mode); }
void cnew_vectr(std::size_t i, std::int32_t k) { s_vectr[i].reset(); rust::Vec<Tracked> x = mkvectr(k); s_vectr[i].emplace(std::move(x)); }
void cdrop_vectr(std::size_t i) { s_vectr[i].reset(); }
static std::int32_t v_vectr(const rust::Vec<Tracked> &x) { return x.size() == 1 ? x[0].val : -2; }
std::int32_t cval_vectr(std::size_t i) { return s_vectr[i] ? v_vectr(*s_vectr[i]) : -1; }
void c_rput_vectr(std::size_t i, std::size_t j) { rput_vectr(j, pop_vectr(i)); }
void c_rtake_vectr(std::size_t i, std::size_t j) { s_vectr[i].reset(); s_vectr[i].emplace(rtake_vectr(j)); }
void c_rignore_vectr(std::size_t j) { rtake_vectr(j); }
bool c_rtry_put_vectr(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_vectr(j, pop_vectr(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_vectr(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<Tracked> x = rtry_take_vectr(j, mode); s_vectr[i].reset(); s_vectr[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_vectr(std::int32_t mode) { try { rust::Vec<Tracked> x = rtwo_vectr(pop_vectr(0), pop_vectr(1), mode); s_vectr[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_vectr() { s_vectr[1].emplace(rthree_vectr(1, pop_vectr(0), rust::String(ctext(2)), pop_vectr(1), rust::Str("z"))); }
void c_rrepl_vectr(std::size_t i, std::size_t j) { rrepl_vectr(j, *s_vectr[i]); }
bool c_rdeep_vectr(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Vec<Tracked> x = rdeep_vectr(pop_vectr(i), d, mode); s_vectr[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_vectr(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_vectr(j, pop_vectr(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_vectr(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<Tracked> x = h.rhtake_vectr(j, mode); s_vectr[i].reset(); s_vectr[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::Box<Tracked>> s_boxtr[2];
static rust::Box<Tracked> pop_boxtr(std::size_t i) { rust::Box<Tracked> x = std::move(*s_boxtr[i]); s_boxtr[i].reset(); return x; }
void put_boxtr(std::size_t i, rust::Box<Tracked> x) { s_boxtr[i].reset(); s_boxtr[i].emplace(std::move(x)); }
rust::Box<Tracked> take_boxtr(std::size_t i) { return pop_boxtr(i); }
void try_put_boxtr(std::size_t i, rust::Box<Tracked> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_boxtr(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Box<Tracked> try_take_boxtr(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Box<Tracked> x = pop_boxtr(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_boxtr(std::size_t i, rust::Box<Tracked> x, std::int32_t mode) const { try_put_boxtr(i, std::move(x), mode); }
rust::Box<Tracked> Holder::htake_boxtr(std::size_t i, std::int32_t mode) { return try_take_boxtr(i, mode); }
rust::Box<Tracked> two_boxtr(rust::Box<Tracked> x, rust::Box<Tracked> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Box<Tracked> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Box<Tracked> three_boxtr(std::uint8_t a, rust::Box<Tracked> x, rust::String b, rust::Box<Tracked> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Box<Tracked> z = std::move(x); (void)z; return y; }
rust::Box<Tracked> cb_boxtr(rust::Fn<rust::Box<Tracked>(rust::Box<Tracked>)> f, rust::Box<Tracked> x) { return f(f(std::move(x))); }
rust::Box<Tracked> cb2_boxtr(rust::Fn<rust::Box<Tracked>(rust::Box<Tracked>, rust::Box<Tracked>)> f, rust::Box<Tracked> x, rust::Box<Tracked> y) { return f(std::move(x), std::move(y)); }
void repl_boxtr(std::size_t i, rust::Box<Tracked> &x) { rust::Box<Tracked> t = std::move(x); x = pop_boxtr(i); s_boxtr[i].emplace(std::move(t)); }
rust::Box<Tracked> deep_boxtr(rust::Box<Tracked> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_boxtr(std::move(x), d - 1, mode); }
void cnew_boxtr(std::size_t i, std::int32_t k) { s_boxtr[i].reset(); rust::Box<Tracked> x = rust::Box<Tracked>(Tracked(k)); s_boxtr[i].emplace(std::move(x)); }
void cdrop_boxtr(std::size_t i) { s_boxtr[i].reset(); }
static std::int32_t v_boxtr(const rust::Box<Tracked> &x) { return x->val; }
std::int32_t cval_boxtr(std::size_t i) { return s_boxtr[i] ? v_boxtr(*s_boxtr[i]) : -1; }
void c_rput_boxtr(std::size_t i, std::size_t j) { rput_boxtr(j, pop_boxtr(i)); }
void c_rtake_boxtr(std::size_t i, std::size_t j) { s_boxtr[i].reset(); s_boxtr[i].emplace(rtake_boxtr(j)); }
void c_rignore_boxtr(std::size_t j) { rtake_boxtr(j); }
bool c_rtry_put_boxtr(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_boxtr(j, pop_boxtr(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_boxtr(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Box<Tracked> x = rtry_take_boxtr(j, mode); s_boxtr[i].reset(); s_boxtr[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_boxtr(std::int32_t mode) { try { rust::Box<Tracked> x = rtwo_boxtr(pop_boxtr(0), pop_boxtr(1), mode); s_boxtr[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_boxtr() { s_boxtr[1].emplace(rthree_boxtr(1, pop_boxtr(0), rust::String(ctext(2)), pop_boxtr(1), rust::Str("z"))); }
void c_rrepl_boxtr(std::size_t i, std::size_t j) { rrepl_boxtr(j, *s_boxtr[i]); }
bool c_rdeep_boxtr(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Box<Tracked> x = rdeep_boxtr(pop_boxtr(i), d, mode); s_boxtr[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_boxtr(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_boxtr(j, pop_boxtr(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_boxtr(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Box<Tracked> x = h.rhtake_boxtr(j, mode); s_boxtr[i].reset(); s_boxtr[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<rust::Vec<rust::String>> s_vecstr[2];
static rust::Vec<rust::String> pop_vecstr(std::size_t i) { rust::Vec<rust::String> x = std::move(*s_vecstr[i]); s_vecstr[i].reset(); return x; }
void put_vecstr(std::size_t i, rust::Vec<rust::String> x) { s_vecstr[i].reset(); s_vecstr[i].emplace(std::move(x)); }
rust::Vec<rust::String> take_vecstr(std::size_t i) { return pop_vecstr(i); }
void try_put_vecstr(std::size_t i, rust::Vec<rust::String> x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_vecstr(i, std::move(x)); if (mode == 2) throw Ex(mode); }
rust::Vec<rust::String> try_take_vecstr(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); rust::Vec<rust::String> x = pop_vecstr(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_vecstr(std::size_t i, rust::Vec<rust::String> x, std::int32_t mode) const { try_put_vecstr(i, std::move(x), mode); }
rust::Vec<rust::String> Holder::htake_vecstr(std::size_t i, std::int32_t mode) { return try_take_vecstr(i, mode); }
rust::Vec<rust::String> two_vecstr(rust::Vec<rust::String> x, rust::Vec<rust::String> y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { rust::Vec<rust::String> z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
rust::Vec<rust::String> three_vecstr(std::uint8_t a, rust::Vec<rust::String> x, rust::String b, rust::Vec<rust::String> y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); rust::Vec<rust::String> z = std::move(x); (void)z; return y; }
rust::Vec<rust::String> cb_vecstr(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>)> f, rust::Vec<rust::String> x) { return f(f(std::move(x))); }
rust::Vec<rust::String> cb2_vecstr(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>, rust::Vec<rust::String>)> f, rust::Vec<rust::String> x, rust::Vec<rust::String> y) { return f(std::move(x), std::move(y)); }
void repl_vecstr(std::size_t i, rust::Vec<rust::String> &x) { rust::Vec<rust::String> t = std::move(x); x = pop_vecstr(i); s_vecstr[i].emplace(std::move(t)); }
rust::Vec<rust::String> deep_vecstr(rust::Vec<rust::String> x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_vecstr(std::move(x), d - 1, mode); }
void cnew_vecstr(std::size_t i, std::int32_t k) { s_vecstr[i].reset(); rust::Vec<rust::String> x = rust::Vec<rust::String>{rust::String(ctext(k)), rust::String(ctext(k))}; s_vecstr[i].emplace(std::move(x)); }
void cdrop_vecstr(std::size_t i) { s_vecstr[i].reset(); }
static std::int32_t v_vecstr(const rust::Vec<rust::String> &x) { return x.size() == 2 ? cpos(std::string(x[1])) : -2; }
std::int32_t cval_vecstr(std::size_t i) { return s_vecstr[i] ? v_vecstr(*s_vecstr[i]) : -1; }
void c_rput_vecstr(std::size_t i, std::size_t j) { rput_vecstr(j, pop_vecstr(i)); }
void c_rtake_vecstr(std::size_t i, std::size_t j) { s_vecstr[i].reset(); s_vecstr[i].emplace(rtake_vecstr(j)); }
void c_rignore_vecstr(std::size_t j) { rtake_vecstr(j); }
bool c_rtry_put_vecstr(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_vecstr(j, pop_vecstr(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_vecstr(std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<rust::String> x = rtry_take_vecstr(j, mode); s_vecstr[i].reset(); s_vecstr[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_vecstr(std::int32_t mode) { try { rust::Vec<rust::String> x = rtwo_vecstr(pop_vecstr(0), pop_vecstr(1), mode); s_vecstr[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_vecstr() { s_vecstr[1].emplace(rthree_vecstr(1, pop_vecstr(0), rust::String(ctext(2)), pop_vecstr(1), rust::Str("z"))); }
void c_rrepl_vecstr(std::size_t i, std::size_t j) { rrepl_vecstr(j, *s_vecstr[i]); }
bool c_rdeep_vecstr(std::size_t i, std::int32_t d, std::int32_t mode) { try { rust::Vec<rust::String> x = rdeep_vecstr(pop_vecstr(i), d, mode); s_vecstr[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_vecstr(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_vecstr(j, pop_vecstr(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_vecstr(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { rust::Vec<rust::String> x = h.rhtake_vecstr(j, mode); s_vecstr[i].reset(); s_vecstr[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<One> s_one[2];
static One pop_one(std::size_t i) { One x = std::move(*s_one[i]); s_one[i].reset(); return x; }
void put_one(std::size_t i, One x) { s_one[i].reset(); s_one[i].emplace(std::move(x)); }
One take_one(std::size_t i) { return pop_one(i); }
void try_put_one(std::size_t i, One x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_one(i, std::move(x)); if (mode == 2) throw Ex(mode); }
One try_take_one(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); One x = pop_one(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_one(std::size_t i, One x, std::int32_t mode) const { try_put_one(i, std::move(x), mode); }
One Holder::htake_one(std::size_t i, std::int32_t mode) { return try_take_one(i, mode); }
One two_one(One x, One y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { One z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
One three_one(std::uint8_t a, One x, rust::String b, One y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); One z = std::move(x); (void)z; return y; }
One cb_one(rust::Fn<One(One)> f, One x) { return f(f(std::move(x))); }
One cb2_one(rust::Fn<One(One, One)> f, One x, One y) { return f(std::move(x), std::move(y)); }
void repl_one(std::size_t i, One &x) { One t = std::move(x); x = pop_one(i); s_one[i].emplace(std::move(t)); }
One deep_one(One x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_one(std::move(x), d - 1, mode); }
void cnew_one(std::size_t i, std::int32_t k) { s_one[i].reset(); One x = One{mkrobj(k)}; s_one[i].emplace(std::move(x)); }
void cdrop_one(std::size_t i) { s_one[i].reset(); }
static std::int32_t v_one(const One &x) { return rval(*x.b); }
std::int32_t cval_one(std::size_t i) { return s_one[i] ? v_one(*s_one[i]) : -1; }
void c_rput_one(std::size_t i, std::size_t j) { rput_one(j, pop_one(i)); }
void c_rtake_one(std::size_t i, std::size_t j) { s_one[i].reset(); s_one[i].emplace(rtake_one(j)); }
void c_rignore_one(std::size_t j) { rtake_one(j); }
bool c_rtry_put_one(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_one(j, pop_one(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_one(std::size_t i, std::size_t j, std::int32_t mode) { try { One x = rtry_take_one(j, mode); s_one[i].reset(); s_one[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_one(std::int32_t mode) { try { One x = rtwo_one(pop_one(0), pop_one(1), mode); s_one[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_one() { s_one[1].emplace(rthree_one(1, pop_one(0), rust::String(ctext(2)), pop_one(1), rust::Str("z"))); }
void c_rrepl_one(std::size_t i, std::size_t j) { rrepl_one(j, *s_one[i]); }
bool c_rdeep_one(std::size_t i, std::int32_t d, std::int32_t mode) { try { One x = rdeep_one(pop_one(i), d, mode); s_one[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_one(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_one(j, pop_one(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_one(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { One x = h.rhtake_one(j, mode); s_one[i].reset(); s_one[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<OneT> s_onet[2];
static OneT pop_onet(std::size_t i) { OneT x = std::move(*s_onet[i]); s_onet[i].reset(); return x; }
void put_onet(std::size_t i, OneT x) { s_onet[i].reset(); s_onet[i].emplace(std::move(x)); }
OneT take_onet(std::size_t i) { return pop_onet(i); }
void try_put_onet(std::size_t i, OneT x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_onet(i, std::move(x)); if (mode == 2) throw Ex(mode); }
OneT try_take_onet(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); OneT x = pop_onet(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_onet(std::size_t i, OneT x, std::int32_t mode) const { try_put_onet(i, std::move(x), mode); }
OneT Holder::htake_onet(std::size_t i, std::int32_t mode) { return try_take_onet(i, mode); }
OneT two_onet(OneT x, OneT y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { OneT z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
OneT three_onet(std::uint8_t a, OneT x, rust::String b, OneT y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); OneT z = std::move(x); (void)z; return y; }
OneT cb_onet(rust::Fn<OneT(OneT)> f, OneT x) { return f(f(std::move(x))); }
OneT cb2_onet(rust::Fn<OneT(OneT, OneT)> f, OneT x, OneT y) { return f(std::move(x), std::move(y)); }
void repl_onet(std::size_t i, OneT &x) { OneT t = std::move(x); x = pop_onet(i); s_onet[i].emplace(std::move(t)); }
OneT deep_onet(OneT x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_onet(std::move(x), d - 1, mode); }
void cnew_onet(std::size_t i, std::int32_t k) { s_onet[i].reset(); OneT x = OneT{Tracked(k)}; s_onet[i].emplace(std::move(x)); }
void cdrop_onet(std::size_t i) { s_onet[i].reset(); }
static std::int32_t v_onet(const OneT &x) { return x.t.val; }
std::int32_t cval_onet(std::size_t i) { return s_onet[i] ? v_onet(*s_onet[i]) : -1; }
void c_rput_onet(std::size_t i, std::size_t j) { rput_onet(j, pop_onet(i)); }
void c_rtake_onet(std::size_t i, std::size_t j) { s_onet[i].reset(); s_onet[i].emplace(rtake_onet(j)); }
void c_rignore_onet(std::size_t j) { rtake_onet(j); }
bool c_rtry_put_onet(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_onet(j, pop_onet(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_onet(std::size_t i, std::size_t j, std::int32_t mode) { try { OneT x = rtry_take_onet(j, mode); s_onet[i].reset(); s_onet[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_onet(std::int32_t mode) { try { OneT x = rtwo_onet(pop_onet(0), pop_onet(1), mode); s_onet[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_onet() { s_onet[1].emplace(rthree_onet(1, pop_onet(0), rust::String(ctext(2)), pop_onet(1), rust::Str("z"))); }
void c_rrepl_onet(std::size_t i, std::size_t j) { rrepl_onet(j, *s_onet[i]); }
bool c_rdeep_onet(std::size_t i, std::int32_t d, std::int32_t mode) { try { OneT x = rdeep_onet(pop_onet(i), d, mode); s_onet[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_onet(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_onet(j, pop_onet(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_onet(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { OneT x = h.rhtake_onet(j, mode); s_onet[i].reset(); s_onet[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
static std::optional<Nest> s_nest[2];
static Nest pop_nest(std::size_t i) { Nest x = std::move(*s_nest[i]); s_nest[i].reset(); return x; }
void put_nest(std::size_t i, Nest x) { s_nest[i].reset(); s_nest[i].emplace(std::move(x)); }
Nest take_nest(std::size_t i) { return pop_nest(i); }
void try_put_nest(std::size_t i, Nest x, std::int32_t mode) { if (mode == 1) throw Ex(mode); put_nest(i, std::move(x)); if (mode == 2) throw Ex(mode); }
Nest try_take_nest(std::size_t i, std::int32_t mode) { if (mode == 1) throw Ex(mode); Nest x = pop_nest(i); if (mode == 2) throw Ex(mode); return x; }
void Holder::hput_nest(std::size_t i, Nest x, std::int32_t mode) const { try_put_nest(i, std::move(x), mode); }
Nest Holder::htake_nest(std::size_t i, std::int32_t mode) { return try_take_nest(i, mode); }
Nest two_nest(Nest x, Nest y, std::int32_t mode) { if (mode == 1) throw Ex(mode); if (mode == 2) { Nest z = std::move(y); throw Ex(mode); } if (mode == 3) return y; return x; }
Nest three_nest(std::uint8_t a, Nest x, rust::String b, Nest y, rust::Str c) { if (a != 1 || cpos(std::string(b)) != 2 || c.size() != 1) std::terminate(); Nest z = std::move(x); (void)z; return y; }
Nest cb_nest(rust::Fn<Nest(Nest)> f, Nest x) { return f(f(std::move(x))); }
Nest cb2_nest(rust::Fn<Nest(Nest, Nest)> f, Nest x, Nest y) { return f(std::move(x), std::move(y)); }
void repl_nest(std::size_t i, Nest &x) { Nest t = std::move(x); x = pop_nest(i); s_nest[i].emplace(std::move(t)); }
Nest deep_nest(Nest x, std::int32_t d, std::int32_t mode) { if (d == 0) { if (mode) throw Ex(mode); return x; } return rdeep_nest(std::move(x), d - 1, mode); }
void cnew_nest(std::size_t i, std::int32_t k) { s_nest[i].reset(); Nest x = mknest(k); s_nest[i].emplace(std::move(x)); }
void cdrop_nest(std::size_t i) { s_nest[i].reset(); }
static std::int32_t v_nest(const Nest &x) { return x.n == x.t.val && shval(x.x) == x.t.val && rval(*x.o.b) == x.t.val ? cpos(std::string(x.y[1])) : -2; }
std::int32_t cval_nest(std::size_t i) { return s_nest[i] ? v_nest(*s_nest[i]) : -1; }
void c_rput_nest(std::size_t i, std::size_t j) { rput_nest(j, pop_nest(i)); }
void c_rtake_nest(std::size_t i, std::size_t j) { s_nest[i].reset(); s_nest[i].emplace(rtake_nest(j)); }
void c_rignore_nest(std::size_t j) { rtake_nest(j); }
bool c_rtry_put_nest(std::size_t i, std::size_t j, std::int32_t mode) { try { rtry_put_nest(j, pop_nest(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rtry_take_nest(std::size_t i, std::size_t j, std::int32_t mode) { try { Nest x = rtry_take_nest(j, mode); s_nest[i].reset(); s_nest[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
bool c_rtwo_nest(std::int32_t mode) { try { Nest x = rtwo_nest(pop_nest(0), pop_nest(1), mode); s_nest[0].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
void c_rthree_nest() { s_nest[1].emplace(rthree_nest(1, pop_nest(0), rust::String(ctext(2)), pop_nest(1), rust::Str("z"))); }
void c_rrepl_nest(std::size_t i, std::size_t j) { rrepl_nest(j, *s_nest[i]); }
bool c_rdeep_nest(std::size_t i, std::int32_t d, std::int32_t mode) { try { Nest x = rdeep_nest(pop_nest(i), d, mode); s_nest[i].emplace(std::move(x)); return true; } catch (const std::exception &) { return false; } }
bool c_rhput_nest(const RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { h.rhput_nest(j, pop_nest(i), mode); return true; } catch (const rust::Error &) { return false; } }
bool c_rhtake_nest(RHolder &h, std::size_t i, std::size_t j, std::int32_t mode) { try { Nest x = h.rhtake_nest(j, mode); s_nest[i].reset(); s_nest[i].emplace(std::move(x)); return true; } catch (const rust::Error &) { return false; } }
} // namespace c10
