#pragma once
// C04: slices over every kind of element and source; iterators as a transition
// system over positions.
#include "rt/src/c04.rs.h"
#include "rust/cxx.h"
#include "sys.hpp"
#include <algorithm>
#include <array>
#include <numeric>
#include <stdexcept>
using namespace vk;
namespace c04 {
template <typename T>
struct Tr;
#define TR(T, n, MK, VAL, SET, COMPLETE)                                       \
  template <>                                                                  \
  struct Tr<T> {                                                               \
    static constexpr bool complete = COMPLETE;                                 \
    static int val(const T &x) { return VAL; }                                 \
    static void set(T &x, int k) { SET; }                                      \
    static Look look(rust::Slice<const T> s) { return look_##n(s); }           \
    static void poke(rust::Slice<T> s, std::size_t i, int k) {                 \
      poke_##n(s, i, k);                                                       \
    }                                                                          \
    static rust::Slice<const T> sub(rust::Slice<const T> s, std::size_t a,     \
                                    std::size_t b) {                           \
      return sub_##n(s, a, b);                                                 \
    }                                                                          \
    static rust::Slice<T> submut(rust::Slice<T> s, std::size_t a,              \
                                 std::size_t b) {                              \
      return submut_##n(s, a, b);                                              \
    }                                                                          \
    static rust::Vec<T> vec(std::size_t c) { return vec_##n(c); }              \
    MK                                                                         \
  };
#define MK(T, e)                                                               \
  static T mk(int k) { return e; }
TR(std::uint8_t, u8, MK(std::uint8_t, std::uint8_t(k)), x, x = k, true)
TR(std::uint16_t, u16, MK(std::uint16_t, std::uint16_t(k)), x, x = k, true)
TR(std::uint64_t, u64, MK(std::uint64_t, std::uint64_t(k)), int(x), x = k, true)
TR(float, f32, MK(float, float(k)), int(x), x = float(k), true)
TR(bool, bool, MK(bool, (k & 1) == 1), x, x = k & 1, true)
TR(P3, p3, MK(P3, (P3{std::uint8_t(k), std::uint8_t(k), std::uint8_t(k)})),
   x.a == x.b && x.b == x.c ? x.a : -1, x.a = x.b = x.c = k, true)
TR(P24, p24,
   MK(P24, (P24{std::uint64_t(k), std::uint8_t(k), std::uint64_t(k)})),
   x.a == x.c && x.b == x.a ? int(x.a) : -1, (x.a = x.c = k, x.b = k), true)
TR(rust::String, string, MK(rust::String, std::string(k, 'x')), int(x.size()),
   x = rust::String(std::string(k, 'x')), true)
TR(Sh, sh, MK(Sh, (Sh{std::string(k, 'x'), k})),
   int(x.s.size()) == x.n ? x.n : -1,
   (x.s = rust::String(std::string(k, 'x')), x.n = k), true)
TR(En, en, MK(En, static_cast<En>(k)), int(x), x = static_cast<En>(k), true)
TR(Op, op, , x.val(), x.set(k), false)
TR(Big, big, , x.val(), x.set(k), false)
TR(Zst, zst, , x.val(), x.set(k), false)
TR(ZstA, zsta, , x.val(), x.set(k), false)
template <typename T>
constexpr bool is_zst =
    std::is_same<T, Zst>::value || std::is_same<T, ZstA>::value;
template <typename T>
int nth(std::size_t i) { // value rust::vec puts at i
  int k = int(i % 7) + 1;
  if (is_zst<T>)
    return 7;
  return std::is_same<T, bool>::value ? (k & 1) : k;
}

// ---- full agreement of a slice with (address, length, values)
template <typename E>
void agree(const rust::Slice<E> &s, const std::vector<int> &m) {
  using T = typename std::remove_const<E>::type;
  using R = Tr<T>;
  auto n = m.size();
  CHECK(s.size() == n && s.length() == n && s.empty() == (n == 0));
  CHECK(s.data() != nullptr);
  for (std::size_t i = 0; i < n; i++) {
    CHECK(R::val(s[i]) == m[i]);
    CHECK(&s[i] == &s.at(i));
    if constexpr (R::complete)
      CHECK(&s[i] == s.data() + i);
  }
  for (std::size_t j : {n, n + 1, n + 7, SIZE_MAX / 2, SIZE_MAX}) {
    bool threw = false;
    try {
      (void)s.at(j);
    } catch (const std::out_of_range &) {
      threw = true;
    }
    CHECK(threw);
  }
  if (n) {
    CHECK(&s.front() == &s[0] && &s.back() == &s[n - 1]);
  }
  std::size_t k = 0;
  for (auto &e : s) {
    CHECK(k < n && R::val(e) == m[k]);
    if constexpr (!is_zst<T>)
      CHECK(&e == &s[k]);
    k++;
  }
  CHECK(k == n);
  CHECK(std::size_t(s.end() - s.begin()) == n);
  CHECK((s.begin() == s.end()) == (n == 0));
  rust::Slice<const T> c(s.data(), s.size());
  auto l = R::look(c);
  std::int64_t sum = 0;
  for (std::size_t i = 0; i < n; i++)
    sum += std::int64_t(i + 1) * m[i];
  CHECK(l.ok && l.len == n && l.sum == sum);
  CHECK(n == 0 || l.addr == reinterpret_cast<std::uintptr_t>(s.data()));
}

// ---- system 1: slice values over sources
template <typename T>
struct S : Sys {
  using R = Tr<T>;
  rust::Vec<T> v; // the owner
  std::vector<int> m;
  rust::Slice<T> w; // a mutable view of v[a..b)
  rust::Slice<const T> c;
  std::size_t wa = 0, wb = 0, ca = 0, cb = 0;
  S() : v(R::vec(4)) {
    for (int i = 0; i < 4; i++)
      m.push_back(nth<T>(i));
  }
  std::vector<int> sub(std::size_t a, std::size_t b) {
    return std::vector<int>(m.begin() + a, m.begin() + b);
  }
  void check() override {
    agree(w, sub(wa, wb));
    agree(c, sub(ca, cb));
    agree(rust::Slice<const T>(v.data(), v.size()), m);
    if (wa != wb)
      CHECK(&w[0] == &v[wa]);
    if (ca != cb)
      CHECK(&c[0] == &v[ca]);
  }
  void key(std::string &k) override {
    for (auto x : m)
      k += std::to_string(x) + ",";
    for (auto x : {wa, wb, ca, cb})
      k += std::to_string(x) + ";";
  }
};
template <typename T>
void build(Def &d, const char *name) {
  using X = S<T>;
  using R = Tr<T>;
  d.name = std::string("slice-") + name;
  d.make = [] { return std::unique_ptr<Sys>(new X()); };
  auto O = [&](std::string n, std::function<void(X &)> f) {
    d.op(std::move(n), [f](Sys &s) { f(static_cast<X &>(s)); });
  };
  O("w = Slice()", [](X &o) {
    o.w = rust::Slice<T>();
    o.wa = o.wb = 0;
  });
  O("c = Slice(nullptr,0)", [](X &o) {
    o.c = rust::Slice<const T>(nullptr, 0);
    o.ca = o.cb = 0;
  });
  O("w = Slice(v)", [](X &o) {
    o.w = rust::Slice<T>(o.v);
    o.wa = 0;
    o.wb = 4;
  });
  O("c = Slice(const v)", [](X &o) {
    const rust::Vec<T> &cv = o.v;
    o.c = rust::Slice<const T>(cv);
    o.ca = 0;
    o.cb = 4;
  });
  O("w = Slice(&v[1],2)", [](X &o) {
    o.w = rust::Slice<T>(&o.v[1], 2);
    o.wa = 1;
    o.wb = 3;
  });
  O("c = Slice(&v[2],0)", [](X &o) {
    o.c = rust::Slice<const T>(&o.v[2], 0);
    o.ca = o.cb = 0;
  });
  O("w = rust sub(w,..)", [](X &o) {
    REQUIRE(o.wb - o.wa >= 1);
    auto t = R::submut(std::move(o.w), 1, o.wb - o.wa);
    o.w = std::move(t);
    o.wa++;
  });
  O("w = rust sub(w, 0, len-1)", [](X &o) {
    REQUIRE(o.wb - o.wa >= 1);
    o.w = R::submut(std::move(o.w), 0, o.wb - o.wa - 1);
    o.wb--;
  });
  O("c = rust sub(c, len-1, len)", [](X &o) {
    REQUIRE(o.cb - o.ca >= 1);
    o.c = R::sub(o.c, o.cb - o.ca - 1, o.cb - o.ca);
    o.ca = o.cb - 1;
  });
  O("c = copy of c", [](X &o) {
    rust::Slice<const T> t(o.c);
    o.c = t;
  });
  O("c = Slice<const>(w)", [](X &o) {
    o.c = rust::Slice<const T>(o.w);
    o.ca = o.wa;
    o.cb = o.wb;
  });
  O("w swapped with full slice twice", [](X &o) {
    rust::Slice<T> t(o.v);
    t.swap(o.w);
    agree(o.w, o.m);
    agree(t, o.sub(o.wa, o.wb));
    o.w.swap(t);
  });
  O("c swapped with full const slice", [](X &o) {
    const rust::Vec<T> &cv = o.v;
    rust::Slice<const T> t(cv);
    t.swap(o.c);
    agree(t, o.sub(o.ca, o.cb));
    o.ca = 0;
    o.cb = 4;
  });
  O("w[0] = 5 from C++", [](X &o) {
    REQUIRE(o.wb > o.wa && !is_zst<T>);
    R::set(o.w[0], 5);
    o.m[o.wa] = std::is_same<T, bool>::value ? 1 : 5;
  });
  O("w.back() = 2 from C++", [](X &o) {
    REQUIRE(o.wb > o.wa && !is_zst<T>);
    R::set(o.w.back(), 2);
    o.m[o.wb - 1] = std::is_same<T, bool>::value ? 0 : 2;
  });
  O("w[last] = 3 from Rust", [](X &o) {
    REQUIRE(o.wb > o.wa && !is_zst<T>);
    R::poke(rust::Slice<T>(o.w.data(), o.w.size()), o.wb - o.wa - 1, 3);
    o.m[o.wb - 1] = std::is_same<T, bool>::value ? 1 : 3;
  });
  if constexpr (R::complete) {
    O("reverse w", [](X &o) {
      std::reverse(o.w.begin(), o.w.end());
      std::reverse(o.m.begin() + o.wa, o.m.begin() + o.wb);
    });
    O("rotate w", [](X &o) {
      REQUIRE(o.wb - o.wa >= 2);
      std::rotate(o.w.begin(), o.w.begin() + 1, o.w.end());
      std::rotate(o.m.begin() + o.wa, o.m.begin() + o.wa + 1,
                  o.m.begin() + o.wb);
    });
    O("sort w by value", [](X &o) {
      std::sort(o.w.begin(), o.w.end(),
                [](const T &a, const T &b) { return R::val(a) < R::val(b); });
      std::sort(o.m.begin() + o.wa, o.m.begin() + o.wb);
    });
    O("slices of std::vector, std::array", [](X &) {
      for (std::size_t n = 0; n < 5; n++) {
        std::vector<int> m;
        if constexpr (!std::is_same<T, bool>::value) {
          std::vector<T> sv;
          for (std::size_t i = 0; i < n; i++) {
            sv.push_back(R::mk(int(i) + 1));
            m.push_back(int(i) + 1);
          }
          rust::Slice<T> a(sv);
          agree(a, m);
          const auto &csv = sv;
          rust::Slice<const T> b(csv);
          agree(b, m);
          rust::Slice dd{csv};
          static_assert(
              std::is_same<decltype(dd), rust::Slice<const T>>::value, "");
          rust::Slice ee{sv};
          static_assert(std::is_same<decltype(ee), rust::Slice<T>>::value, "");
          CHECK(n == 0 || &a[0] == sv.data());
        }
      }
      std::array<T, 3> ar{{R::mk(1), R::mk(1), R::mk(1)}};
      rust::Slice<T> a(ar);
      agree(a, {1, 1, 1});
      CHECK(&a[0] == ar.data());
    });
  }
}

// ---- system 2: two iterators over a sequence of n elements
template <typename T, typename C>
struct I : Sys {
  using It = decltype(std::declval<C &>().begin());
  C v;
  std::ptrdiff_t n, p = 0, q = 0;
  It a, b;
  I(C c, std::size_t n)
      : v(std::move(c)), n(std::ptrdiff_t(n)), a(v.begin()), b(v.begin()) {}
  void check() override {
    using R = Tr<T>;
    CHECK(a - b == p - q && b - a == q - p && a - a == 0);
    CHECK((a == b) == (p == q) && (a != b) == (p != q));
    CHECK((a < b) == (p < q) && (a <= b) == (p <= q));
    CHECK((a > b) == (p > q) && (a >= b) == (p >= q));
    CHECK((a == v.begin()) == (p == 0) && (a == v.end()) == (p == n));
    CHECK(v.end() - a == n - p && a - v.begin() == p);
    CHECK(a + (q - p) == b && b - (q - p) == a && (q - p) + a == b);
    if (p < n) {
      CHECK(R::val(*a) == nth<T>(p));
      CHECK(a.operator->() == &*a);
      if constexpr (!is_zst<T>)
        CHECK(&*a == &v[std::size_t(p)]);
    }
    for (std::ptrdiff_t k = -p; k < n - p; k++) {
      CHECK(R::val(a[k]) == nth<T>(p + k));
      CHECK(&a[k] == &*(a + k));
      CHECK(&*(a - (-k)) == &a[k]);
    }
    CHECK(std::distance(a, v.end()) == n - p);
  }
  void key(std::string &k) override {
    k = std::to_string(p) + "," + std::to_string(q);
  }
};
template <typename T, typename C>
void build_it(Def &d, const char *kind, const char *name, std::size_t n,
              C (*make)(std::size_t)) {
  using X = I<T, C>;
  d.name = std::string("iter-") + kind + "-" + name + "-" + std::to_string(n);
  d.make = [=] { return std::unique_ptr<Sys>(new X(make(n), n)); };
  auto O = [&](std::string nm, std::function<void(X &)> f) {
    d.op(std::move(nm), [f](Sys &s) { f(static_cast<X &>(s)); });
  };
  O("++a", [](X &o) {
    REQUIRE(o.p < o.n);
    auto &r = ++o.a;
    CHECK(&r == &o.a);
    o.p++;
  });
  O("a++", [](X &o) {
    REQUIRE(o.p < o.n);
    auto old = o.a;
    CHECK(o.a++ == old);
    o.p++;
  });
  O("--a", [](X &o) {
    REQUIRE(o.p > 0);
    auto &r = --o.a;
    CHECK(&r == &o.a);
    o.p--;
  });
  O("a--", [](X &o) {
    REQUIRE(o.p > 0);
    auto old = o.a;
    CHECK(o.a-- == old);
    o.p--;
  });
  for (int k : {-3, -2, -1, 0, 1, 2, 3}) {
    auto K = std::to_string(k);
    O("a += " + K, [=](X &o) {
      REQUIRE(o.p + k >= 0 && o.p + k <= o.n);
      auto &r = (o.a += k);
      CHECK(&r == &o.a);
      o.p += k;
    });
    O("a -= " + K, [=](X &o) {
      REQUIRE(o.p - k >= 0 && o.p - k <= o.n);
      auto &r = (o.a -= k);
      CHECK(&r == &o.a);
      o.p -= k;
    });
    O("a = a + " + K, [=](X &o) {
      REQUIRE(o.p + k >= 0 && o.p + k <= o.n);
      o.a = o.a + k;
      o.p += k;
    });
    O("a = " + K + " + a", [=](X &o) {
      REQUIRE(o.p + k >= 0 && o.p + k <= o.n);
      o.a = k + o.a;
      o.p += k;
    });
    O("a = a - " + K, [=](X &o) {
      REQUIRE(o.p - k >= 0 && o.p - k <= o.n);
      o.a = o.a - k;
      o.p -= k;
    });
  }
  O("swap(a,b)", [](X &o) {
    std::swap(o.a, o.b);
    std::swap(o.p, o.q);
  });
  O("b = a", [](X &o) {
    o.b = o.a;
    o.q = o.p;
  });
  O("a = end", [](X &o) {
    o.a = o.v.end();
    o.p = o.n;
  });
}
template <typename T>
struct Owned { // a slice together with its owner
  rust::Vec<T> v;
  rust::Slice<T> begin_() { return rust::Slice<T>(v); }
  auto begin() { return rust::Slice<T>(v).begin(); }
  auto end() { return rust::Slice<T>(v).end(); }
  T &operator[](std::size_t i) { return v[i]; }
};
template <typename T>
struct COwned {
  rust::Vec<T> v;
  auto begin() { return v.cbegin(); }
  auto end() { return v.cend(); }
  const T &operator[](std::size_t i) { return v[i]; }
};
#define ALL(T, n)                                                              \
  static Reg r_##n([](Def &d) { build<T>(d, #n); });                           \
  static Reg i0_##n([](Def &d) {                                               \
    build_it<T, rust::Vec<T>>(d, "vec", #n, 4,                                 \
                              [](std::size_t k) { return Tr<T>::vec(k); });    \
  });                                                                          \
  static Reg i1_##n([](Def &d) {                                               \
    build_it<T, Owned<T>>(d, "slice", #n, 3, [](std::size_t k) {               \
      return Owned<T>{Tr<T>::vec(k)};                                          \
    });                                                                        \
  });                                                                          \
  static Reg i2_##n([](Def &d) {                                               \
    build_it<T, COwned<T>>(d, "cslice", #n, 0, [](std::size_t k) {             \
      return COwned<T>{Tr<T>::vec(k)};                                         \
    });                                                                        \
  });                                                                          \
  static Reg i3_##n([](Def &d) {                                               \
    build_it<T, COwned<T>>(d, "cslice", #n, 5, [](std::size_t k) {             \
      return COwned<T>{Tr<T>::vec(k)};                                         \
    });                                                                        \
  });
#if PART == 1
ALL(std::uint8_t, u8)
ALL(std::uint16_t, u16)
ALL(std::uint64_t, u64)
ALL(float, f32)
ALL(bool, bool)
#elif PART == 2
ALL(P3, p3)
ALL(P24, p24)
ALL(rust::String, string)
ALL(Sh, sh)
ALL(En, en)
#else
ALL(Op, op)
ALL(Big, big)
ALL(Zst, zst)
ALL(ZstA, zsta)
#endif
} // namespace c04
