// Template of the rust::Vec<T> exploration, one instance per element type.
#pragma once
#include "rt/src/c03.rs.h"
#include "sys.hpp"
#include <algorithm>
#include <stdexcept>
namespace c03 {
extern bool ledger_bad;
extern std::int64_t tracked_live;
using namespace vk;
inline const char *texts[] = {
    "", "one", "the second text is longer than any small buffer", "3"};
inline int untext(rust::Str s) {
  for (int i = 0; i < 4; i++)
    if (s == rust::Str(texts[i]))
      return i;
  return -1;
}
template <typename T>
struct Tr; // mk(k), val(const T&), set(T&,k), rust helpers
#define RUST_HELPERS(T, n)                                                     \
  static void push(rust::Vec<T> &v, int k) { push_##n(v, k); }                 \
  static int pop(rust::Vec<T> &v) { return pop_##n(v); }                       \
  static rust::Vec<T> echo(rust::Vec<T> v) { return echo_##n(std::move(v)); }  \
  static int rat(const rust::Vec<T> &v, std::size_t i) { return at_##n(v, i); } \
  static rust::Vec<T> many(std::size_t n_) { return make_##n(n_); }            \
  static std::size_t rlen(const rust::Vec<T> &v) { return len_##n(v); }
#define PRIM(T, n)                                                             \
  template <>                                                                  \
  struct Tr<T> {                                                               \
    static constexpr bool copy = true, complete = true, thr = false;           \
    static T mk(int k) { return static_cast<T>(k); }                           \
    static int val(const T &x) { return static_cast<int>(x); }                 \
    static void set(T &x, int k) { x = static_cast<T>(k); }                    \
    RUST_HELPERS(T, n)                                                         \
  };
template <typename T>
struct S : Sys {
  rust::Vec<T> v[2];
  std::vector<int> m[2];
  std::size_t mincap[2] = {0, 0};
  std::int64_t objs0 = rust_objs(), tr0 = tracked_live;
  S() { ledger_bad = false; }
  void check() override {
    using R = Tr<T>;
    CHECK(!ledger_bad);
    for (int i = 0; i < 2; i++) {
      auto &x = v[i];
      const rust::Vec<T> &c = x;
      auto n = m[i].size();
      CHECK(c.size() == n);
      CHECK(c.empty() == (n == 0));
      CHECK(c.capacity() >= n);
      CHECK(c.capacity() >= mincap[i]);
      CHECK(R::rlen(c) == n);
      std::size_t k = 0;
      for (auto &e : c) {
        CHECK(k < n && R::val(e) == m[i][k]);
        CHECK(&e == &c[k] && &e == &x[k] && &e == &c.at(k) && &e == &x.at(k));
        CHECK(R::rat(c, k) == m[i][k]);
        if constexpr (R::complete)
          CHECK(&e == c.data() + k && &e == x.data() + k);
        k++;
      }
      CHECK(k == n);
      CHECK(static_cast<std::size_t>(x.end() - x.begin()) == n);
      CHECK(static_cast<std::size_t>(c.cend() - c.cbegin()) == n);
      k = 0;
      for (auto it = x.begin(); it != x.end(); ++it, ++k)
        CHECK(R::val(*it) == m[i][k]);
      if (n) {
        CHECK(R::val(c.front()) == m[i].front() &&
              R::val(x.front()) == m[i].front());
        CHECK(R::val(c.back()) == m[i].back() &&
              R::val(x.back()) == m[i].back());
      }
      for (std::size_t j : {n, n + 1, SIZE_MAX}) {
        int threw = 0;
        try {
          (void)c.at(j);
        } catch (const std::out_of_range &) {
          threw++;
        }
        try {
          (void)x.at(j);
        } catch (const std::out_of_range &) {
          threw++;
        }
        CHECK(threw == 2);
      }
    }
    std::size_t objs = 0;
    if constexpr (std::is_same<T, Tracked>::value)
      CHECK(tracked_live - tr0 ==
            static_cast<std::int64_t>(m[0].size() + m[1].size()));
    if constexpr (!R::copy)
      objs = m[0].size() + m[1].size();
    CHECK(rust_objs() - objs0 == static_cast<std::int64_t>(objs));
  }
  void key(std::string &k) override {
    for (int i = 0; i < 2; i++) {
      for (int x : m[i])
        k += std::to_string(x);
      k += "," + std::to_string(v[i].capacity()) + "," +
           std::to_string(mincap[i]) + "|";
    }
  }
  ~S() override {}
};
template <typename T>
void build(Def &d, const char *name) {
  using R = Tr<T>;
  using X = S<T>;
  constexpr std::size_t MAX = 5;
  d.name = std::string("vec-") + name;
  d.make = [] { return std::unique_ptr<Sys>(new X()); };
  auto x = [](Sys &s) -> X & { return static_cast<X &>(s); };
  auto O = [&](std::string n, std::function<void(X &)> f) {
    d.op(std::move(n), [f, x](Sys &s) { f(x(s)); });
  };
  for (int i = 0; i < 2; i++) {
    int j = 1 - i;
    std::string N = i ? "B" : "A", M = i ? "A" : "B";
    O(N + ".rust_push(1)", [=](X &o) {
      REQUIRE(o.m[i].size() < MAX);
      R::push(o.v[i], 1);
      o.m[i].push_back(1);
    });
    O(N + " = move " + M, [=](X &o) {
      o.v[i] = std::move(o.v[j]);
      o.m[i] = std::move(o.m[j]);
      o.m[j].clear();
      o.mincap[i] = o.mincap[j];
      o.mincap[j] = 0;
    });
    O(N + ".clear()", [=](X &o) {
      o.v[i].clear();
      o.m[i].clear();
    });
    if constexpr (R::complete)
      O(N + ".push_back(T(2))", [=](X &o) {
        REQUIRE(o.m[i].size() < MAX);
        o.v[i].push_back(R::mk(2));
        o.m[i].push_back(2);
      });
    if constexpr (R::copy)
      O(N + " = copy of " + M, [=](X &o) {
        o.v[i] = o.v[j];
        o.m[i] = o.m[j];
        o.mincap[i] = 0;
      });
    if (i)
      continue;
    // the rest on A only
    O("A.rust_pop()", [=](X &o) {
      REQUIRE(!o.m[i].empty());
      CHECK(R::pop(o.v[i]) == o.m[i].back());
      o.m[i].pop_back();
    });
    O("A = rust echo(move A)", [=](X &o) {
      auto t = R::echo(std::move(o.v[i]));
      CHECK(o.v[i].empty());
      o.v[i] = std::move(t);
    });
    O("A = from rust with 3", [=](X &o) {
      o.v[i] = R::many(3);
      o.m[i] = {1, 2, 3};
      o.mincap[i] = 0;
    });
    O("A = Vec()", [=](X &o) {
      o.v[i] = rust::Vec<T>();
      o.m[i].clear();
      o.mincap[i] = 0;
    });
    O("A = move A", [=](X &o) {
      auto &r = o.v[i];
      o.v[i] = std::move(r);
      if (o.v[i].empty()) {
        o.m[i].clear();
        o.mincap[i] = 0;
      }
    });
    O("move-construct from A", [=](X &o) {
      rust::Vec<T> t(std::move(o.v[i]));
      CHECK(o.v[i].size() == 0 && t.size() == o.m[i].size());
      o.v[i] = std::move(t);
    });
    for (int k : {0, 1, 2})
      O("A.truncate(" + std::to_string(k) + ")", [=](X &o) {
        o.v[i].truncate(k);
        if (o.m[i].size() > std::size_t(k))
          o.m[i].resize(k);
      });
    O("A.truncate(size+3)",
      [=](X &o) { o.v[i].truncate(o.v[i].size() + 3); });
    O("A.reserve(size+1)", [=](X &o) {
      auto w = o.v[i].size() + 1;
      o.v[i].reserve(w);
      CHECK(o.v[i].capacity() >= w);
      o.mincap[i] = std::max(o.mincap[i], w);
    });
    O("A.reserve(9)", [=](X &o) {
      o.v[i].reserve(9);
      CHECK(o.v[i].capacity() >= 9);
      o.mincap[i] = std::max<std::size_t>(o.mincap[i], 9);
    });
    O("A.reserve(0)", [=](X &o) { o.v[i].reserve(0); });
    O("A.swap(B)", [=](X &o) {
      o.v[0].swap(o.v[1]);
      std::swap(o.m[0], o.m[1]);
      std::swap(o.mincap[0], o.mincap[1]);
    });
    O("swap(B,A)", [=](X &o) {
      using std::swap;
      swap(o.v[1], o.v[0]);
      std::swap(o.m[0], o.m[1]);
      std::swap(o.mincap[0], o.mincap[1]);
    });
    O("set A[last]=3", [=](X &o) {
      REQUIRE(!o.m[i].empty());
      R::set(o.v[i][o.m[i].size() - 1], 3);
      o.m[i].back() = 3;
    });
    O("set through A iterator", [=](X &o) {
      REQUIRE(!o.m[i].empty());
      R::set(*o.v[i].begin(), 3);
      o.m[i].front() = 3;
    });
    if constexpr (R::complete) {
      O("A.push_back(move T(3))", [=](X &o) {
        REQUIRE(o.m[i].size() < MAX);
        T t(R::mk(3));
        o.v[i].push_back(std::move(t));
        o.m[i].push_back(3);
      });
      O("A.emplace_back(T(1))", [=](X &o) {
        REQUIRE(o.m[i].size() < MAX);
        o.v[i].emplace_back(R::mk(1));
        o.m[i].push_back(1);
      });
      O("std::reverse(A)", [=](X &o) {
        std::reverse(o.v[i].begin(), o.v[i].end());
        std::reverse(o.m[i].begin(), o.m[i].end());
      });
      O("A.at(0) = T(2)", [=](X &o) {
        REQUIRE(!o.m[i].empty());
        o.v[i].at(0) = R::mk(2);
        o.m[i][0] = 2;
      });
    }
    if constexpr (R::copy) {
      O("A.push_back(const T&)", [=](X &o) {
        REQUIRE(o.m[i].size() < MAX);
        const T t(R::mk(3));
        o.v[i].push_back(t);
        CHECK(R::val(t) == 3);
        o.m[i].push_back(3);
      });
      O("A.push_back(A[0])", [=](X &o) {
        REQUIRE(!o.m[i].empty() && o.m[i].size() < MAX);
        o.v[i].push_back(o.v[i][0]);
        o.m[i].push_back(o.m[i][0]);
      });
      O("A.emplace_back(A.back())", [=](X &o) {
        REQUIRE(!o.m[i].empty() && o.m[i].size() < MAX);
        o.v[i].emplace_back(o.v[i].back());
        o.m[i].push_back(o.m[i].back());
      });
      O("A = A", [=](X &o) {
        auto &r = o.v[i];
        o.v[i] = r;
      });
      O("A = Vec(B) copy-constructed", [=](X &o) {
        rust::Vec<T> t(o.v[j]);
        o.v[i] = std::move(t);
        CHECK(t.empty());
        o.m[i] = o.m[j];
        o.mincap[i] = 0;
      });
      O("A = {1,2}", [=](X &o) {
        o.v[i] = rust::Vec<T>{R::mk(1), R::mk(2)};
        o.m[i] = {1, 2};
        o.mincap[i] = 0;
      });
      O("copy elements to back_inserter(A)", [=](X &o) {
        REQUIRE(o.m[i].size() + o.m[j].size() <= MAX);
        std::copy(o.v[j].begin(), o.v[j].end(), std::back_inserter(o.v[i]));
        o.m[i].insert(o.m[i].end(), o.m[j].begin(), o.m[j].end());
      });
    }
    if constexpr (R::thr) {
      for (int k : {1, 2})
        O("A = B with copy " + std::to_string(k) + " throwing", [=](X &o) {
          REQUIRE(o.m[j].size() >= std::size_t(k));
          copies_until_boom = k;
          bool threw = false;
          try {
            o.v[i] = o.v[j];
          } catch (Boom &) {
            threw = true;
          }
          copies_until_boom = -1;
          CHECK(threw);
          // basic guarantee: the old contents or nothing
          if (o.v[i].empty()) {
            o.m[i].clear();
            o.mincap[i] = 0;
          }
        });
      for (int k : {1, 2})
        O("Vec(B) with copy " + std::to_string(k) + " throwing", [=](X &o) {
          REQUIRE(o.m[j].size() >= std::size_t(k));
          copies_until_boom = k;
          bool threw = false;
          try {
            rust::Vec<T> t(o.v[j]);
          } catch (Boom &) {
            threw = true;
          }
          copies_until_boom = -1;
          CHECK(threw);
        });
      O("A.push_back(const T&) throwing", [=](X &o) {
        REQUIRE(o.m[i].size() < MAX);
        const T t(R::mk(3));
        copies_until_boom = 1;
        bool threw = false;
        try {
          o.v[i].push_back(t);
        } catch (Boom &) {
          threw = true;
        }
        copies_until_boom = -1;
        CHECK(threw);
      });
    }
  }
}
} // namespace c03
