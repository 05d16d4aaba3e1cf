// C05: rust::Box and rust::Error.
#include "rt/cc/c05.hpp"
#include "rt/src/c05.rs.h"
#include "sys.hpp"
#include <optional>
#include <set>
namespace c05 {
using namespace vk;
bool boom = false;
std::int64_t tracked_live = 0;
bool ledger_bad = false;
static std::set<std::uint64_t> *live = new std::set<std::uint64_t>();
static std::uint64_t next_id = 1;
inline const char *texts[] = {
    "", "one", "the second text is longer than any small buffer", "3"};
template <typename T>
struct Tr;
#define TR(T, n, COPY, COMPLETE, THR, VAL, SET, ...)                           \
  template <>                                                                  \
  struct Tr<T> {                                                               \
    static constexpr bool copy = COPY, complete = COMPLETE, thr = THR;         \
    static int val(const T &x) { return VAL; }                                 \
    static void set(T &x, int k) { SET; }                                      \
    static rust::Box<T> make(int k) { return make_##n(k); }                    \
    static int take(rust::Box<T> b) { return take_##n(std::move(b)); }         \
    static rust::Box<T> echo(rust::Box<T> b) { return echo_##n(std::move(b)); } \
    static int peek(const rust::Box<T> &b) { return peek_##n(b); }             \
    static std::size_t addr(const rust::Box<T> &b) { return addr_##n(b); }     \
    static void replace(rust::Box<T> &b, int k) { replace_##n(b, k); }         \
    static void rswap(rust::Box<T> &a, rust::Box<T> &b) { swap_##n(a, b); }    \
    static rust::Box<T> maybe(rust::Box<T> b, bool k) {                        \
      return maybe_##n(std::move(b), k);                                       \
    }                                                                          \
    __VA_ARGS__                                                                \
  };
TR(Op, op, false, false, false, x.val(), x.set(k))
TR(Zst, zst, false, false, false, x.val(), (void)x; (void)k)
TR(Al, al, false, false, false, x.val(), x.set(k))
TR(Sh, sh, true, true, false,
   std::string(x.s) == texts[x.n] ? x.n : -1, (x.s = texts[k], x.n = k),
   static Sh mk(int k) { return Sh{texts[k], k}; }
   static rust::Box<Sh> place(int k) {
     return rust::Box<Sh>::in_place(rust::String(texts[k]), k);
   })
TR(Bx, bx, false, true, false, x.b->val() == x.n ? x.n : -1,
   (x.b->set(k), x.n = k),
   static Bx mk(int k) { return Bx{make_op(k), k}; }
   static rust::Box<Bx> place(int k) {
     return rust::Box<Bx>::in_place(make_op(k), k);
   })
TR(En, en, true, true, false, int(x), x = static_cast<En>(k),
   static En mk(int k) { return static_cast<En>(k); }
   static rust::Box<En> place(int k) {
     return rust::Box<En>::in_place(static_cast<En>(k));
   })
TR(Tracked, tracked, true, true, true, x.val, x.val = k,
   static Tracked mk(int k) { return Tracked(k); }
   static rust::Box<Tracked> place(int k) {
     return rust::Box<Tracked>::in_place(k);
   })
TR(TrackedA, trackeda, true, true, true, (x.here(), x.t.val), x.t.val = k,
   static TrackedA mk(int k) { return TrackedA(k); }
   static rust::Box<TrackedA> place(int k) {
     return rust::Box<TrackedA>::in_place(k);
   })
template <typename T>
constexpr bool is_zst = std::is_same<T, Zst>::value;
template <typename T>
int cv(int k) {
  return is_zst<T> ? 1 : k;
}

template <typename T>
struct BoxSys : Sys {
  using R = Tr<T>;
  std::optional<rust::Box<T>> s[2]; // nullopt: never made
  int m[2] = {0, 0};                // 0: no value (never made / moved from)
  const void *at[2] = {nullptr, nullptr};
  T *raw = nullptr;
  int rawm = 0;
  std::int64_t objs0 = rust_objs(), tr0 = tracked_live;
  BoxSys() { ledger_bad = false; }
  ~BoxSys() override {
    if (raw)
      rust::Box<T>::from_raw(raw);
  }
  void set(int i, rust::Box<T> &&b, int k) { // move construction or assignment
    if (s[i])
      *s[i] = std::move(b);
    else
      s[i].emplace(std::move(b));
    m[i] = k;
    at[i] = &**s[i];
    CHECK(b.operator->() == nullptr);
  }
  void check() override {
    CHECK(!ledger_bad && !rust_bad());
    std::int64_t n = raw ? 1 : 0;
    if (raw)
      CHECK(R::val(*raw) == rawm);
    for (int i = 0; i < 2; i++) {
      if (!m[i]) {
        if (s[i])
          CHECK(s[i]->operator->() == nullptr);
        continue;
      }
      n++;
      rust::Box<T> &b = *s[i];
      const rust::Box<T> &c = b;
      CHECK(R::val(*b) == m[i] && R::val(*c) == m[i]);
      CHECK(&*b == &*c && b.operator->() == &*b && c.operator->() == &*c);
      CHECK(&*b == at[i]); // a box never relocates what it owns
      CHECK(R::peek(c) == m[i]);
      CHECK(R::addr(c) == reinterpret_cast<std::size_t>(&*b));
    }
    if (m[0] && m[1] && !is_zst<T>)
      CHECK(&**s[0] != &**s[1]);
    constexpr bool tr = std::is_same<T, Tracked>::value ||
                        std::is_same<T, TrackedA>::value;
    constexpr bool ro = std::is_same<T, Op>::value ||
                        std::is_same<T, Al>::value ||
                        std::is_same<T, Zst>::value ||
                        std::is_same<T, Bx>::value;
    CHECK(tracked_live - tr0 == (tr ? n : 0));
    CHECK(rust_objs() - objs0 == (ro ? n : 0));
  }
  void key(std::string &k) override {
    for (int i = 0; i < 2; i++)
      k += s[i] ? char('0' + m[i]) : '-';
    k += raw ? char('0' + rawm) : '-';
  }
};
template <typename T>
void box_def(Def &d, const char *name) {
  using X = BoxSys<T>;
  using R = Tr<T>;
  d.name = std::string("box-") + name;
  d.make = [] { return std::make_unique<X>(); };
  auto O = [&](std::string n, std::function<void(X &)> f) {
    d.op(std::move(n), [f](Sys &s) { f(static_cast<X &>(s)); });
  };
  const char *nm[] = {"A", "B"};
  for (int i = 0; i < 2; i++) {
    int j = 1 - i;
    std::string a = nm[i], b = nm[j];
    for (int k : {1, 2}) {
      if (is_zst<T> && k == 2)
        continue;
      auto ks = std::to_string(k);
      O(a + " = Rust make " + ks,
        [=](X &o) { o.set(i, R::make(k), cv<T>(k)); });
      if constexpr (R::complete) {
        if (k == 1)
          O(a + " = Box(T&& 1)",
            [=](X &o) { o.set(i, rust::Box<T>(R::mk(k)), k); });
        O(a + " = in_place " + ks, [=](X &o) { o.set(i, R::place(k), k); });
        if constexpr (R::copy)
          O(a + " = Box(const T& " + ks + ")", [=](X &o) {
            const T t(R::mk(k));
            o.set(i, rust::Box<T>(t), k);
            CHECK(R::val(t) == k);
          });
      }
      O("*" + a + ".set " + ks, [=](X &o) {
        REQUIRE(o.m[i]);
        if (k == 1)
          R::set(**o.s[i], k);
        else
          R::set(*o.s[i]->operator->(), k);
        o.m[i] = cv<T>(k);
      });
    }
    O("Rust replaces " + a + " with 3", [=](X &o) {
      REQUIRE(o.m[i]);
      R::replace(*o.s[i], 3);
      o.m[i] = cv<T>(3);
      o.at[i] = &**o.s[i];
    });
    if constexpr (R::complete) {
      if (i == 0)
        O("swap(*A, *B)", [=](X &o) {
          REQUIRE(o.m[i] && o.m[j]);
          using std::swap;
          swap(**o.s[i], **o.s[j]);
          swap(o.m[i], o.m[j]);
        });
    }
    // A moved-from value inside a box is Rust's to drop, so only kinds whose
    // moved-from state is a Rust value are moved out of (not null rust::Box).
    if constexpr (R::copy && !R::thr)
      O("*" + a + " = move(*" + b + ")", [=](X &o) {
        REQUIRE(o.m[i] && o.m[j]);
        **o.s[i] = T(std::move(**o.s[j]));
        o.m[i] = o.m[j];
        R::set(**o.s[j], 1);
        o.m[j] = 1;
      });
    if constexpr (R::copy) {
      O("*" + a + " = *" + b, [=](X &o) {
        REQUIRE(o.m[i] && o.m[j]);
        **o.s[i] = **o.s[j];
        o.m[i] = o.m[j];
      });
      O(a + " = Box(*" + b + ")", [=](X &o) {
        REQUIRE(o.m[j]);
        o.set(i, rust::Box<T>(**o.s[j]), o.m[j]);
      });
      O(a + " = Box(*" + a + ")", [=](X &o) {
        REQUIRE(o.m[i]);
        o.set(i, rust::Box<T>(**o.s[i]), o.m[i]);
      });
    }
    O(a + " = move(" + b + ")", [=](X &o) {
      REQUIRE(o.s[j]);
      if (o.s[i])
        CHECK(&(*o.s[i] = std::move(*o.s[j])) == &*o.s[i]);
      else
        o.s[i].emplace(std::move(*o.s[j]));
      o.m[i] = o.m[j];
      o.at[i] = o.at[j];
      o.m[j] = 0;
    });
    O(a + " = move(" + a + ")", [=](X &o) {
      REQUIRE(o.s[i]);
      auto &r = *o.s[i];
      *o.s[i] = std::move(r);
      // valid but unspecified: kept or emptied
      if (o.s[i]->operator->() == nullptr)
        o.m[i] = 0;
    });
    O("destroy " + a, [=](X &o) {
      REQUIRE(o.s[i]);
      o.s[i].reset();
      o.m[i] = 0;
    });
    O("Rust takes " + a, [=](X &o) {
      REQUIRE(o.m[i]);
      CHECK(R::take(std::move(*o.s[i])) == o.m[i]);
      o.m[i] = 0;
    });
    O(a + " = Rust echo(" + b + ")", [=](X &o) {
      REQUIRE(o.m[j]);
      auto p = o.at[j];
      o.set(i, R::echo(std::move(*o.s[j])), o.m[j]);
      o.m[j] = 0;
      CHECK(o.at[i] == p);
    });
    O(a + " = Rust maybe(" + b + ") ok", [=](X &o) {
      REQUIRE(o.m[j]);
      o.set(i, R::maybe(std::move(*o.s[j]), true), o.m[j]);
      o.m[j] = 0;
    });
    O(a + " = Rust maybe(" + b + ") err", [=](X &o) {
      REQUIRE(o.m[j]);
      bool threw = false;
      try {
        o.set(i, R::maybe(std::move(*o.s[j]), false), 9);
      } catch (const rust::Error &e) {
        threw = std::to_string(o.m[j]) == e.what();
      }
      CHECK(threw);
      o.m[j] = 0;
    });
    O("raw = " + a + ".into_raw()", [=](X &o) {
      REQUIRE(o.m[i] && !o.raw);
      o.raw = o.s[i]->into_raw();
      CHECK(o.raw == o.at[i]);
      o.rawm = o.m[i];
      o.m[i] = 0;
    });
    O(a + " = from_raw(raw)", [=](X &o) {
      REQUIRE(o.raw);
      auto p = o.raw;
      o.raw = nullptr;
      o.set(i, rust::Box<T>::from_raw(p), o.rawm);
      CHECK(o.at[i] == p);
      o.rawm = 0;
    });
    if constexpr (R::thr) {
      O(a + " = Box(const T&) throwing", [=](X &o) {
        const T t(R::mk(3));
        bool threw = false;
        boom = true;
        try {
          o.set(i, rust::Box<T>(t), 9);
        } catch (Boom &) {
          threw = true;
        }
        boom = false;
        CHECK(threw);
      });
      O(a + " = in_place throwing", [=](X &o) {
        bool threw = false;
        boom = true;
        try {
          o.set(i, R::place(3), 9);
        } catch (Boom &) {
          threw = true;
        }
        boom = false;
        CHECK(threw);
      });
    }
  }
  auto swapped = [](X &o) {
    std::swap(o.m[0], o.m[1]);
    std::swap(o.at[0], o.at[1]);
  };
  O("A.swap(B)", [=](X &o) {
    REQUIRE(o.s[0] && o.s[1]);
    o.s[0]->swap(*o.s[1]);
    swapped(o);
  });
  O("swap(B, A)", [=](X &o) {
    REQUIRE(o.s[0] && o.s[1]);
    swap(*o.s[1], *o.s[0]);
    swapped(o);
  });
  O("std::swap(A, B)", [=](X &o) {
    REQUIRE(o.s[0] && o.s[1]);
    std::swap(*o.s[0], *o.s[1]);
    swapped(o);
  });
  O("A.swap(A)", [=](X &o) {
    REQUIRE(o.s[0]);
    o.s[0]->swap(*o.s[0]);
  });
  O("Rust swaps", [=](X &o) {
    REQUIRE(o.m[0] && o.m[1]);
    R::rswap(*o.s[0], *o.s[1]);
    swapped(o);
  });
}
#define B(T, n) static Reg r_##n([](Def &d) { box_def<T>(d, #n); });
B(Op, op)
B(Zst, zst)
B(Al, al)
B(Sh, sh)
B(Bx, bx)
B(En, en)
B(Tracked, tracked)
B(TrackedA, trackeda)

static_assert(!std::is_copy_constructible<rust::Box<Op>>::value &&
                  !std::is_default_constructible<rust::Box<Op>>::value,
              "Box owns uniquely and is never empty by construction");

// ---- rust::Error
static std::string msg(int k) {
  switch (k) {
  case 0:
    return "";
  case 1:
    return "one";
  case 2:
    return "\xf0\x9f\xa6\x80 message, longer than fifteen";
  case 3:
    return std::string(5000, 'x');
  default:
    return "\n";
  }
}
struct ErrSys : Sys {
  std::optional<rust::Error> e[3];
  int m[3] = {-1, -1, -1}; // -1: none, -2: moved from
  std::exception_ptr p;
  int pm = -1;
  std::int64_t objs0 = rust_objs();
  void check() override {
    for (int i = 0; i < 3; i++) {
      if (m[i] == -2) {
        const char *w = e[i]->what();
        CHECK(w == nullptr || std::strlen(w) < 6000); // readable if anything
      }
      if (m[i] < 0)
        continue;
      CHECK(msg(m[i]) == e[i]->what());
      const std::exception &x = *e[i];
      CHECK(msg(m[i]) == x.what());
      for (int j = 0; j < i; j++)
        if (m[j] >= 0)
          CHECK(e[i]->what() != e[j]->what());
    }
    if (p) {
      bool ok = false;
      try {
        std::rethrow_exception(p);
      } catch (const rust::Error &x) {
        ok = msg(pm) == x.what();
      }
      CHECK(ok);
    }
    CHECK(rust_objs() == objs0);
  }
  void key(std::string &k) override {
    for (int i = 0; i < 3; i++)
      k += char('A' + m[i] + 2);
    k += char('A' + pm + 2);
  }
};
static Reg errs([](Def &d) {
  using X = ErrSys;
  d.name = "error";
  d.make = [] { return std::make_unique<X>(); };
  auto O = [&](std::string n, std::function<void(X &)> f) {
    d.op(std::move(n), [f](Sys &s) { f(static_cast<X &>(s)); });
  };
  O("no throw", [](X &) {
    bool threw = false;
    try {
      fail(-1);
    } catch (...) {
      threw = true;
    }
    CHECK(!threw);
  });
  for (int i = 0; i < 3; i++) {
    std::string a(1, "ABC"[i]);
    for (int k = 0; k < 4; k++) {
      auto ks = std::to_string(k);
      O(a + " = copy of caught " + ks, [=](X &o) {
        try {
          fail(k);
          CHECK(false);
        } catch (const rust::Error &x) {
          if (o.e[i])
            *o.e[i] = x;
          else
            o.e[i].emplace(x);
          CHECK(msg(k) == x.what());
        }
        o.m[i] = k;
      });
      if (k < 3)
        O(a + " = moved caught " + ks, [=](X &o) {
          try {
            if (k == 1)
              fail_box(k);
            else
              fail_str(msg(k));
            CHECK(false);
          } catch (rust::Error &x) {
            if (o.e[i])
              *o.e[i] = std::move(x);
            else
              o.e[i].emplace(std::move(x));
          }
          o.m[i] = k;
        });
    }
    O("throw " + a + ", catch by value, rethrow", [=](X &o) {
      REQUIRE(o.m[i] >= 0);
      int n = 0;
      try {
        try {
          throw *o.e[i];
        } catch (rust::Error x) {
          CHECK(msg(o.m[i]) == x.what());
          n++;
          throw;
        }
      } catch (const std::exception &x) {
        CHECK(msg(o.m[i]) == x.what());
        n++;
      }
      CHECK(n == 2);
    });
    O("p = make_exception_ptr(" + a + ")", [=](X &o) {
      REQUIRE(o.m[i] >= 0);
      o.p = std::make_exception_ptr(*o.e[i]);
      o.pm = o.m[i];
    });
    O("destroy " + a, [=](X &o) {
      REQUIRE(o.m[i] != -1);
      o.e[i].reset();
      o.m[i] = -1;
    });
    O(a + " = " + a, [=](X &o) {
      REQUIRE(o.m[i] != -1);
      auto &r = *o.e[i];
      CHECK(&(*o.e[i] = r) == &r);
    });
    O(a + " = move(" + a + ")", [=](X &o) {
      REQUIRE(o.m[i] != -1);
      auto &r = *o.e[i];
      *o.e[i] = std::move(r);
      if (o.m[i] >= 0 && !(o.e[i]->what() && msg(o.m[i]) == o.e[i]->what()))
        o.m[i] = -2; // valid but unspecified
    });
    for (int j = 0; j < 3; j++) {
      if (i == j)
        continue;
      std::string b(1, "ABC"[j]);
      O(a + " = " + b, [=](X &o) {
        REQUIRE(o.m[j] != -1);
        if (o.e[i])
          CHECK(&(*o.e[i] = *o.e[j]) == &*o.e[i]);
        else
          o.e[i].emplace(*o.e[j]);
        o.m[i] = o.m[j];
      });
      O(a + " = move(" + b + ")", [=](X &o) {
        REQUIRE(o.m[j] != -1);
        if (o.e[i])
          *o.e[i] = std::move(*o.e[j]);
        else
          o.e[i].emplace(std::move(*o.e[j]));
        o.m[i] = o.m[j];
        o.m[j] = -2;
      });
      if (j > i)
        O("swap(" + a + ", " + b + ")", [=](X &o) {
          REQUIRE(o.m[i] != -1 && o.m[j] != -1);
          std::swap(*o.e[i], *o.e[j]);
          std::swap(o.m[i], o.m[j]);
        });
    }
  }
  O("A = rethrown p", [](X &o) {
    REQUIRE(o.p);
    try {
      std::rethrow_exception(o.p);
    } catch (const rust::Error &x) {
      if (o.e[0])
        *o.e[0] = x;
      else
        o.e[0].emplace(x);
    }
    o.m[0] = o.pm;
  });
  O("p = null", [](X &o) {
    REQUIRE(o.p);
    o.p = nullptr;
    o.pm = -1;
  });
});
} // namespace c05
extern "C" {
std::uint64_t vk5_tracked_new() {
  c05::tracked_live++;
  c05::live->insert(c05::next_id);
  return c05::next_id++;
}
void vk5_tracked_drop(std::uint64_t id) {
  if (id == 0)
    return;
  if (!c05::live->erase(id))
    c05::ledger_bad = true;
  else
    c05::tracked_live--;
}
}
