// C01: every history of rust::String operations against std::string.
#include "rt/src/c01.rs.h"
#include "rust/cxx.h"
#include "sys.hpp"
#include <sstream>
#include <string_view>
using namespace vk;
namespace {
struct S : Sys {
  rust::String v[2];
  std::string m[2];
  std::size_t mincap[2] = {0, 0};
  void check() override {
    for (int i = 0; i < 2; i++) {
      const rust::String &c = v[i];
      CHECK(c.size() == m[i].size());
      CHECK(c.length() == m[i].size());
      CHECK(c.empty() == m[i].empty());
      CHECK(c.capacity() >= c.size());
      CHECK(c.capacity() >= mincap[i]);
      CHECK(c.data() != nullptr);
      CHECK(std::memcmp(c.data(), m[i].data(), m[i].size()) == 0);
      CHECK(std::string(c) == m[i]);
      CHECK(std::string(c.begin(), c.end()) == m[i]);
      CHECK(std::string(c.cbegin(), c.cend()) == m[i]);
      CHECK(std::string(v[i].begin(), v[i].end()) == m[i]);
      CHECK(v[i].begin() == c.data() && v[i].end() == c.data() + m[i].size());
      rust::Str s(c);
      CHECK(s.size() == m[i].size() && std::string(s) == m[i]);
      CHECK(m[i].empty() || s.data() == c.data());
      CHECK(c01::rs_is(c, reinterpret_cast<const std::uint8_t *>(m[i].data()),
                       m[i].size()));
      CHECK(c01::rs_str_is(c,
                           reinterpret_cast<const std::uint8_t *>(m[i].data()),
                           m[i].size()));
    }
    CHECK((v[0] == v[1]) == (m[0] == m[1]));
    CHECK((v[0] != v[1]) == (m[0] != m[1]));
    if (v[0].capacity() && v[1].capacity()) { // no shared storage
      auto a = v[0].data(), b = v[1].data();
      CHECK(a + v[0].capacity() <= b || b + v[1].capacity() <= a);
    }
  }
  void key(std::string &k) override {
    for (int i = 0; i < 2; i++) {
      k += m[i];
      k += '\xff';
      k += std::to_string(v[i].capacity()) + "," + std::to_string(mincap[i]) +
           "|";
    }
  }
};
S &s(Sys &x) { return static_cast<S &>(x); }
std::u16string u16(const std::string &t) { // t is ASCII/Latin or U+1F600
  std::u16string o;
  for (std::size_t i = 0; i < t.size();) {
    unsigned char c = t[i];
    if (c < 0x80) {
      o += char16_t(c);
      i++;
    } else if (c < 0xE0) {
      o += char16_t((c & 31) << 6 | (t[i + 1] & 63));
      i += 2;
    } else if (c < 0xF0) {
      o += char16_t((c & 15) << 12 | (t[i + 1] & 63) << 6 | (t[i + 2] & 63));
      i += 3;
    } else {
      std::uint32_t p = (c & 7) << 18 | (t[i + 1] & 63) << 12 |
                        (t[i + 2] & 63) << 6 | (t[i + 3] & 63);
      p -= 0x10000;
      o += char16_t(0xD800 + (p >> 10));
      o += char16_t(0xDC00 + (p & 0x3FF));
      i += 4;
    }
  }
  return o;
}
using Mk = rust::String (*)(const std::string &);
struct Ctor {
  const char *name;
  Mk mk;
  bool nul; // works with embedded NUL
};
const Ctor ctors[] = {
    {"String(std::string)",
     [](const std::string &t) { return rust::String(t); }, true},
    {"String(const char*)",
     [](const std::string &t) { return rust::String(t.c_str()); }, false},
    {"String(const char*,n)",
     [](const std::string &t) {
       return t.empty() ? rust::String(static_cast<const char *>(nullptr), 0)
                        : rust::String(t.data(), t.size());
     },
     true},
    {"String(const char8_t*)",
     [](const std::string &t) {
       return rust::String(reinterpret_cast<const char8_t *>(t.c_str()));
     },
     false},
    {"String(const char8_t*,n)",
     [](const std::string &t) {
       return rust::String(reinterpret_cast<const char8_t *>(t.data()),
                           t.size());
     },
     true},
    {"String(const char16_t*)",
     [](const std::string &t) { return rust::String(u16(t).c_str()); }, false},
    {"String(const char16_t*,n)",
     [](const std::string &t) {
       auto u = u16(t);
       return u.empty()
                  ? rust::String(static_cast<const char16_t *>(nullptr), 0)
                  : rust::String(u.data(), u.size());
     },
     true},
    {"lossy(std::string)",
     [](const std::string &t) { return rust::String::lossy(t); }, true},
    {"lossy(const char*)",
     [](const std::string &t) { return rust::String::lossy(t.c_str()); },
     false},
    {"lossy(const char*,n)",
     [](const std::string &t) {
       return t.empty()
                  ? rust::String::lossy(static_cast<const char *>(nullptr), 0)
                  : rust::String::lossy(t.data(), t.size());
     },
     true},
    {"lossy(const char16_t*)",
     [](const std::string &t) { return rust::String::lossy(u16(t).c_str()); },
     false},
    {"lossy(const char16_t*,n)",
     [](const std::string &t) {
       auto u = u16(t);
       return rust::String::lossy(u.data(), u.size());
     },
     true},
    {"rs_make(Str(std::string))",
     [](const std::string &t) { return c01::rs_make(rust::Str(t)); }, true},
    {"rs_make(Str(ptr,n))",
     [](const std::string &t) {
       return c01::rs_make(t.empty()
                               ? rust::Str(static_cast<const char *>(nullptr), 0)
                               : rust::Str(t.data(), t.size()));
     },
     true},
    {"rs_make(Str(const char*))",
     [](const std::string &t) { return c01::rs_make(rust::Str(t.c_str())); },
     false},
};
const std::string datas[] = {"", "a", "b\xC3\xA9", std::string("n\0m", 3),
                             "\xF0\x9F\x98\x80",
                             "a string that is thirty bytes "};
const char *slot[] = {"A", "B"};

// `full`: every constructor with every datum; otherwise a small alphabet so
// that longer histories can be enumerated.
void build(Def &d, bool full) {
  d.name = full ? "string-ctors" : "string-ops";
  d.make = [] { return std::unique_ptr<Sys>(new S()); };
  const std::size_t MAX = 34;
  for (int i = 0; i < 2; i++) {
    int j = 1 - i;
    std::string N = slot[i], M = slot[j];
    if (full) {
      if (i == 0)
        for (auto &c : ctors)
          for (std::size_t k = 0; k < 6; k++) {
            if (k == 3 && !c.nul)
              continue;
            auto mk = c.mk;
            d.op(N + " = " + c.name + " #" + std::to_string(k),
                 [=](Sys &x) {
                   auto &o = s(x);
                   o.v[i] = mk(datas[k]);
                   o.m[i] = datas[k];
                   o.mincap[i] = 0;
                 });
            d.op("destroy " + N + "; construct in place " + c.name + " #" +
                     std::to_string(k),
                 [=](Sys &x) {
                   auto &o = s(x);
                   o.v[i].~String();
                   new (&o.v[i]) rust::String(mk(datas[k]));
                   o.m[i] = datas[k];
                   o.mincap[i] = 0;
                 });
          }
    } else {
      for (int k : {1, 5})
        d.op(N + " = String(#" + std::to_string(k) + ")", [=](Sys &x) {
          auto &o = s(x);
          o.v[i] = rust::String(datas[k]);
          o.m[i] = datas[k];
          o.mincap[i] = 0;
        });
    }
    d.op(N + " = String()", [=](Sys &x) {
      s(x).v[i] = rust::String();
      s(x).m[i].clear();
      s(x).mincap[i] = 0;
    });
    d.op(N + " = copy of " + M, [=](Sys &x) {
      auto &o = s(x);
      o.v[i] = o.v[j];
      o.m[i] = o.m[j];
      o.mincap[i] = 0;
    });
    d.op(N + " = String(" + M + ") copy-constructed", [=](Sys &x) {
      auto &o = s(x);
      rust::String t(o.v[j]);
      CHECK(t == o.v[j]);
      o.v[i] = std::move(t);
      CHECK(t.empty() && t.size() == 0); // moved-from: empty, usable
      t = rust::String("zz");
      CHECK(std::string(t) == "zz");
      o.m[i] = o.m[j];
      o.mincap[i] = 0;
    });
    d.op(N + " = move " + M, [=](Sys &x) {
      auto &o = s(x);
      o.v[i] = std::move(o.v[j]);
      o.m[i] = std::move(o.m[j]);
      o.m[j].clear();
      o.mincap[i] = o.mincap[j];
      o.mincap[j] = 0;
    });
    d.op(N + " = " + N, [=](Sys &x) {
      rust::String &r = s(x).v[i];
      s(x).v[i] = r;
    });
    d.op(N + " = move " + N, [=](Sys &x) {
      // self-move: valid afterwards, value kept or emptied, nothing freed twice
      auto &o = s(x);
      rust::String &r = o.v[i];
      o.v[i] = std::move(r);
      if (o.v[i].empty()) {
        o.m[i].clear();
        o.mincap[i] = 0;
      }
    });
    d.op("move-construct from " + N, [=](Sys &x) {
      auto &o = s(x);
      rust::String t(std::move(o.v[i]));
      CHECK(std::string(t) == o.m[i]);
      CHECK(o.v[i].empty());
      o.v[i] = std::move(t);
    });
    d.op("reserve(" + N + ", 3)", [=](Sys &x) {
      auto &o = s(x);
      o.v[i].reserve(3);
      CHECK(o.v[i].capacity() >= 3);
      o.mincap[i] = std::max<std::size_t>(o.mincap[i], 3);
    });
    d.op("reserve(" + N + ", 40)", [=](Sys &x) {
      auto &o = s(x);
      o.v[i].reserve(40);
      CHECK(o.v[i].capacity() >= 40);
      o.mincap[i] = std::max<std::size_t>(o.mincap[i], 40);
    });
    d.op("reserve(" + N + ", size+1)", [=](Sys &x) {
      auto &o = s(x);
      auto want = o.v[i].size() + 1;
      o.v[i].reserve(want);
      CHECK(o.v[i].capacity() >= want);
      o.mincap[i] = std::max<std::size_t>(o.mincap[i], want);
    });
    d.op("reserve(" + N + ", 0)", [=](Sys &x) { s(x).v[i].reserve(0); });
    d.op(N + ".c_str()", [=](Sys &x) {
      auto &o = s(x);
      const char *p = o.v[i].c_str();
      CHECK(p == o.v[i].data());
      CHECK(std::memcmp(p, o.m[i].data(), o.m[i].size()) == 0);
      CHECK(p[o.m[i].size()] == '\0');
      CHECK(o.v[i].capacity() > o.m[i].size());
    });
    d.op("write through " + N + ".begin()", [=](Sys &x) {
      auto &o = s(x);
      REQUIRE(!o.m[i].empty() && (o.m[i][0] & 0x80) == 0);
      *o.v[i].begin() = 'X';
      o.m[i][0] = 'X';
    });
    d.op("rust pushes to " + N, [=](Sys &x) {
      auto &o = s(x);
      REQUIRE(o.m[i].size() + 2 <= MAX);
      c01::rs_push(o.v[i], rust::Str("p\xC3\xA9").size() ? "pq" : "");
      o.m[i] += "pq";
    });
    d.op("rust takes copy of " + N, [=](Sys &x) {
      auto &o = s(x);
      CHECK(c01::rs_take(o.v[i]) == o.m[i].size());
    });
    d.op(N + " = rust echo(move " + N + ")", [=](Sys &x) {
      auto &o = s(x);
      auto t = c01::rs_echo(std::move(o.v[i]));
      CHECK(o.v[i].empty());
      o.v[i] = std::move(t);
    });
    d.op(N + " = throwing constructor", [=](Sys &x) {
      auto &o = s(x);
      for (int how = 0; how < 5; how++) {
        bool threw = false;
        try {
          const char16_t bad16[] = {u'a', 0xD800, 0};
          switch (how) {
          case 0:
            o.v[i] = rust::String(std::string("ok\xFF"));
            break;
          case 1:
            o.v[i] = rust::String("\xC3");
            break;
          case 2:
            o.v[i] = rust::String("abc\x80", 4);
            break;
          case 3:
            o.v[i] = rust::String(bad16);
            break;
          case 4:
            o.v[i] = rust::String(bad16, 2);
            break;
          }
        } catch (const std::invalid_argument &) {
          threw = true;
        }
        CHECK(threw);
      }
    });
    d.op("rust sets " + N + " from CxxString", [=](Sys &x) {
      std::string t("cx\0x", 4);
      c01::rs_set(s(x).v[i], t);
      s(x).m[i] = t;
      s(x).mincap[i] = 0;
    });
    d.op("rust clears " + N, [=](Sys &x) {
      c01::rs_clear(s(x).v[i]);
      s(x).m[i].clear();
    });
    d.op("struct holding " + N + " round-trips by value", [=](Sys &x) {
      auto &o = s(x);
      c01::Holder h{std::move(o.v[i]), 4};
      CHECK(o.v[i].empty());
      auto g = c01::rs_holder(std::move(h));
      CHECK(g.n == 5 && h.s.empty());
      c01::Holder c(g); // copyable in C++
      CHECK(c.s == g.s);
      o.v[i] = c.s;
      o.mincap[i] = 0;
    });
    d.op(std::string("Result<String> ") + N, [=](Sys &x) {
      auto &o = s(x);
      bool threw = false;
      try {
        o.v[i] = c01::rs_opt_make(false);
      } catch (const rust::Error &) {
        threw = true;
      }
      CHECK(threw);
      o.v[i] = c01::rs_opt_make(true);
      o.m[i] = "ok";
      o.mincap[i] = 0;
    });
  }
  d.op("A.swap(B)", [](Sys &x) {
    auto &o = s(x);
    o.v[0].swap(o.v[1]);
    std::swap(o.m[0], o.m[1]);
    std::swap(o.mincap[0], o.mincap[1]);
  });
  d.op("swap(A,B)", [](Sys &x) {
    auto &o = s(x);
    using std::swap;
    swap(o.v[0], o.v[1]);
    std::swap(o.m[0], o.m[1]);
    std::swap(o.mincap[0], o.mincap[1]);
  });
  d.op("A.swap(A)", [](Sys &x) { s(x).v[0].swap(s(x).v[0]); });
  d.op("stream A then B", [](Sys &x) {
    auto &o = s(x);
    std::ostringstream os;
    os << o.v[0] << rust::Str(o.v[1]);
    CHECK(os.str() == o.m[0] + o.m[1]);
  });
}
Reg r1([](Def &d) { build(d, false); });
Reg r2([](Def &d) { build(d, true); });
} // namespace
