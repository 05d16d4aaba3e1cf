// C++ side of the explorer interface.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace vk {
struct Violation {
  std::string msg;
};
struct Disabled {};
#define VK_STR2(x) #x
#define VK_STR(x) VK_STR2(x)
#define CHECK(c)                                                               \
  do {                                                                         \
    if (!(c))                                                                  \
      throw ::vk::Violation{std::string("check failed: " #c " at line ") +     \
                            VK_STR(__LINE__)};                                 \
  } while (0)
#define REQUIRE(c)                                                             \
  do {                                                                         \
    if (!(c))                                                                  \
      throw ::vk::Disabled{};                                                  \
  } while (0)

struct Sys {
  virtual ~Sys() {}
  virtual void check() = 0;            // invariants + model agreement
  virtual void key(std::string &k) = 0; // canonical state
};
using OpFn = void (*)(Sys &);
struct Def {
  std::string name;
  std::function<std::unique_ptr<Sys>()> make;
  std::vector<std::string> names;
  std::vector<std::function<void(Sys &)>> ops;
  void op(std::string n, std::function<void(Sys &)> f) {
    names.push_back(std::move(n));
    ops.push_back(std::move(f));
  }
};
std::vector<Def *> &defs();
struct Reg {
  Reg(std::function<void(Def &)> f) {
    auto d = new Def();
    f(*d);
    defs().push_back(d);
  }
};
extern std::int64_t cxx_live; // live operator new blocks
} // namespace vk
extern "C" std::int64_t vk_rust_live();
