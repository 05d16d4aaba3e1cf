#include "sys.hpp"
#include <cstdlib>
#include <exception>
#include <new>
namespace vk {
std::vector<Def *> &defs() {
  static std::vector<Def *> *v = new std::vector<Def *>();
  return *v;
}
std::int64_t cxx_live = 0;
} // namespace vk
void *operator new(std::size_t n) {
  vk::cxx_live++;
  void *p = std::malloc(n ? n : 1);
  if (!p)
    std::abort();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (p) {
    vk::cxx_live--;
    std::free(p);
  }
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }

// over-aligned blocks come from another heap region: mixing them up with plain
// ones corrupts a header and is reported
static const std::uint64_t ALIGNED_MAGIC = 0xa11c9ed5a11c9ed5;
void *operator new(std::size_t n, std::align_val_t a) {
  std::size_t al = static_cast<std::size_t>(a);
  vk::cxx_live++;
  char *base = static_cast<char *>(std::malloc(n + 2 * al + 32));
  auto p = reinterpret_cast<std::uintptr_t>(base + 32 + al) & ~(al - 1);
  auto h = reinterpret_cast<std::uint64_t *>(p) - 2;
  h[0] = ALIGNED_MAGIC;
  h[1] = reinterpret_cast<std::uint64_t>(base);
  return reinterpret_cast<void *>(p);
}
void *operator new[](std::size_t n, std::align_val_t a) {
  return operator new(n, a);
}
void operator delete(void *p, std::align_val_t) noexcept {
  if (!p)
    return;
  auto h = reinterpret_cast<std::uint64_t *>(p) - 2;
  if (h[0] != ALIGNED_MAGIC)
    std::abort();
  h[0] = 0;
  vk::cxx_live--;
  std::free(reinterpret_cast<void *>(h[1]));
}
void operator delete[](void *p, std::align_val_t a) noexcept {
  operator delete(p, a);
}
void operator delete(void *p, std::size_t, std::align_val_t a) noexcept {
  operator delete(p, a);
}

static thread_local char errbuf[512];
static int run(vk::Def &d, const std::uint16_t *ops, std::size_t n,
               std::uint8_t *key, std::size_t cap, std::size_t *kl) {
  int rc = 0;
  try {
    auto s = d.make();
    for (std::size_t i = 0; i < n; i++) {
      try {
        d.ops[ops[i]](*s);
      } catch (vk::Disabled &) {
        rc = 1;
        break;
      }
    }
    if (rc == 0) {
      // every prefix was checked when it was explored itself
      s->check();
      std::string k;
      s->key(k);
      *kl = k.size() < cap ? k.size() : cap;
      std::memcpy(key, k.data(), *kl);
    }
  } catch (vk::Violation &v) {
    std::snprintf(errbuf, sizeof errbuf, "%s", v.msg.c_str());
    rc = 2;
  } catch (std::exception &e) {
    std::snprintf(errbuf, sizeof errbuf, "unexpected exception: %s", e.what());
    rc = 2;
  }
  return rc;
}
extern "C" {
std::int64_t vk_cxx_live() { return vk::cxx_live; }
std::size_t vk_count() { return vk::defs().size(); }
std::size_t vk_nops(std::size_t s) { return vk::defs()[s]->ops.size(); }
std::size_t vk_name(std::size_t s, std::size_t op, std::uint8_t *b,
                    std::size_t cap) {
  auto &d = *vk::defs()[s];
  auto &n = op == SIZE_MAX ? d.name : d.names[op];
  auto l = n.size() < cap ? n.size() : cap;
  std::memcpy(b, n.data(), l);
  return l;
}
int vk_run(std::size_t s, const std::uint16_t *ops, std::size_t n,
           std::uint8_t *key, std::size_t cap, std::size_t *kl,
           std::uint8_t *err, std::size_t errcap) {
  auto c0 = vk::cxx_live;
  auto r0 = vk_rust_live();
  errbuf[0] = 0;
  int rc = run(*vk::defs()[s], ops, n, key, cap, kl);
  auto c1 = vk::cxx_live;
  auto r1 = vk_rust_live();
  if (rc != 2 && (c1 != c0 || r1 != r0)) {
    std::snprintf(errbuf, sizeof errbuf,
                  "allocation imbalance at end of history: C++ blocks %+ld, "
                  "Rust blocks %+ld",
                  long(c1 - c0), long(r1 - r0));
    rc = 2;
  }
  std::snprintf(reinterpret_cast<char *>(err), errcap, "%s", errbuf);
  return rc;
}
}
