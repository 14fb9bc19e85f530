// P14: every implementation of the scan of the index of fields gives the
// answer of the one-line definition, and never reads an unmapped page.
#include "mc.hpp"

#include "fast_positive/tuples.h"
#include "fast_positive/tuples/details/scan.h"
#include <xmmintrin.h>

using fptu::details::field_loose;

namespace {

// accessible pages between inaccessible ones
char *arena3;
const size_t PAGE = 4096;
size_t pages = 3;

char *guarded(size_t pages) {
  char *p = static_cast<char *>(mmap(nullptr, (pages + 2) * PAGE, PROT_NONE,
                                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (p == MAP_FAILED ||
      mprotect(p + PAGE, pages * PAGE, PROT_READ | PROT_WRITE))
    mc::harness_error("mmap");
  return p + PAGE;
}

struct Impl {
  const char *name;
  fptu::details::scan_func_t fn;
};
std::vector<Impl> impls() {
  std::vector<Impl> r;
  r.push_back({"referential", fptu::details::fptu_scan_referential});
  r.push_back({"unroll", fptu::details::fptu_scan_unroll});
  if (__builtin_cpu_supports("sse2"))
    r.push_back({"SSE2", fptu::details::fptu_scan_SSE2});
  if (__builtin_cpu_supports("avx"))
    r.push_back({"AVX", fptu::details::fptu_scan_AVX});
  if (__builtin_cpu_supports("avx2"))
    r.push_back({"AVX2", fptu::details::fptu_scan_AVX2});
  r.push_back({"dispatched", [](const field_loose *b, const field_loose *e,
                                const uint16_t t) {
                 return fptu::details::fptu_scan(b, e, t);
               }});
  return r;
}

const uint16_t TAGS[] = {0x0000, 0x0001, 0xFFFF, 0x8000, 0x7FFF, 0x1234};
enum { NTAGS = 6, NFILL = 4, PLACES = 48 };

// the begin of the index for n items
uint32_t *place(unsigned where, unsigned n) {
  if (where < 16) // right after an inaccessible page
    return reinterpret_cast<uint32_t *>(arena3 + 4 * where);
  if (where < 32) // right before an inaccessible page
    return reinterpret_cast<uint32_t *>(arena3 + pages * PAGE -
                                        4 * (where - 16 + n));
  // around a boundary of two accessible pages
  return reinterpret_cast<uint32_t *>(arena3 + PAGE + 32 - 4 * (where - 32));
}
uint32_t word(uint16_t tag, unsigned fill, unsigned i) {
  uint16_t hi, lo;
  switch (fill) {
  case 0: // the tag in the wrong half
    lo = tag;
    hi = uint16_t(~tag);
    break;
  case 1: // differs by one bit
    lo = uint16_t(i);
    hi = uint16_t(tag ^ (1u << i % 16));
    break;
  case 2: // halves swapped
    lo = tag;
    hi = uint16_t(tag << 8 | tag >> 8);
    if (hi == tag)
      hi ^= 0x0100;
    break;
  default:
    lo = uint16_t(tag ^ 1);
    hi = uint16_t(tag + 1);
  }
  return uint32_t(hi) << 16 | lo;
}

// an index with the wanted tag at the slots p and q (n: nowhere)
void one(const std::vector<Impl> &fns, unsigned where, unsigned n, uint16_t tag,
         unsigned fill, unsigned p, unsigned q, uint32_t *b) {
  const field_loose *const begin = reinterpret_cast<field_loose *>(b);
  const field_loose *const end = begin + n;
  const unsigned first = p < q ? p : q;
  const field_loose *expect = first < n ? begin + first : nullptr;
  for (auto &f : fns) {
    mc::what("%s: %u items, placement %u, tag %04x, fill %u, at %u and %u",
             "scan", n, where, tag, fill, p, q);
    const field_loose *got = f.fn(begin, end, tag);
    MC_CHECK(got == expect,
             "%s: %u items, placement %u, tag 0x%04x, fill %u, matches at %u "
             "and %u: got slot %ld",
             f.name, n, where, tag, fill, p, q,
             got ? long(got - begin) : -1L);
  }
  mc::step(fns.size());
}

void prepare(uint32_t *b, unsigned n, uint16_t tag, unsigned fill) {
  // everything outside of the index matches
  const uint32_t decoy = uint32_t(tag) << 16 | tag;
  uint32_t *lo = b - 16, *hi = b + n + 16;
  uint32_t *min = reinterpret_cast<uint32_t *>(arena3),
           *max = reinterpret_cast<uint32_t *>(arena3 + pages * PAGE);
  for (uint32_t *w = lo < min ? min : lo; w < (hi > max ? max : hi); ++w)
    *w = decoy;
  for (unsigned i = 0; i < n; ++i)
    b[i] = word(tag, fill, i);
}

unsigned max_single() { return mc::opt().thorough() ? 330 : 270; }
unsigned max_pair() { return mc::opt().thorough() ? 140 : 70; }

void body(mc::Chooser &c, const mc::Item &item) {
  static std::vector<Impl> fns = impls();
  if (!arena3)
    arena3 = guarded(pages);
  const unsigned where = unsigned(item.a);
  // the mode of floating point must not matter (denormals-are-zeros)
  _mm_setcsr(where & 1 ? _mm_getcsr() | 0x8040u : _mm_getcsr() & ~0x8040u);
  const unsigned n = c.choose(max_single() + 1);
  const uint16_t tag = TAGS[c.choose(NTAGS)];
  const unsigned fill = c.choose(NFILL);
  uint32_t *b = place(where, n);
  prepare(b, n, tag, fill);
  one(fns, where, n, tag, fill, n, n, b);
  const uint32_t hit = uint32_t(tag) << 16 | uint16_t(~tag);
  uint64_t cases = 1;
  for (unsigned p = 0; p < n; ++p) {
    const uint32_t save = b[p];
    b[p] = hit;
    one(fns, where, n, tag, fill, p, n, b);
    ++cases;
    if (n <= max_pair() && fill == 0 && tag == 0x1234)
      for (unsigned q = p + 1; q < n; ++q) {
        const uint32_t s2 = b[q];
        b[q] = hit;
        one(fns, where, n, tag, fill, p, q, b);
        b[q] = s2;
        ++cases;
      }
    b[p] = save;
  }
  mc::add(mc::shared()->outcomes, cases);
}

// every tag, short indexes
void tags(mc::Chooser &c, const mc::Item &item) {
  static std::vector<Impl> fns = impls();
  if (!arena3)
    arena3 = guarded(pages);
  const uint16_t tag = uint16_t(item.a << 12 | c.choose(4096));
  const unsigned n = unsigned(item.b);
  for (unsigned where : {3u, 16u}) {
    uint32_t *b = place(where, n);
    prepare(b, n, tag, 1);
    one(fns, where, n, tag, 1, n, n, b);
    for (unsigned p = 0; p < n; ++p) {
      const uint32_t save = b[p];
      b[p] = uint32_t(tag) << 16 | uint16_t(p * 7 + tag);
      one(fns, where, n, tag, 1, p, n, b);
      b[p] = save;
    }
  }
  mc::add(mc::shared()->outcomes, 2 * (n + 1));
}

// long indexes, up to the limit of the format
void longs(mc::Chooser &c, const mc::Item &item) {
  static std::vector<Impl> fns = impls();
  static char *arena9 = (pages = 9, guarded(9));
  arena3 = arena9;
  pages = 9;
  const unsigned n = unsigned(item.a);
  const unsigned where = c.choose(32);
  const uint16_t tag = TAGS[c.choose(NTAGS)];
  if (where < 16 && 4 * (where + n) > 9 * PAGE)
    return;
  uint32_t *b = place(where, n);
  prepare(b, n, tag, 1);
  one(fns, where, n, tag, 1, n, n, b);
  uint64_t cases = 1;
  const unsigned step = mc::opt().thorough() ? 1 : 61;
  for (unsigned p = 0; p < n; p += p < 40 || p + 40 + step > n ? 1 : step) {
    const uint32_t save = b[p], last = b[n - 1];
    b[p] = b[n - 1] = uint32_t(tag) << 16 | uint16_t(~tag);
    one(fns, where, n, tag, 1, p, n - 1, b);
    b[n - 1] = last;
    b[p] = save;
    ++cases;
  }
  mc::add(mc::shared()->outcomes, cases);
}

void any(mc::Chooser &c, const mc::Item &i) {
  if (i.name.compare(0, 4, "tags") == 0)
    tags(c, i);
  else if (i.name.compare(0, 4, "long") == 0)
    longs(c, i);
  else
    body(c, i);
}

} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    for (unsigned i = 0; i < PLACES; ++i) {
      mc::Item it;
      it.name = "placement-" + std::to_string(i);
      it.a = i;
      r.push_back(it);
    }
    for (unsigned t = 0; t < 16; ++t)
      for (unsigned n : {1, 5, 18, 43}) {
        mc::Item it;
        it.name = "tags-" + std::to_string(t) + "-" + std::to_string(n);
        it.a = t;
        it.b = n;
        r.push_back(it);
      }
    for (unsigned n : {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
                       4095, 4096, 4097, 8190, 8191}) {
      mc::Item it;
      it.name = "long-" + std::to_string(n);
      it.a = n;
      r.push_back(it);
    }
    return r;
  };
  h.run = [](const mc::Item &i) {
    mc::dfs([&](mc::Chooser &c) { any(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(i.name + ": " + mc::slot()->what);
  };
  h.replay = [](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { any(c, i); });
  };
  h.describe_space = [] {
    std::string s = "implementations:";
    for (auto &f : impls())
      s += std::string(" ") + f.name;
    return s;
  };
  return mc::main_(argc, argv, h);
}
