// P17: the decimal text of a number reads back as exactly this number, and
// stays within the promised number of characters.
#include "mc.hpp"

#include "fast_positive/erthink/erthink_d2a.h"
#include "fast_positive/erthink/erthink_u2a.h"
#include <cmath>

namespace {

enum Kind { U32, I32, U64, I64, MANTISSA, FLOATS, INTEGERS, GRID, FIXED };

// places the text between canaries; `cap` is the promised capacity
struct Buf {
  char raw[128];
  enum { PAD = 24 };
  char *p() { return raw + PAD; }
  void arm(unsigned cap) {
    memset(raw, 0x7e, PAD);
    memset(raw + PAD + cap, 0x7e, PAD);
  }
  bool damaged(unsigned cap) const {
    static const struct Ref {
      char x[PAD];
      Ref() { memset(x, 0x7e, PAD); }
    } ref;
    return memcmp(raw, ref.x, PAD) || memcmp(raw + PAD + cap, ref.x, PAD);
  }
};

// decimal digits by repeated division, independent of the library
unsigned digits_of(uint64_t v, char *to) {
  char tmp[24];
  unsigned n = 0;
  do
    tmp[n++] = char('0' + v % 10);
  while (v /= 10);
  for (unsigned i = 0; i < n; ++i)
    to[i] = tmp[n - 1 - i];
  return n;
}

//---------------------------------------------------------------- integers

struct Odometer { // the decimal text of the next number is the text plus one
  char t[24];
  unsigned n;
  explicit Odometer(uint64_t v) { n = digits_of(v, t); }
  void next() {
    unsigned i = n;
    while (i && t[i - 1] == '9')
      t[--i] = '0';
    if (i)
      ++t[i - 1];
    else {
      memmove(t + 1, t, n++);
      t[0] = '1';
    }
  }
};

void u32_block(uint64_t from, uint64_t till) {
  Buf b;
  b.arm(10);
  Odometer o(from);
  for (uint64_t v = from; v < till; ++v, o.next()) {
    char *e = erthink::u2a(uint32_t(v), b.p());
    if (size_t(e - b.p()) != o.n || memcmp(b.p(), o.t, o.n))
      mc::fail("u2a(%" PRIu64 ") gives '%.*s'", v, int(e - b.p()), b.p());
  }
  if (b.damaged(10))
    mc::fail("u2a(uint32) wrote outside of 10 characters for a value in "
             "%" PRIu64 "..%" PRIu64,
             from, till);
  mc::add(mc::shared()->outcomes, till - from);
}

// all of int32, the order of magnitudes
void i32_block(uint64_t from, uint64_t till) {
  Buf b;
  b.arm(11);
  Odometer o(from);
  for (uint64_t v = from; v < till; ++v, o.next()) {
    if (v <= 0x7fffffff) {
      char *e = erthink::i2a(int32_t(v), b.p());
      if (size_t(e - b.p()) != o.n || memcmp(b.p(), o.t, o.n))
        mc::fail("i2a(%" PRIu64 ") gives '%.*s'", v, int(e - b.p()), b.p());
    }
    if (v && v <= 0x80000000u) {
      char *e = erthink::i2a(int32_t(-int64_t(v)), b.p());
      if (size_t(e - b.p()) != o.n + 1 || b.p()[0] != '-' ||
          memcmp(b.p() + 1, o.t, o.n))
        mc::fail("i2a(-%" PRIu64 ") gives '%.*s'", v, int(e - b.p()), b.p());
    }
  }
  if (b.damaged(11))
    mc::fail("i2a(int32) wrote outside of 11 characters for a value in "
             "%" PRIu64 "..%" PRIu64,
             from, till);
  mc::add(mc::shared()->outcomes, till - from);
}

void u64_one(uint64_t v) {
  Buf b;
  char want[24];
  const unsigned n = digits_of(v, want);
  b.arm(20);
  char *e = erthink::u2a(v, b.p());
  if (size_t(e - b.p()) != n || memcmp(b.p(), want, n) || b.damaged(20))
    mc::fail("u2a(%" PRIu64 ") gives '%.*s'%s", v, int(e - b.p()), b.p(),
             b.damaged(20) ? " and writes outside of 20 characters" : "");
  if (v <= uint64_t(INT64_MAX)) {
    b.arm(20);
    e = erthink::i2a(int64_t(v), b.p());
    if (size_t(e - b.p()) != n || memcmp(b.p(), want, n) || b.damaged(20))
      mc::fail("i2a(%" PRIu64 ") gives '%.*s'", v, int(e - b.p()), b.p());
  }
  if (v && v <= uint64_t(INT64_MAX) + 1) {
    b.arm(20);
    e = erthink::i2a(int64_t(0 - v), b.p());
    if (size_t(e - b.p()) != n + 1 || b.p()[0] != '-' ||
        memcmp(b.p() + 1, want, n) || b.damaged(20))
      mc::fail("i2a(-%" PRIu64 ") gives '%.*s'", v, int(e - b.p()), b.p());
  }
  mc::add(mc::shared()->outcomes);
}

const uint64_t E4 = 10000;
uint64_t pow10u(unsigned n) { return n ? 10 * pow10u(n - 1) : 1; }

// every value of each group of four digits with boundary values of the others
void u64_groups(mc::Chooser &c) {
  static const unsigned EDGE[] = {0, 1, 9, 10, 99, 100, 999, 1000, 9999};
  const unsigned pos = c.choose(5); // the group which takes all the values
  unsigned other[4];
  for (unsigned &o : other)
    o = EDGE[c.choose(9)];
  for (unsigned g = 0; g < E4; ++g) {
    unsigned __int128 v = 0;
    for (unsigned i = 0, k = 0; i < 5; ++i)
      v = v * E4 + (i == pos ? g : other[k++]);
    if (v >> 64)
      break;
    u64_one(uint64_t(v));
  }
}

void u64_edges(mc::Chooser &c) {
  const unsigned kind = c.choose(2);
  if (kind == 0) {
    const unsigned b = c.choose(64);
    for (int64_t d = -5000; d <= 5000; ++d)
      u64_one((uint64_t(1) << b) + uint64_t(d));
    for (unsigned k = 0; k < b; ++k)
      for (int64_t d = -50; d <= 50; ++d)
        u64_one(((uint64_t(1) << b) | (uint64_t(1) << k)) + uint64_t(d));
  } else {
    const unsigned p = c.choose(20);
    for (uint64_t m = 1; m < 100; ++m)
      for (int64_t d = -500; d <= 500; ++d)
        u64_one(m * pow10u(p) + uint64_t(d));
  }
}

//---------------------------------------------------------------- doubles

// a number: -? digits (. digits)? (e [+-] digits)?
bool well_formed(const char *p, const char *e) {
  if (p < e && *p == '-')
    ++p;
  const char *s = p;
  while (p < e && *p >= '0' && *p <= '9')
    ++p;
  if (p == s)
    return false;
  if (p < e && *p == '.') {
    s = ++p;
    while (p < e && *p >= '0' && *p <= '9')
      ++p;
    if (p == s)
      return false;
  }
  if (p < e && *p == 'e') {
    if (++p == e || (*p != '+' && *p != '-'))
      return false;
    s = ++p;
    while (p < e && *p >= '0' && *p <= '9')
      ++p;
    if (p == s)
      return false;
  }
  return p == e;
}
void text_of(const char *fn, uint64_t bits, const char *p, const char *e) {
  double v;
  memcpy(&v, &bits, 8);
  char z[128];
  const size_t n = size_t(e - p);
  if (n == 0 || n > 60)
    mc::fail("%s of %016" PRIx64 " gives %zi characters", fn, bits, n);
  memcpy(z, p, n);
  z[n] = 0;
  const bool special = (bits >> 52 & 0x7ff) == 0x7ff;
  if (special) {
    const char *q = z + (bits >> 63);
    if ((bits >> 63 && z[0] != '-') ||
        strcmp(q, bits << 12 ? "nan" : "inf"))
      mc::fail("%s of %016" PRIx64 " gives '%s'", fn, bits, z);
    return;
  }
  char *stop;
  const double back = strtod(z, &stop);
  uint64_t got;
  memcpy(&got, &back, 8);
  if (*stop || !well_formed(p, e))
    mc::fail("%s of %016" PRIx64 " gives '%s', which is not a number", fn, bits,
             z);
  if (got != bits)
    mc::fail("%s of %016" PRIx64 " (%.17g) gives '%s', which reads back as "
             "%016" PRIx64 " (%.17g)",
             fn, bits, v, z, got, back);
}

void d_one(uint64_t bits, bool shodan) {
  double v;
  memcpy(&v, &bits, 8);
  Buf b;
  b.arm(erthink::d2a_max_chars);
  char *e = erthink::d2a_accurate(v, b.p());
  if (e > b.p() + erthink::d2a_max_chars || b.damaged(erthink::d2a_max_chars))
    mc::fail("d2a_accurate of %016" PRIx64 " exceeds d2a_max_chars", bits);
  text_of("d2a_accurate", bits, b.p(), e);
  // the same text is already proven
  Buf f;
  f.arm(erthink::d2a_max_chars);
  char *fe = erthink::d2a_fast(v, f.p());
  if (fe > f.p() + erthink::d2a_max_chars || f.damaged(erthink::d2a_max_chars))
    mc::fail("d2a_fast of %016" PRIx64 " exceeds d2a_max_chars", bits);
  if (fe - f.p() != e - b.p() || memcmp(f.p(), b.p(), size_t(e - b.p())))
    text_of("d2a_fast", bits, f.p(), fe);
  if (shodan) {
    typedef erthink::grisu::shodan_printer<true> P;
    char buf[P::buffer_size];
    P pr(buf, buf + sizeof(buf));
    erthink::grisu::convert(pr, v);
    const auto r = pr.finalize_and_get();
    if (r.first < buf || r.second > buf + sizeof(buf) || r.first >= r.second)
      mc::fail("shodan_printer of %016" PRIx64 " leaves its buffer", bits);
    text_of("shodan_printer", bits, r.first, r.second);
  }
  mc::add(mc::shared()->outcomes);
}

const uint64_t MASK52 = (uint64_t(1) << 52) - 1;

// every exponent with a family of mantissas
void mantissas(uint64_t exponent) {
  const uint64_t base = exponent << 52;
  const bool th = mc::opt().thorough();
  auto put = [&](uint64_t m, bool sh = true) {
    m &= MASK52;
    d_one(base | m | ((m * 0x9E3779B97F4A7C15u >> 5 & 1) << 63), sh);
  };
  for (unsigned i = 0; i < 200; ++i)
    put(i), put(MASK52 - i), put((uint64_t(1) << 51) + i),
        put((uint64_t(1) << 51) - i);
  for (unsigned i = 0; i < 52; ++i)
    for (unsigned k = 0; k <= i; ++k) {
      const uint64_t two = uint64_t(1) << i | uint64_t(1) << k;
      put(two);
      put(~two);
      put((uint64_t(2) << i) - (uint64_t(1) << k)); // a run of ones
    }
  const unsigned top = th ? 16 : 12;
  for (uint64_t t = 0; t < uint64_t(1) << top; ++t) {
    const uint64_t hi = t << (52 - top);
    put(hi, false);
    put(hi + 1, false);
    put(hi - 1, false);
    put(hi * 3 + t * 0x5851F42Du, false); // fills the low part too
  }
}

// d * 10^e for all short decimals d
void grid(mc::Chooser &c) {
  const int e = int(c.choose(646)) - 340;
  const unsigned max = mc::opt().thorough() ? 100000 : 10000;
  for (unsigned d = 1; d < max; ++d) {
    char z[32];
    snprintf(z, sizeof(z), "%ue%d", d, e);
    const double v = strtod(z, nullptr);
    uint64_t bits;
    memcpy(&bits, &v, 8);
    d_one(bits, (d & 7) == 0);
    if (bits && (bits >> 52 & 0x7ff) != 0x7ff) {
      d_one(bits - 1, false);
      d_one(bits + 1, false);
    }
  }
}

// the fraction f / 2^32 of a second and alike
void fixed_one(uint32_t f) {
  typedef erthink::grisu::fractional_printer P;
  Buf b;
  b.arm(P::max_chars);
  P pr(b.p(), b.p() + P::max_chars);
  erthink::grisu::convert(pr, erthink::grisu::diy_fp::fixedpoint(f, -32));
  const auto r = pr.finalize_and_get();
  const size_t n = size_t(r.second - r.first);
  if (r.first < b.p() || r.second > b.p() + P::max_chars ||
      b.damaged(P::max_chars) || n < 2)
    mc::fail("fractional_printer of %08x leaves its buffer", f);
  char z[64];
  z[0] = '0';
  memcpy(z + 1, r.first, n);
  z[n + 1] = 0;
  char *stop;
  const double back = strtod(z, &stop) * 4294967296.0;
  if (*stop || z[1] != '.' || !well_formed(z, z + n + 1) || back < 0 ||
      uint64_t(back + 0.5) != f)
    mc::fail("fractional_printer of %08x / 2^32 gives '%s', which reads back as "
             "%.3f / 2^32",
             f, z + 1, back);
  mc::add(mc::shared()->outcomes);
}
void fixed(mc::Chooser &c) {
  const uint32_t hi = c.choose(1024);
  const uint32_t stride = mc::opt().thorough() ? 11 : 1021;
  for (uint32_t lo = 0; lo < 300; ++lo)
    fixed_one((hi << 22 | lo) ? hi << 22 | lo : 1), fixed_one(~(hi << 22 | lo));
  for (uint32_t lo = 300 + hi % stride; lo < 1u << 22; lo += stride)
    fixed_one(hi << 22 | lo);
}

//---------------------------------------------------------------- the space

const uint64_t BLOCK = 1 << 20;

void body(mc::Chooser &c, const mc::Item &it) {
  mc::step();
  switch (it.a) {
  case U32: {
    const uint64_t b = it.b * 64 + c.choose(64); // 64 parts
    mc::what("u2a from %" PRIu64, b * BLOCK);
    u32_block(b * BLOCK, (b + 1) * BLOCK);
    break;
  }
  case I32: {
    const uint64_t b = it.b * 64 + c.choose(64); // 32 parts
    mc::what("i2a from %" PRIu64, b * BLOCK);
    i32_block(b * BLOCK, (b + 1) * BLOCK + 1);
    break;
  }
  case U64:
    mc::what("groups of digits");
    u64_groups(c);
    break;
  case I64:
    mc::what("edges");
    u64_edges(c);
    break;
  case MANTISSA: {
    const uint64_t e = it.b * 64 + c.choose(64); // 32 parts
    mc::what("exponent %" PRIu64, e);
    mantissas(e);
    break;
  }
  case FLOATS: { // all the values of float
    const uint32_t hi = uint32_t(it.b) * 256 + c.choose(256); // 256 parts
    mc::what("floats %04x....", hi);
    const uint32_t stride = mc::opt().thorough() ? 1 : 61;
    for (uint32_t lo = hi % stride; lo < 65536; lo += stride) {
      const uint32_t u = hi << 16 | lo;
      float f;
      memcpy(&f, &u, 4);
      const double v = f;
      uint64_t bits;
      memcpy(&bits, &v, 8);
      d_one(bits, lo % 16 == 0);
    }
    break;
  }
  case INTEGERS: {
    const unsigned n = mc::opt().thorough() ? 65536 : 4096;
    const uint64_t part = c.choose(64), from = part * n;
    mc::what("integers and fractions from %" PRIu64, from);
    for (uint64_t i = from; i < from + n; ++i)
      for (double v : {double(i), -double(i), double(i) / 10, double(i) / 100,
                       double(i) / 1000, double(i) / 1024, double(i) * 1e9,
                       9007199254740992.0 - double(i),
                       9007199254740992.0 + double(i) * 2,
                       18446744073709551616.0 - double(i) * 2048,
                       18446744073709551616.0 + double(i) * 4096, 1.0 / double(i)}) {
        uint64_t bits;
        memcpy(&bits, &v, 8);
        d_one(bits, true);
      }
    break;
  }
  case FIXED:
    mc::what("fractions of 2^-32");
    fixed(c);
    break;
  case GRID:
    mc::what("short decimals");
    grid(c);
    break;
  }
}

} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    auto put = [&](const char *name, Kind k, unsigned parts) {
      for (unsigned i = 0; i < parts; ++i) {
        mc::Item it;
        it.name = parts > 1 ? name + std::string("-") + std::to_string(i) : name;
        it.a = k;
        it.b = i;
        r.push_back(it);
      }
    };
    put("u64-edges", I64, 1);
    put("u64-groups", U64, 1);
    put("integers", INTEGERS, 1);
    put("short-decimals", GRID, 1);
    put("fractions", FIXED, 1);
    put("mantissas", MANTISSA, 32);
    put("floats", FLOATS, 256);
    put("all-u32", U32, 64);
    put("all-i32", I32, 33);
    return r;
  };
  h.run = [](const mc::Item &i) {
    mc::dfs([&](mc::Chooser &c) { body(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(i.name + ": " + mc::slot()->what);
  };
  h.replay = [](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { body(c, i); });
  };
  h.describe_space = [] {
    return std::string("all of uint32 and int32; groups of digits and edges "
                       "of uint64 and int64; families of doubles");
  };
  return mc::main_(argc, argv, h);
}
