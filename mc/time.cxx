// P16: moments of time. Complete sweeps over all the sub-second units and all
// the binary fractions, boundary grids for the rest, a controlled clock for
// fptu_now(). The oracle is integer arithmetic written down here.
#include "mc.hpp"

#include "fast_positive/tuples.h"
#include <sys/syscall.h>
#include <sys/time.h>

using fptu::datetime_t;
typedef unsigned __int128 u128;

namespace std {
string to_string(const fptu_datetime_t &time);
}

//------------------------------------------------------------------------------
// the controlled clock

namespace {
struct {
  bool armed;
  unsigned calls;
  timespec fine, coarse;
} clk;
const long COARSE_RESOLUTION = 4000000;
} // namespace

extern "C" int __real_clock_gettime(clockid_t, timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, timespec *ts) {
  if (!clk.armed)
    return __real_clock_gettime(id, ts);
  ++clk.calls;
  *ts = id == CLOCK_REALTIME_COARSE ? clk.coarse : clk.fine;
  return 0;
}
extern "C" int __real_clock_getres(clockid_t, timespec *);
extern "C" int __wrap_clock_getres(clockid_t id, timespec *ts) {
  if (id == CLOCK_REALTIME_COARSE) {
    ts->tv_sec = 0;
    ts->tv_nsec = COARSE_RESOLUTION;
    return 0;
  }
  return __real_clock_getres(id, ts);
}

namespace {

enum Kind { NS, FRACTION, UNITS, ORDER, TEXT_DAY, TEXT_FRACTION, NOW };

const uint64_t TWO32 = uint64_t(1) << 32;

// the only fraction f with f/2^32 <= n/per < (f+1)/2^32
bool is_floor_fraction(uint64_t f, uint64_t n, uint64_t per) {
  return f < TWO32 && u128(f) * per <= (u128(n) << 32) &&
         (u128(n) << 32) < u128(f + 1) * per;
}
// the only count n with n/per <= f/2^32 < (n+1)/per
bool is_floor_units(uint64_t n, uint64_t f, uint64_t per) {
  return u128(n) << 32 <= u128(f) * per && u128(f) * per < u128(n + 1) << 32;
}

const uint32_t SECONDS[] = {0,          1,          2,          59,
                            0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe,
                            0xffffffff, 951782400,  1604188800, 4102444800u};

//---------------------------------------------------------------- sweeps

void ns_block(uint32_t from, uint32_t till) {
  uint64_t prev = from ? datetime_t::ns2fractional(from - 1) : 0;
  for (uint32_t ns = from; ns < till; ++ns) {
    const uint64_t f = datetime_t::ns2fractional(ns);
    // fits in 64 bits: both are less than 2^62
    const uint64_t exact = uint64_t(ns) << 32, low = f * 1000000000u;
    if (f >= TWO32 || low > exact || exact - low >= 1000000000u)
      mc::fail("ns2fractional(%u) gives %" PRIu64
               ", which is not the floor of ns * 2^32 / 10^9",
               ns, f);
    if (f < prev)
      mc::fail("ns2fractional(%u) = %" PRIu64 " is less than that of %u", ns, f,
               ns - 1);
    prev = f;
    timespec ts;
    ts.tv_sec = SECONDS[ns % 12];
    ts.tv_nsec = ns;
    const uint64_t want = uint64_t(SECONDS[ns % 12]) << 32 | f;
    if (datetime_t::from_timespec(ts).fixedpoint_32dot32() != want)
      mc::fail("from_timespec(%" PRIi64 " s, %u ns) is not %" PRIx64,
               int64_t(ts.tv_sec), ns, want);
    if (datetime_t::from_nsec(uint64_t(ts.tv_sec) * 1000000000u + ns)
            .fixedpoint_32dot32() != want)
      mc::fail("from_nsec(%" PRIi64 " s, %u ns) is not %" PRIx64,
               int64_t(ts.tv_sec), ns, want);
  }
  mc::add(mc::shared()->outcomes, till - from);
}

void fraction_block(uint64_t from, uint64_t till) {
  for (uint64_t f = from; f < till; ++f) {
    const uint64_t ns = datetime_t::fractional2ns(f),
                   us = datetime_t::fractional2us(f),
                   ms = datetime_t::fractional2ms(f);
    // remainders in units of 1/2^32 of the unit
    const uint64_t rn = f * 1000000000u - (ns << 32),
                   ru = f * 1000000u - (us << 32), rm = f * 1000u - (ms << 32);
    if ((rn | ru | rm) >= TWO32 || ns > 999999999u || us > 999999u || ms > 999u)
      mc::fail("fraction %" PRIx64 " / 2^32 gives %" PRIu64 " ns, %" PRIu64
               " us, %" PRIu64 " ms: not the floor of the exact value",
               f, ns, us, ms);
  }
  mc::add(mc::shared()->outcomes, till - from);
}

// us and ms completely, other units by a grid
const uint32_t PER[] = {1,       2,        3,          7,         10,
                        60,      100,      1000,       1001,      1024,
                        65535,   65536,    1000000,    10000000,  16777216,
                        99999999, 1000000000, 0x7fffffff, 0x80000000,
                        0xfffffffe, 0xffffffff};

void units(mc::Chooser &c) {
  const unsigned what = c.choose(2 + unsigned(sizeof(PER) / sizeof(PER[0])));
  if (what < 2) {
    const uint32_t per = what ? 1000 : 1000000;
    for (uint32_t n = 0; n < per; ++n) {
      const uint64_t f =
          what ? datetime_t::ms2fractional(n) : datetime_t::us2fractional(n);
      if (!is_floor_fraction(f, n, per))
        mc::fail("%u units of 1/%u second give the fraction %" PRIu64, n, per,
                 f);
      for (uint32_t s : SECONDS) {
        const uint64_t want = uint64_t(s) << 32 | f, n64 = uint64_t(s) * per + n;
        const datetime_t d = what ? datetime_t::from_milliseconds(n64)
                                  : datetime_t::from_usec(n64);
        if (d.fixedpoint_32dot32() != want)
          mc::fail("%" PRIu64 " units of 1/%u second give %" PRIx64
                   " instead of %" PRIx64,
                   n64, per, d.fixedpoint_32dot32(), want);
        if (!what) {
          timeval tv;
          tv.tv_sec = s;
          tv.tv_usec = n;
          if (datetime_t::from_timeval(tv).fixedpoint_32dot32() != want)
            mc::fail("from_timeval(%u, %u) is not %" PRIx64, s, n, want);
        }
      }
      mc::add(mc::shared()->outcomes, 13);
    }
    return;
  }
  const uint32_t per = PER[what - 2];
  auto one = [&](uint32_t s, uint32_t n) {
    const uint64_t n64 = uint64_t(s) * per + n;
    const datetime_t d(n64, per);
    if (d.utc_seconds() != s || !is_floor_fraction(d.fractional(), n, per))
      mc::fail("%" PRIu64 " units of 1/%u second give %u.%08x", n64, per,
               d.utc_seconds(), d.fractional());
    if (per == 10000000 &&
        datetime_t::from_100ns(n64).fixedpoint_32dot32() !=
            d.fixedpoint_32dot32())
      mc::fail("from_100ns(%" PRIu64 ")", n64);
    mc::add(mc::shared()->outcomes);
  };
  for (uint32_t s : SECONDS) {
    for (uint32_t n = 0; n < 5000 && n < per; ++n) {
      one(s, n);
      one(s, per - 1 - n);
      one(s, uint32_t(uint64_t(per) * n / 5000));
    }
    for (unsigned b = 0; b < 32; ++b)
      for (int d = -2; d <= 2; ++d) {
        const uint64_t n = (uint64_t(1) << b) + d;
        if (n < per)
          one(s, uint32_t(n));
      }
  }
  for (uint32_t s : SECONDS) {
    const time_t t = s;
    if (datetime_t(&t).fixedpoint_32dot32() != uint64_t(s) << 32 ||
        datetime_t::from_seconds(s).fixedpoint_32dot32() != uint64_t(s) << 32)
      mc::fail("%u seconds", s);
  }
}

std::vector<uint64_t> moments() {
  std::vector<uint64_t> r;
  for (uint32_t s : SECONDS)
    for (uint32_t f :
         {0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu})
      r.push_back(uint64_t(s) << 32 | f);
  for (unsigned b = 0; b < 64; ++b)
    for (int d = -1; d <= 1; ++d)
      r.push_back((uint64_t(1) << b) + d);
  return r;
}

void order(mc::Chooser &c) {
  static const std::vector<uint64_t> all = moments();
  const uint64_t x = all[c.choose(unsigned(all.size()))];
  const datetime_t a = datetime_t::from_fixedpoint_32dot32(x);
  const fptu_datetime_C &raw = a;
  if (a.fixedpoint_32dot32() != x || a.utc_seconds() != uint32_t(x >> 32) ||
      a.fractional() != uint32_t(x) || raw.fixedpoint != x ||
      raw.utc != uint32_t(x >> 32) || raw.fractional != uint32_t(x))
    mc::fail("the parts of the moment %" PRIx64 " are wrong", x);
  if (!(datetime_t(raw) == a))
    mc::fail("the copy of the moment %" PRIx64, x);
  // long double holds all of 64 bits
  const long double exact = ldexpl((long double)x, -32);
  if (a.fractional_seconds() != double(ldexpl((long double)uint32_t(x), -32)) ||
      a.seconds() != double(exact))
    mc::fail("the moment %" PRIx64 " is %.20g seconds", x, a.seconds());
  for (uint64_t y : all) {
    const datetime_t b = datetime_t::from_fixedpoint_32dot32(y);
    if ((a == b) != (x == y) || (a != b) != (x != y) || (a < b) != (x < y) ||
        (a > b) != (x > y) || (a <= b) != (x <= y) || (a >= b) != (x >= y))
      mc::fail("comparison of %" PRIx64 " and %" PRIx64, x, y);
    mc::add(mc::shared()->outcomes);
  }
}

//---------------------------------------------------------------- text

// days since 1970-01-01 to the date, by walking over years and months
struct Date {
  unsigned y, m, d;
};
bool leap(unsigned y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
Date date_of(uint64_t days) {
  Date r = {1970, 1, 1};
  while (days >= (leap(r.y) ? 366u : 365u))
    days -= leap(r.y) ? 366 : 365, ++r.y;
  static const unsigned len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  for (;; ++r.m) {
    const unsigned l = len[r.m - 1] + (r.m == 2 && leap(r.y));
    if (days < l)
      break;
    days -= l;
  }
  r.d = unsigned(days) + 1;
  return r;
}
// to the nearest nanosecond, ties to the even one
std::string expected(uint32_t utc, uint32_t fraction) {
  const u128 v = u128(fraction) * 1000000000u;
  uint64_t ns = uint64_t(v >> 32);
  const uint32_t rest = uint32_t(v);
  if (rest > 0x80000000u || (rest == 0x80000000u && (ns & 1)))
    ++ns;
  uint64_t sec = utc;
  if (ns == 1000000000u)
    ns = 0, ++sec;
  const Date d = date_of(sec / 86400);
  const unsigned in = unsigned(sec % 86400);
  char buf[64];
  snprintf(buf, sizeof(buf), "%04u-%02u-%02uZ%02u:%02u:%02u.%09u", d.y, d.m,
           d.d, in / 3600, in / 60 % 60, in % 60, unsigned(ns));
  return buf;
}
void text(uint32_t utc, uint32_t fraction) {
  const std::string got =
      std::to_string(datetime_t::from_fixedpoint_32dot32(
          uint64_t(utc) << 32 | fraction)),
                    want = expected(utc, fraction);
  if (got != want)
    mc::fail("the moment %u.%08x is printed as '%s' instead of '%s'", utc,
             fraction, got.c_str(), want.c_str());
  mc::add(mc::shared()->outcomes);
}

const uint32_t FR[] = {0,          1,          2,          0x7fffffff,
                       0x80000000, 0xfffffffd, 0xfffffffe, 0xffffffff};

//---------------------------------------------------------------- now

void now(mc::Chooser &c) {
  // the fine clock is ahead of the coarse one by a part of its resolution
  const uint32_t sec = SECONDS[c.choose(12)];
  static const long NSEC[] = {0,         1,         3999999,   4000000,
                              123456789, 499999999, 500000000, 995999999,
                              999999998, 999999999};
  const long fine_ns = NSEC[c.choose(10)];
  static const long BEHIND[] = {0, 1, 3999999};
  const long behind = BEHIND[c.choose(3)];
  clk.fine.tv_sec = sec;
  clk.fine.tv_nsec = fine_ns;
  clk.coarse = clk.fine;
  if (fine_ns >= behind)
    clk.coarse.tv_nsec = fine_ns - behind;
  const uint64_t fine = datetime_t::from_timespec(clk.fine).fixedpoint_32dot32(),
                 coarse =
                     datetime_t::from_timespec(clk.coarse).fixedpoint_32dot32();
  auto run = [&](const char *name, int grain, uint64_t a, uint64_t b,
                 unsigned zero_bits, datetime_t (*fn)(int)) {
    clk.calls = 0;
    clk.armed = true;
    const uint64_t got = fn(grain).fixedpoint_32dot32();
    clk.armed = false;
    const uint64_t mask = zero_bits >= 32 ? ~uint64_t(0) << 32
                                          : ~uint64_t(0) << zero_bits;
    if (got & ~mask)
      mc::fail("%s(%d) gives %" PRIx64 ": the low bits are not zero", name,
               grain, got);
    // the oracle of the value needs the controlled clock to be the source
    if (clk.calls && got != (a & mask) && got != (b & mask))
      mc::fail("%s(%d) gives %" PRIx64 " while the clocks show %" PRIx64
               " (fine) and %" PRIx64 " (coarse)",
               name, grain, got, fine, coarse);
    mc::add(mc::shared()->outcomes);
  };
  run("now_fine", 0, fine, fine, 0,
      [](int) { return datetime_t::now_fine(); });
  run("now_coarse", 0, coarse, fine, 0,
      [](int) { return datetime_t::now_coarse(); });
  const auto fn = [](int g) { return datetime_t::now(g); };
  for (int g = -70; g <= 0; ++g)
    run("now", g, fine, g <= -15 ? coarse : fine, unsigned(-g), fn);
  for (int g : {1, 2, 1000, 999999, 1000000, 3999999})
    run("now", g, fine, fine, 0, fn);
  for (int g : {4000000, 4000001, 1000000000, 0x7fffffff})
    run("now", g, fine, coarse, 0, fn);
  for (int g : {-1000, -65536, -0x7fffffff, -0x7fffffff - 1})
    run("now", g, fine, coarse, 32, fn);
}

//---------------------------------------------------------------- the space

const uint32_t NS_BLOCK = 1000000;
const uint64_t FR_BLOCK = 1 << 20;

void body(mc::Chooser &c, const mc::Item &it) {
  mc::step();
  switch (it.a) {
  case NS: {
    const unsigned b = unsigned(it.b) * 50 + c.choose(50); // 20 parts
    mc::what("nanoseconds from %u", b * NS_BLOCK);
    ns_block(b * NS_BLOCK, (b + 1) * NS_BLOCK);
    break;
  }
  case FRACTION: {
    const uint64_t b = it.b * 128 + c.choose(128); // 32 parts
    mc::what("fractions from %" PRIx64, b * FR_BLOCK);
    fraction_block(b * FR_BLOCK, (b + 1) * FR_BLOCK);
    break;
  }
  case UNITS:
    mc::what("units");
    units(c);
    break;
  case ORDER:
    mc::what("order");
    order(c);
    break;
  case TEXT_DAY: {
    const uint32_t day = uint32_t(it.b) * 5000 + c.choose(5000);
    if (day > 49710)
      return;
    mc::what("text of the day %u", day);
    const uint64_t base = uint64_t(day) * 86400;
    auto at = [&](uint64_t s) {
      if (s < TWO32)
        for (uint32_t f : FR)
          text(uint32_t(s), f);
    };
    for (unsigned s : {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86398,
                       86399})
      at(base + s);
    // all the seconds of some days
    const Date d = date_of(day);
    if (d.d == 29 && d.m == 2 && (d.y % 100 == 0 || d.y == 2016))
      for (unsigned s = 0; s < 86400; ++s)
        text(uint32_t(base + s), 0xfffffffeu);
    if (day == 49710)
      for (uint64_t s = base; s < TWO32; ++s)
        text(uint32_t(s), 0xffffffffu);
    break;
  }
  case TEXT_FRACTION: {
    const unsigned kind = c.choose(4), part = c.choose(16);
    const unsigned n = mc::opt().thorough() ? 65536 : 8192;
    mc::what("text of fractions %u.%u", kind, part);
    for (unsigned i = part * n; i < (part + 1) * n; ++i) {
      uint32_t f = 0;
      if (kind == 0)
        f = i;
      else if (kind == 1)
        f = 0xffffffffu - i;
      else if (kind == 2) // evenly over the whole range
        f = uint32_t(uint64_t(i) * TWO32 / (16 * n));
      else // next to whole nanoseconds and to the halves of them
        f = uint32_t((u128(uint64_t(i) * 7629 % 2000000000u) << 32) /
                     2000000000u);
      text(i & 1 ? 0xffffffffu : 68169599u, f);
      text(i & 1 ? 4102444799u : 951868799u, f + 1);
    }
    break;
  }
  case NOW:
    mc::what("now");
    now(c);
    break;
  }
}

} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    auto put = [&](const char *name, Kind k, unsigned parts) {
      for (unsigned i = 0; i < parts; ++i) {
        mc::Item it;
        it.name = parts > 1 ? name + std::string("-") + std::to_string(i) : name;
        it.a = k;
        it.b = i;
        r.push_back(it);
      }
    };
    put("units", UNITS, 1);
    put("order", ORDER, 1);
    put("now", NOW, 1);
    put("text-of-fractions", TEXT_FRACTION, 1);
    put("text-of-days", TEXT_DAY, 10);
    put("all-nanoseconds", NS, 20);
    put("all-fractions", FRACTION, 32);
    return r;
  };
  h.run = [](const mc::Item &i) {
    mc::dfs([&](mc::Chooser &c) { body(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(i.name + ": " + mc::slot()->what);
  };
  h.replay = [](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { body(c, i); });
  };
  h.describe_space = [] {
    return std::string("all 10^9 nanoseconds, 10^6 microseconds, 1000 "
                       "milliseconds and 2^32 fractions of a second");
  };
  return mc::main_(argc, argv, h);
}
