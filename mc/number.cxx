// P15: conversions of numbers on the way into a field and back: all setters x
// all types x all kinds of fields x boundary values (and, for float, all the
// values).
#include "fields.hpp"
#include <cmath>

using fptu::genus;
using fptu::token;
using fptu::tuple_rw_fixed;
using fptu::tuple_rw_managed;
typedef __int128 big;

namespace {

enum Src {
  INTEGER_I, INTEGER_U, UNSIGNED_I, UNSIGNED_U, FLOAT_D, NUM_I32, NUM_U32,
  NUM_I64, NUM_U64, NUM_F, NUM_D, INT128, UINT128, NSRC
};
const char *const src_names[] = {
    "integer(int64)", "integer(uint64)", "unsigned(int64)", "unsigned(uint64)",
    "float(double)", "number(int32)", "number(uint32)", "number(int64)",
    "number(uint64)", "number(float)", "number(double)", "int128", "uint128"};
enum Way { SET, ACCESSOR, MANAGED_SET, INSERT, ITEM, MANAGED_INSERT, NWAYS };
const char *const way_names[] = {"set", "accessor", "managed.set",
                                 "insert", "item", "managed.insert"};
bool is_fp(Src s) { return s == FLOAT_D || s == NUM_F || s == NUM_D; }

struct Value {
  big i;                // integers, as bits for uint128
  double d;             // floating point
  std::string str(Src s) const {
    char b[80];
    if (is_fp(s))
      snprintf(b, sizeof b, "%a", d);
    else
      snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(i >> 64),
               (unsigned long long)i);
    return b;
  }
};

//----------------------------------------------------------------- calls
template <class T> void call_set(Src s, T &t, const token &k, const Value &v) {
  switch (s) {
  case INTEGER_I: t.set_integer(k, int64_t(v.i)); break;
  case INTEGER_U: t.set_integer(k, uint64_t(v.i)); break;
  case UNSIGNED_I: t.set_unsigned(k, int64_t(v.i)); break;
  case UNSIGNED_U: t.set_unsigned(k, uint64_t(v.i)); break;
  case FLOAT_D: t.set_float(k, v.d); break;
  case NUM_I32: t.set_number(k, int32_t(v.i)); break;
  case NUM_U32: t.set_number(k, uint32_t(v.i)); break;
  case NUM_I64: t.set_number(k, int64_t(v.i)); break;
  case NUM_U64: t.set_number(k, uint64_t(v.i)); break;
  case NUM_F: t.set_number(k, float(v.d)); break;
  case NUM_D: t.set_number(k, v.d); break;
  case INT128: t.set_int128(k, fptu::int128_t(v.i)); break;
  case UINT128: t.set_uint128(k, fptu::uint128_t(v.i)); break;
  default: mc::harness_error("source");
  }
}
template <class A> void call_accessor(Src s, A &&a, const Value &v) {
  switch (s) {
  case INTEGER_I: a.set_integer(int64_t(v.i)); break;
  case INTEGER_U: a.set_integer(uint64_t(v.i)); break;
  case UNSIGNED_I: a.set_unsigned(int64_t(v.i)); break;
  case UNSIGNED_U: a.set_unsigned(uint64_t(v.i)); break;
  case FLOAT_D: a.set_float(v.d); break;
  case NUM_I32: a.set_number(int32_t(v.i)); break;
  case NUM_U32: a.set_number(uint32_t(v.i)); break;
  case NUM_I64: a.set_number(int64_t(v.i)); break;
  case NUM_U64: a.set_number(uint64_t(v.i)); break;
  case NUM_F: a.set_number(float(v.d)); break;
  case NUM_D: a.set_number(v.d); break;
  case INT128: a.set_int128(fptu::int128_t(v.i)); break;
  case UINT128: a.set_uint128(fptu::uint128_t(v.i)); break;
  default: mc::harness_error("source");
  }
}
template <class T>
void call_insert(Src s, T &t, const token &k, const Value &v) {
  switch (s) {
  case INTEGER_I: t.insert_integer(k, int64_t(v.i)); break;
  case INTEGER_U: t.insert_integer(k, uint64_t(v.i)); break;
  case UNSIGNED_I: t.insert_unsigned(k, int64_t(v.i)); break;
  case UNSIGNED_U: t.insert_unsigned(k, uint64_t(v.i)); break;
  case FLOAT_D: t.insert_float(k, v.d); break;
  case NUM_I32: t.insert_number(k, int32_t(v.i)); break;
  case NUM_U32: t.insert_number(k, uint32_t(v.i)); break;
  case NUM_I64: t.insert_number(k, int64_t(v.i)); break;
  case NUM_U64: t.insert_number(k, uint64_t(v.i)); break;
  case NUM_F: t.insert_number(k, float(v.d)); break;
  case NUM_D: t.insert_number(k, v.d); break;
  case INT128: t.insert_int128(k, fptu::int128_t(v.i)); break;
  case UINT128: t.insert_uint128(k, fptu::uint128_t(v.i)); break;
  default: mc::harness_error("source");
  }
}

//---------------------------------------------------------------- oracle
enum Verdict { STORE, BAD_TYPE, BAD_RANGE };
struct Expect {
  Verdict verdict;
  big i;      // for integer fields and bin128
  double d;   // for f32, f64
};
bool sint(genus g) {
  return g == fptu::i8 || g == fptu::i16 || g == fptu::i32 || g == fptu::i64;
}
bool uint(genus g) {
  return g == fptu::u8 || g == fptu::u16 || g == fptu::u32 || g == fptu::u64;
}
bool real(genus g) { return g == fptu::f32 || g == fptu::f64; }
unsigned bits(genus g) { return unsigned(fx::fixed_size(g)) * 8; }
big top(genus g) { // the largest value of an integer type
  return ((big)1 << (bits(g) - (sint(g) ? 1 : 0))) - 1;
}
big bottom(genus g) { return sint(g) ? -top(g) - 1 : 0; }

// the integers a float or a double may hold exactly, as documented
const big SAFE32 = 0x1FFFFF, SAFE64 = 0x1FFFFFFFFFFFFF;

Expect integer_into(genus g, big v, bool fits = true) {
  if (!fits || v < bottom(g) || v > top(g))
    return {BAD_RANGE, 0, 0};
  return {STORE, v, 0};
}
Expect expect(Src s, genus g, const Value &v) {
  switch (s) {
  case INTEGER_I:
  case INTEGER_U:
    return sint(g) ? integer_into(g, v.i) : Expect{BAD_TYPE, 0, 0};
  case UNSIGNED_I:
  case UNSIGNED_U:
    return uint(g) ? integer_into(g, v.i) : Expect{BAD_TYPE, 0, 0};
  case INT128:
    if (g == fptu::bin128)
      return {STORE, v.i, 0};
    return sint(g) ? integer_into(g, v.i) : Expect{BAD_TYPE, 0, 0};
  case UINT128:
    if (g == fptu::bin128)
      return {STORE, v.i, 0};
    return uint(g) ? integer_into(g, v.i, v.i >= 0) : Expect{BAD_TYPE, 0, 0};
  case NUM_I32:
  case NUM_U32:
  case NUM_I64:
  case NUM_U64:
    if (sint(g) || uint(g))
      return integer_into(g, v.i);
    if (real(g)) {
      const big safe = g == fptu::f32 ? SAFE32 : SAFE64;
      if (v.i < -safe || v.i > safe)
        return {BAD_RANGE, 0, 0};
      return {STORE, 0, double(v.i)};
    }
    return {BAD_TYPE, 0, 0};
  case FLOAT_D:
  case NUM_F:
  case NUM_D:
    if (g == fptu::f64)
      return {STORE, 0, v.d};
    if (g == fptu::f32) {
      if (std::isfinite(v.d) && std::fabs(v.d) > 0x1.fffffep127)
        return {BAD_RANGE, 0, 0};
      return {STORE, 0, double(float(v.d))};
    }
    if (s != FLOAT_D && (sint(g) || uint(g))) {
      // between the least and the largest one; the least of the wide signed
      // types is excluded
      if (std::isnan(v.d))
        return {BAD_RANGE, 0, 0};
      const big low = sint(g) && bits(g) >= 32 ? -top(g) : bottom(g);
      // 2^n bounds are exact in long double
      if (!((long double)v.d >= (long double)low &&
            (long double)v.d <= (long double)top(g)))
        return {BAD_RANGE, 0, 0};
      return {STORE, big(v.d), 0};
    }
    return {BAD_TYPE, 0, 0};
  default:
    mc::harness_error("source");
  }
}

//---------------------------------------------------------------- values
template <class F> void near_floats(std::vector<double> &r, F x) {
  const F inf = std::numeric_limits<F>::infinity();
  const F a = std::nextafter(x, -inf), b = std::nextafter(x, inf);
  for (F y : {std::nextafter(a, -inf), a, x, b, std::nextafter(b, inf)})
    r.push_back(double(y));
}
const std::vector<Value> &values(Src s) {
  static std::vector<Value> all[NSRC];
  auto &r = all[s];
  if (!r.empty())
    return r;
  std::vector<big> ints;
  const int near = mc::opt().thorough() || !is_fp(s) ? 3 : 1;
  for (int k = 0; k <= 127; ++k)
    for (int d = -near; d <= near; ++d) {
      const big p = (big)((unsigned __int128)1 << k);
      ints.push_back((big)((unsigned __int128)p + d));
      ints.push_back((big)(-(unsigned __int128)p + d));
    }
  std::sort(ints.begin(), ints.end());
  ints.erase(std::unique(ints.begin(), ints.end()), ints.end());
  if (!is_fp(s)) {
    big lo, hi;
    switch (s) {
    case INTEGER_I: case UNSIGNED_I: case NUM_I64:
      lo = INT64_MIN; hi = INT64_MAX; break;
    case INTEGER_U: case UNSIGNED_U: case NUM_U64:
      lo = 0; hi = UINT64_MAX; break;
    case NUM_I32: lo = INT32_MIN; hi = INT32_MAX; break;
    case NUM_U32: lo = 0; hi = UINT32_MAX; break;
    default: lo = ints.front(); hi = ints.back();
    }
    for (big i : ints)
      if (i >= lo && i <= hi)
        r.push_back({i, 0});
    return r;
  }
  std::vector<double> fl;
  for (big i : ints) {
    const double d = double(i);
    if (!mc::opt().thorough() && std::fabs(d) > 0x1p66 && std::fabs(d) < 0x1p120)
      continue;
    near_floats<double>(fl, d);
    near_floats<float>(fl, float(i));
    for (double h : {-0.5, -0.25, 0.25, 0.5, 0.75}) {
      fl.push_back(d + h);
      fl.push_back(double(float(d + h)));
    }
  }
  // the conversions do not look below 2^-8 and between 2^70 and 2^120
  const int es = mc::opt().thorough() ? 1 : 181;
  for (int e = -1074; e < 1024; e += e < -10 || e > 130 ? es : 1)
    for (double m : {1.0, 1.5, -1.0, -1.5})
      fl.push_back(std::ldexp(m, e));
  near_floats<double>(fl, std::numeric_limits<float>::max());
  near_floats<double>(fl, -std::numeric_limits<float>::max());
  near_floats<double>(fl, std::numeric_limits<float>::min());
  near_floats<float>(fl, std::numeric_limits<float>::denorm_min());
  for (double d : {std::numeric_limits<double>::max(),
                   -std::numeric_limits<double>::max(),
                   std::numeric_limits<double>::infinity(),
                   -std::numeric_limits<double>::infinity(),
                   std::numeric_limits<double>::quiet_NaN(),
                   -std::numeric_limits<double>::quiet_NaN(), 0.0, -0.0})
    fl.push_back(d);
  // sources of float take only the values a float can hold
  std::vector<double> u;
  for (double d : fl)
    if (s != NUM_F || std::isnan(d) || double(float(d)) == d)
      u.push_back(d);
  auto key = [](double d) {
    int64_t k;
    memcpy(&k, &d, 8);
    return k;
  };
  std::sort(u.begin(), u.end(),
            [&](double a, double b) { return key(a) < key(b); });
  u.erase(std::unique(u.begin(), u.end(),
                      [&](double a, double b) { return key(a) == key(b); }),
          u.end());
  for (double d : u)
    r.push_back({0, d});
  return r;
}

//---------------------------------------------------------------- fields
enum Kind { LOOSE, LOOSE_DN, PREPLACED, PREPLACED_DN, COLLECTION };
const char *const kind_names[] = {"loose", "loose dn", "preplaced",
                                  "preplaced dn", "collection"};

struct Field {
  genus g;
  Kind kind;
  std::unique_ptr<fptu::schema> schema;
  token tok;
};
Field make_field(genus g, Kind k) {
  Field f;
  f.g = g;
  f.kind = k;
  if (k == PREPLACED || k == PREPLACED_DN) {
    f.schema = fptu::schema::create();
    f.schema->define_preplaced("F", g);
    f.tok = f.schema->get_token(
        "F", k == PREPLACED_DN ? fptu::schema::boolean_option::option_enforce_true
                               : fptu::schema::boolean_option::option_default);
  } else
    f.tok = token(g, 7, k == COLLECTION, k == LOOSE_DN, false);
  return f;
}

bool same(double a, double b) {
  return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b);
}
template <class T> big typed(const T &t, genus g, double &d) {
  d = 0;
  switch (g) {
  case fptu::i8: return t.get_i8();
  case fptu::i16: return t.get_i16();
  case fptu::i32: return t.get_i32();
  case fptu::i64: return t.get_i64();
  case fptu::u8: return t.get_u8();
  case fptu::u16: return t.get_u16();
  case fptu::u32: return t.get_u32();
  case fptu::u64: return t.get_u64();
  case fptu::f32: d = t.get_f32(); return 0;
  case fptu::f64: d = t.get_f64(); return 0;
  case fptu::bin128: {
    big i;
    auto b = t.get_bin128();
    static_assert(sizeof b == 16, "");
    memcpy(&i, &b, 16);
    return i;
  }
  default: return 0;
  }
}
// calls a getter, tells whether it has thrown
template <class F> bool refused(F f) {
  try {
    f();
    return false;
  } catch (const fptu::type_mismatch &) {
    return true;
  } catch (const fptu::value_out_of_range &) {
    return true;
  } catch (const fptu::field_absent &) {
    return true;
  }
}

// A refusal by the type does not depend on the value and an exception is costly
// under the sanitizers: the refusing getters are called for some values only.
bool deep = true;

// A: accessor of a present field
template <class A>
void check_getters(const A &a, genus g, big i, double d, const char *what) {
  double td;
  const big ti = typed(a, g, td);
  if (real(g))
    MC_CHECK(same(d, td) || (d == 0 && td == 0), "%s: %a is stored as %a", what,
             d, td);
  else
    MC_CHECK(ti == i, "%s: 0x%llx%016llx is stored as 0x%llx%016llx", what,
             (unsigned long long)(i >> 64), (unsigned long long)i,
             (unsigned long long)(ti >> 64), (unsigned long long)ti);
  big gi = 0;
  double gd = 0;
  bool no;
  if (deep || sint(g)) {
    no = refused([&] { gi = a.get_integer(); });
    MC_CHECK(no == !sint(g) && (no || gi == i), "%s: get_integer", what);
  }
  if (deep || uint(g)) {
    no = refused([&] { gi = a.get_unsigned(); });
    MC_CHECK(no == !uint(g) && (no || gi == i), "%s: get_unsigned", what);
  }
  if (deep || sint(g) || g == fptu::bin128) {
    no = refused([&] { gi = big(a.get_int128()); });
    MC_CHECK(no == !(sint(g) || g == fptu::bin128) || g == fptu::bin128,
             "%s: get_int128", what);
    MC_CHECK(no || gi == i, "%s: get_int128 gives another value", what);
  }
  if (deep || uint(g) || g == fptu::bin128) {
    no = refused([&] { gi = big(a.get_uint128()); });
    MC_CHECK(no == !(uint(g) || g == fptu::bin128), "%s: get_uint128", what);
    MC_CHECK(no || gi == i, "%s: get_uint128 gives another value", what);
  }
  if (deep || real(g)) {
    no = refused([&] { gd = a.get_float(); });
    MC_CHECK(no == !real(g) && (no || same(gd, td)), "%s: get_float", what);
  }
  no = refused([&] { gd = a.get_number_as_ieee754double(); });
  if (real(g))
    MC_CHECK(!no && same(gd, td), "%s: get_number_as_ieee754double", what);
  else {
    const bool safe = (sint(g) || uint(g)) && i >= -SAFE64 && i <= SAFE64;
    MC_CHECK(no == !safe && (no || gd == double(i)),
             "%s: get_number_as_ieee754double", what);
  }
}

// is the value seen as absence by the field
bool reads_absent(const Field &f, big i, double d) {
  const bool zero = real(f.g) ? d == 0 : i == 0;
  if (f.kind == LOOSE)
    return zero;
  if (f.kind == PREPLACED_DN) {
    if (sint(f.g))
      return i == bottom(f.g);
    if (real(f.g))
      return false; // the designated NaN is not among our values
    return zero;
  }
  return false;
}

enum { NPREV = 2 };
// previous state of the field: absent or 1
template <class T> void put_one(T &t, const Field &f) {
  switch (f.g) {
  case fptu::i8: t.set_i8(f.tok, 1); break;
  case fptu::i16: t.set_i16(f.tok, 1); break;
  case fptu::i32: t.set_i32(f.tok, 1); break;
  case fptu::i64: t.set_i64(f.tok, 1); break;
  case fptu::u8: t.set_u8(f.tok, 1); break;
  case fptu::u16: t.set_u16(f.tok, 1); break;
  case fptu::u32: t.set_u32(f.tok, 1); break;
  case fptu::u64: t.set_u64(f.tok, 1); break;
  case fptu::f32: t.set_f32(f.tok, 1); break;
  case fptu::f64: t.set_f64(f.tok, 1); break;
  case fptu::bin128: {
    fptu::binary128_t b;
    const big one = 1;
    memcpy((void *)&b, &one, 16);
    t.set_bin128(f.tok, b);
  } break;
  default: break;
  }
}
template <class T> void insert_one(T &t, const Field &f) {
  switch (f.g) {
  case fptu::i8: t.insert_i8(f.tok, 1); break;
  case fptu::i16: t.insert_i16(f.tok, 1); break;
  case fptu::i32: t.insert_i32(f.tok, 1); break;
  case fptu::i64: t.insert_i64(f.tok, 1); break;
  case fptu::u8: t.insert_u8(f.tok, 1); break;
  case fptu::u16: t.insert_u16(f.tok, 1); break;
  case fptu::u32: t.insert_u32(f.tok, 1); break;
  case fptu::u64: t.insert_u64(f.tok, 1); break;
  case fptu::f32: t.insert_f32(f.tok, 1); break;
  case fptu::f64: t.insert_f64(f.tok, 1); break;
  case fptu::bin128: {
    fptu::binary128_t b;
    const big one = 1;
    memcpy((void *)&b, &one, 16);
    t.insert_bin128(f.tok, b);
  } break;
  default: break;
  }
}
bool numeric(genus g) {
  return sint(g) || uint(g) || real(g) || g == fptu::bin128;
}

// performs one call; true if the value is stored, false if properly refused
template <class F> bool attempt(const Expect &e, const char *what, F f) {
  try {
    f();
  } catch (const fptu::value_out_of_range &) {
    MC_CHECK(e.verdict != STORE, "%s: is refused as out of range", what);
    return false;
  } catch (const fptu::type_mismatch &) {
    MC_CHECK(e.verdict != STORE, "%s: is refused as of a wrong type", what);
    MC_CHECK(e.verdict == BAD_TYPE, "%s: a wrong reason of the refusal", what);
    return false;
  } catch (const std::exception &x) {
    mc::fail("%s: %s", what, x.what());
  }
  MC_CHECK(e.verdict == STORE, "%s: is accepted", what);
  return true;
}

// getters by a token
template <class T> struct ByToken {
  const T &t;
  const token &k;
#define GET(NAME) auto get_##NAME() const { return t.get_##NAME(k); }
  GET(i8) GET(i16) GET(i32) GET(i64) GET(u8) GET(u16) GET(u32) GET(u64)
  GET(f32) GET(f64) GET(bin128) GET(integer) GET(unsigned) GET(int128)
  GET(uint128) GET(float) GET(number_as_ieee754double)
#undef GET
};

template <class T>
void check_single(T &t, const Field &f, bool stored, const Expect &e,
                  bool had_one, const char *what) {
  if (!numeric(f.g)) {
    MC_CHECK(!t.is_present(f.tok) || f.kind == PREPLACED,
             "%s: the field has appeared", what);
    return;
  }
  const big i = stored ? e.i : had_one;
  const double d = stored ? e.d : had_one;
  bool absent = stored || had_one ? reads_absent(f, i, d)
                                  : f.kind != PREPLACED;
  MC_CHECK(t.is_present(f.tok) == !absent, "%s: presence", what);
  if (absent)
    return;
  check_getters(t[f.tok], f.g, i, d, what);
  check_getters(ByToken<T>{t, f.tok}, f.g, i, d, what);
  const fptu::tuple_ro_weak ro = t.take_weak_asis();
  check_getters(ro[f.tok], f.g, i, d, what);
  check_getters(ByToken<fptu::tuple_ro_weak>{ro, f.tok}, f.g, i, d, what);
}

void test_set(tuple_rw_fixed &t, const Field &f, Src s, Way w, const Value &v,
              bool had_one, const char *what) {
  t.erase(f.tok);
  if (had_one && numeric(f.g))
    put_one(t, f);
  const Expect e = expect(s, f.g, v);
  const bool stored = attempt(e, what, [&] {
    if (w == SET)
      call_set(s, t, f.tok, v);
    else
      call_accessor(s, t[f.tok], v);
  });
  check_single(t, f, stored, e, had_one, what);
}

void test_managed_set(const Field &f, Src s, const Value &v, bool had_one,
                      const char *what) {
  tuple_rw_managed t(0, 0, f.schema.get());
  t.erase(f.tok);
  if (had_one && numeric(f.g))
    put_one(t, f);
  const Expect e = expect(s, f.g, v);
  const bool stored =
      attempt(e, what, [&] { call_set(s, t, f.tok, v); });
  check_single(t, f, stored, e, had_one, what);
}

template <class T>
void check_items(T &t, const Field &f, std::vector<std::pair<big, double>>
                 want, const char *what) {
  // the items are visited in any order
  size_t n = 0;
  auto col = t.collection(f.tok);
  for (auto it = col.begin(); it != col.end(); ++it) {
    MC_CHECK(++n <= want.size() || !want.empty(), "%s: an extra item", what);
    double d;
    const big i = typed(*it, f.g, d);
    size_t k = 0;
    while (k < want.size() && !(want[k].first == i && (same(want[k].second, d)
           || (d == 0 && want[k].second == 0))))
      ++k;
    MC_CHECK(k < want.size(), "%s: a wrong item 0x%llx%016llx %a", what,
             (unsigned long long)(i >> 64), (unsigned long long)i, d);
    check_getters(*it, f.g, want[k].first, want[k].second, what);
    want.erase(want.begin() + ptrdiff_t(k));
  }
  MC_CHECK(want.empty(), "%s: an item is missing", what);
}

template <class T>
void test_insert(T &t, const Field &f, Src s, Way w, const Value &v,
                 bool had_one, const char *what) {
  t.erase(f.tok);
  std::vector<std::pair<big, double>> want;
  const big one_i = real(f.g) ? 0 : 1;
  const double one_d = real(f.g) ? 1 : 0;
  if (had_one && numeric(f.g)) {
    insert_one(t, f);
    want.push_back({one_i, one_d});
  }
  const Expect e = expect(s, f.g, v);
  bool stored;
  if (w == ITEM) {
    if (!had_one || !numeric(f.g))
      return;
    auto col = t.collection(f.tok);
    auto it = col.begin();
    stored = attempt(e, what, [&] { call_accessor(s, *it, v); });
    if (stored) {
      want.clear();
      // without a discernible null a zero item is no item
      if (real(f.g) ? e.d != 0 : e.i != 0)
        want.push_back({e.i, e.d});
    }
  } else {
    stored = attempt(e, what, [&] { call_insert(s, t, f.tok, v); });
    // without a discernible null a zero item is no item
    if (stored && (real(f.g) ? e.d != 0 : e.i != 0))
      want.push_back({e.i, e.d});
  }
  if (!numeric(f.g)) {
    MC_CHECK(!t.is_present(f.tok), "%s: an item has appeared", what);
    return;
  }
  check_items(t, f, want, what);
}

const genus GENERA[] = {
    fptu::text,   fptu::varbin, fptu::nested, fptu::property, fptu::i8,
    fptu::u8,     fptu::i16,    fptu::u16,    fptu::i32,      fptu::u32,
    fptu::f32,    fptu::t32,    fptu::i64,    fptu::u64,      fptu::f64,
    fptu::d64,    fptu::t64,    fptu::bin96,  fptu::bin128,   fptu::bin160,
    fptu::bin192, fptu::bin224, fptu::bin256, fptu::bin320,   fptu::bin384,
    fptu::bin512, fptu::mac,    fptu::ip,     fptu::ipnet};
enum { NGENERA = sizeof(GENERA) / sizeof(GENERA[0]) };

void body(mc::Chooser &c, const mc::Item &item) {
  const Src s = Src(item.a);
  const Way w = Way(item.b);
  const genus g = GENERA[c.choose(NGENERA)];
  const Kind k =
      w >= INSERT ? COLLECTION : Kind(c.choose(unsigned(COLLECTION)));
  const bool had_one = c.choose(NPREV) != 0;
  static Field f;
  static std::unique_ptr<tuple_rw_fixed> t;
  // neighbouring runs differ by the innermost choice only
  f = make_field(g, k);
  t.reset(new tuple_rw_fixed(8, 256, f.schema.get()));
  const auto &vs = values(s);
  size_t number = 0;
  // everything is refused by the type: some of the values are enough
  const bool some = expect(s, g, vs[0]).verdict == BAD_TYPE;
  for (const Value &v : vs) {
    deep = number++ % 64 == 0;
    if (some && !deep)
      continue;
    mc::step(1);
    mc::tick();
    mc::add(mc::shared()->outcomes);
    const std::string what =
        std::string(way_names[w]) + " " + src_names[s] + "=" + v.str(s) +
        " into " + (had_one ? "present " : "absent ") + kind_names[k] + " " +
        fx::gname(g);
    mc::what("%s", what.c_str());
    switch (w) {
    case SET:
    case ACCESSOR:
      test_set(*t, f, s, w, v, had_one, what.c_str());
      break;
    case MANAGED_SET:
      test_managed_set(f, s, v, had_one, what.c_str());
      break;
    case INSERT:
    case ITEM:
      test_insert(*t, f, s, w, v, had_one, what.c_str());
      break;
    case MANAGED_INSERT: {
      tuple_rw_managed m(0, 0, f.schema.get());
      test_insert(m, f, s, w, v, had_one, what.c_str());
    } break;
    default:
      break;
    }
  }
}

// all the signs, exponents and leading bits of float with some low bits
const genus NUMERIC[] = {fptu::i8,  fptu::u8,  fptu::i16, fptu::u16, fptu::i32,
                         fptu::u32, fptu::i64, fptu::u64, fptu::f32, fptu::f64};
void floats(mc::Chooser &c, const mc::Item &item) {
  const genus g = NUMERIC[item.a];
  const unsigned high = unsigned(item.b) << 8 | c.choose(256);
  const Field f = make_field(g, LOOSE_DN);
  tuple_rw_fixed t(8, 256, nullptr);
  put_one(t, f);
  mc::tick();
  const unsigned step = mc::opt().thorough() ? 0x55 : 0x3333;
  unsigned n = 0;
  for (unsigned low = 0; low < 65536; low += step, ++n) {
    const uint32_t b = high << 16 | low;
    float x;
    memcpy(&x, &b, 4);
    const Value v = {0, x};
    const Expect e = expect(NUM_F, g, v);
    int got = 0;
    try {
      t.set_number(f.tok, x);
    } catch (const fptu::value_out_of_range &) {
      got = 1;
    }
    bool ok = (got == 0) == (e.verdict == STORE);
    if (ok && !got) {
      double d;
      const big i = typed(t[f.tok], g, d);
      ok = real(g) ? same(d, e.d) : i == e.i;
    }
    if (!ok) {
      mc::what("set number(float)=%a (0x%08x) into %s", double(x), b,
               fx::gname(g));
      mc::fail("set number(float)=%a (0x%08x) into %s: %s", double(x), b,
               fx::gname(g),
               got ? "is refused" : "is accepted or stored wrong");
    }
  }
  mc::step(n);
  mc::add(mc::shared()->outcomes, n);
}

} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    for (unsigned s = 0; s < NSRC; ++s)
      for (unsigned w = 0; w < NWAYS; ++w) {
        mc::Item it;
        it.name = std::string(way_names[w]) + "-" + src_names[s];
        it.a = s;
        it.b = w;
        r.push_back(it);
      }
    for (unsigned g = 0; g < sizeof(NUMERIC) / sizeof(NUMERIC[0]); ++g)
      for (unsigned p = 0; p < 256; p += 16) {
        mc::Item it;
        it.name = std::string("floats-") + fx::gname(NUMERIC[g]) + "-" +
                  std::to_string(p);
        it.a = g;
        it.b = p;
        it.extra.push_back(1);
        r.push_back(it);
      }
    return r;
  };
  auto run = [](mc::Chooser &c, const mc::Item &i) {
    if (mc::stopping()) {
      mc::add(mc::shared()->capped);
      return;
    }
    if (i.extra.empty())
      return body(c, i);
    mc::Item k = i;
    k.b += c.choose(16);
    floats(c, k);
  };
  h.run = [=](const mc::Item &i) {
    mc::dfs([&](mc::Chooser &c) { run(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(i.name + ": " + mc::slot()->what);
  };
  h.replay = [=](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { run(c, i); });
  };
  return mc::main_(argc, argv, h);
}
