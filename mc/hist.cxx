// P01..P04, P07, P08: exhaustive exploration of operation histories of the
// real writable tuple against an independent reference model.
#include "hist.hpp"
using namespace hist;

static Val T(size_t n, char c = 'a') { // text / varbin of n bytes
  Val v;
  for (size_t i = 0; i < n; ++i)
    v += char(c + i % 23);
  return v;
}
static Val P(int id, size_t n) { return Val(1, char(id)) + T(n, 'k'); }
static Val U8(int v) { return raw(uint8_t(v)); }
static Val U32(uint32_t v) { return raw(v); }
static Val N(size_t fixed) { // bytes 1,2,3...
  Val v;
  for (size_t i = 0; i < fixed; ++i)
    v += char(i * 7 + 1);
  return v;
}
static Val NEST(size_t text_len) {
  fptu::tuple_rw_fixed t(2, text_len + 64, nullptr);
  t.set_u32(fptu::token(fptu::u32, 1, false), 0xBADC0DE);
  if (text_len)
    t.set_string(fptu::token(fptu::text, 2, false),
                 fptu::string_view(T(text_len).data(), text_len));
  auto w = t.take_weak_asis();
  return Val(static_cast<const char *>(w.data()), w.size());
}

static const genus ALL[] = {
    fptu::text,   fptu::varbin, fptu::nested, fptu::property, fptu::i8,
    fptu::u8,     fptu::i16,    fptu::u16,    fptu::i32,      fptu::u32,
    fptu::f32,    fptu::t32,    fptu::i64,    fptu::u64,      fptu::f64,
    fptu::d64,    fptu::t64,    fptu::bin96,  fptu::bin128,   fptu::bin160,
    fptu::bin192, fptu::bin224, fptu::bin256, fptu::bin320,   fptu::bin384,
    fptu::bin512, fptu::mac,    fptu::ip,     fptu::ipnet};

// values worth distinguishing for the NIL semantics of a type
static std::vector<Val> dom_of(genus g, bool with_nested_null) {
  std::vector<Val> d;
  switch (g) {
  case fptu::text:
  case fptu::varbin:
    return {Val(), T(1), T(4), T(9)};
  case fptu::property:
    return {P(0, 0), P(0, 1), P(-1, 0), P(1, 6)};
  case fptu::nested:
    if (with_nested_null)
      d.push_back(Val());
    d.push_back(NEST(0));
    d.push_back(NEST(5));
    return d;
  case fptu::i8:
    return {raw(int8_t(0)), raw(int8_t(1)), raw(int8_t(-127)), raw(int8_t(127)),
            raw(int8_t(-1))};
  case fptu::u8:
    return {U8(0), U8(1), U8(255), U8(128)};
  case fptu::i16:
    return {raw(int16_t(0)), raw(int16_t(1)), raw(int16_t(-32767)),
            raw(int16_t(32767)), raw(int16_t(-128))};
  case fptu::u16:
    return {raw(uint16_t(0)), raw(uint16_t(1)), raw(uint16_t(65535)),
            raw(uint16_t(256))};
  case fptu::i32:
    return {raw(int32_t(0)), raw(int32_t(1)), raw(int32_t(-INT32_MAX)),
            raw(int32_t(INT32_MAX)), raw(int32_t(-32768)), raw(int32_t(65536))};
  case fptu::i64:
    return {raw(int64_t(0)), raw(int64_t(1)), raw(int64_t(-INT64_MAX)),
            raw(int64_t(INT64_MAX)), raw(int64_t(INT32_MIN)),
            raw(int64_t(1) << 32)};
  case fptu::u32:
  case fptu::t32:
    return {U32(0), U32(1), U32(~0u), U32(1u << 16)};
  case fptu::u64:
  case fptu::t64:
    return {raw(uint64_t(0)), raw(uint64_t(1)), raw(~uint64_t(0)),
            raw(uint64_t(1) << 32)};
  case fptu::f32:
    return {raw(0.0f), raw(1.5f), raw(-3e38f), raw(1e-45f)};
  case fptu::f64:
    return {raw(0.0), raw(1.5), raw(-1e308), raw(5e-324)};
  case fptu::d64:
    return {Val(8, '\0'), raw(fptu::decimal64(1)), raw(fptu::decimal64(-5)),
            raw(fptu::decimal64(1234567890123456LL))};
  default: {
    const size_t n = fixed_size(g);
    Val zero(n, '\0'), first(zero), last(zero), mid(zero);
    first[0] = 1;
    last[n - 1] = 1;
    mid[n / 2] = char(0x80);
    d = {zero, first, last, mid, N(n)};
    if (g == fptu::mac) { // 6 significant bytes
      d = {zero, first, mid};
      Val six(zero);
      six[5] = 1;
      d.push_back(six);
    }
    return d;
  }
  }
}

struct Entry {
  Config c;
  uint64_t weight = 1;
};

static Config mk(const char *name, size_t items, size_t bytes,
                 std::vector<FieldDef> f) {
  Config c;
  c.name = name;
  c.items_limit = items;
  c.data_bytes = bytes;
  c.fields = std::move(f);
  return c;
}

static std::vector<Config> small_configs(bool thorough) {
  std::vector<Config> r;
  const genus text = fptu::text, varbin = fptu::varbin, u32 = fptu::u32,
              u8 = fptu::u8, i8 = fptu::i8, u64 = fptu::u64,
              bin96 = fptu::bin96, prop = fptu::property, nest = fptu::nested;
  r.push_back(mk("mixed-loose", 3, 24,
                 {{u32, LOOSE, false, {U32(0), U32(7)}},
                  {text, LOOSE, true, {T(3), T(8)}},
                  {u8, COLL, false, {U8(1)}}}));
  r.push_back(mk("mixed-preplaced", 3, 24,
                 {{u32, LOOSE, false, {U32(0), U32(7)}},
                  {text, LOOSE, true, {T(3), T(8)}},
                  {u8, COLL, false, {U8(1)}},
                  {text, PRE, false, {Val(), T(3), T(8)}},
                  {i8, PRE, true, {raw(int8_t(0)), raw(int8_t(3))}}}));
  // fragmentation: chunks of 1,2,3,4 units in one heap
  r.push_back(mk("frag-fixed", 4, 40,
                 {{u32, LOOSE, false, {U32(7)}},
                  {u64, LOOSE, true, {raw(uint64_t(0x1122334455667788))}},
                  {bin96, LOOSE, true, {N(12)}},
                  {text, LOOSE, true, {T(3), T(15)}}}));
  r.push_back(mk("frag-coll", 4, thorough ? 32 : 24,
                 {{text, COLL, true, {T(2, 'x'), T(6, 'y'), T(10, 'z')}}}));
  r.push_back(mk("frag-coll-mixed", 4, 28,
                 {{text, COLL, true, {T(2, 'x'), T(10, 'z')}},
                  {u8, LOOSE, false, {U8(0), U8(9)}},
                  {varbin, LOOSE, false, {Val(), T(5, 'v')}}}));
  // two stretchy preplaced in a tight index: swap/tail paths of resizing
  r.push_back(mk("tight-preplaced", 1, 40,
                 {{text, PRE, false, {Val(), T(3), T(7)}},
                  {varbin, PRE, true, {T(1), T(5)}},
                  {text, LOOSE, true, {T(2), T(11)}}}));
  r.push_back(mk("tight-loose", 2, 32,
                 {{text, LOOSE, true, {T(3), T(7), T(11)}},
                  {varbin, LOOSE, true, {T(1), T(5), T(9)}},
                  {prop, LOOSE, true, {P(3, 1), P(4, 6)}}}));
  r.push_back(mk("stretchy-kinds", 3, 60,
                 {{nest, LOOSE, false, {NEST(0), NEST(6)}},
                  {prop, COLL, true, {P(0, 0), P(2, 5)}},
                  {varbin, LOOSE, false, {Val(), T(4), T(13)}}}));
  {
    Config c = mk("schemaless", 3, 28,
                  {{u32, LOOSE, false, {U32(0), U32(7)}},
                   {text, LOOSE, true, {Val(), T(8)}},
                   {text, COLL, false, {T(2), T(6)}}});
    c.with_schema = false;
    r.push_back(c);
  }
  {
    Config c = mk("accessors", 3, 28,
                  {{u64, LOOSE, false, {raw(uint64_t(0)), raw(uint64_t(7))}},
                   {text, LOOSE, true, {Val(), T(8)}},
                   {varbin, PRE, true, {T(3), T(9)}},
                   {fptu::i32, PRE, true, {raw(int32_t(0)), raw(int32_t(5))}}});
    c.accessor_api = true;
    r.push_back(c);
  }
  {
    Config c = mk("refusals", 2, 20,
                  {{u32, LOOSE, false, {U32(7)}},
                   {text, LOOSE, true, {T(2), T(9)}},
                   {varbin, COLL, true, {T(3)}},
                   {prop, PRE, false, {P(1, 2)}}});
    c.bad_ops = true;
    c.coll_item_ops = false;
    r.push_back(c);
  }
  // chunks around the unrolled copy limit of 16 units
  r.push_back(mk("copy16", 3, 224,
                 {{text, LOOSE, true, {T(3), T(59), T(67)}},
                  {text, LOOSE, true, {T(63, 'B')}},
                  {varbin, LOOSE, true, {T(60, 'C'), T(64, 'D')}}}));
  // one-byte / three-byte prefix of strings
  r.push_back(mk("text254", 3, 800,
                 {{text, LOOSE, true, {T(253), T(254), T(255)}},
                  {text, PRE, false, {T(253, 'B'), T(256, 'B')}},
                  {u32, LOOSE, true, {U32(1)}}}));
  // two id's of one type, and two collections: descriptor mixups
  r.push_back(mk("same-type", 4, 16,
                 {{u32, LOOSE, true, {U32(1), U32(2)}},
                  {u32, LOOSE, true, {U32(3)}},
                  {u32, COLL, true, {U32(4), U32(5)}},
                  {u8, COLL, true, {U8(4)}}}));
  r.push_back(mk("preplaced-only", 1, 48,
                 {{text, PRE, false, {Val(), T(3), T(8)}},
                  {u8, PRE, false, {U8(0), U8(5)}},
                  {varbin, PRE, false, {Val(), T(4)}},
                  {prop, PRE, true, {P(0, 0), P(1, 7)}}}));
  // a hole cannot be longer than 2047 units: long chunks, merges of holes
  r.push_back(mk("long-chunks", 2, 23000,
                 {{text, LOOSE, true, {T(4), T(9000)}},
                  {text, LOOSE, true, {T(3, 'B')}},
                  {varbin, PRE, false, {Val(), T(8180, 'C')}}}));
  r.push_back(mk("long-merges", 3, 13000,
                 {{text, COLL, true, {T(4093, 'x')}},
                  {varbin, PRE, false, {Val(), T(4088, 'C')}}}));
  // more than 64 KB
  {
    Config c = mk("huge", 2, 240000,
                  {{text, LOOSE, true, {T(4), T(130001)}},
                   {varbin, PRE, false, {Val(), T(66004, 'C')}},
                   {u32, LOOSE, true, {U32(7)}}});
    c.depth = thorough ? 6 : 4;
    r.push_back(c);
  }
  if (thorough) {
    r.push_back(mk("T-frag5", 5, 44,
                   {{text, COLL, true, {T(2, 'x'), T(6, 'y'), T(10, 'z')}},
                    {u32, LOOSE, true, {U32(7)}}}));
    r.push_back(mk("T-mixed6", 6, 48,
                   {{u32, LOOSE, false, {U32(0), U32(7)}},
                    {u64, LOOSE, true, {raw(uint64_t(9))}},
                    {bin96, LOOSE, true, {N(12)}},
                    {text, LOOSE, true, {T(3), T(11)}},
                    {varbin, PRE, false, {Val(), T(4)}}}));
    r.push_back(mk("T-stretchy-pre", 3, 60,
                   {{text, PRE, false, {Val(), T(3), T(11)}},
                    {varbin, PRE, true, {T(1), T(9)}},
                    {text, LOOSE, true, {T(2), T(11)}},
                    {prop, LOOSE, true, {P(1, 1), P(2, 9)}},
                    {u8, COLL, true, {U8(3)}}}));
    r.push_back(mk("T-coll2", 5, 40,
                   {{text, COLL, true, {T(2, 'x'), T(6, 'y')}},
                    {varbin, COLL, true, {T(1, 'x'), T(8, 'y')}}}));
  }
  return r;
}

// tuples with many fields: all the histories that go on from a filled one
static std::vector<Config> wide_configs(bool thorough) {
  std::vector<Config> r;
  static const genus kinds[] = {fptu::u32, fptu::text, fptu::u8,  fptu::u64,
                                fptu::varbin, fptu::i16, fptu::bin96};
  for (int n : {7, 8, 9, 15, 16, 17, 31, 33, 64, 66, 130}) {
    if (n == 64 && !thorough)
      continue;
    Config c = mk("", size_t(n) + 1, 0, {});
    c.name = "wide-" + std::to_string(n);
    size_t units = 0;
    for (int i = 0; i < n; ++i) {
      const genus g = kinds[i % 7];
      FieldDef d{g, LOOSE, i % 2 == 0, {}, (i / 7 * 613 + i * 37) % 2041};
      const char ch = char('A' + i % 50);
      switch (g) {
      case fptu::u32:
        d.dom = {U32(uint32_t(i) * 1000003u + 1)};
        break;
      case fptu::u8:
        d.dom = {U8(uint8_t(i + 1))};
        break;
      case fptu::i16:
        d.dom = {raw(int16_t(1000 - i * 300))};
        break;
      case fptu::u64:
        d.dom = {raw(uint64_t(0x0102030405060708) * unsigned(i + 1))};
        break;
      case fptu::bin96:
        d.dom = {Val(12, ch)};
        break;
      case fptu::text:
        d.dom = {T(size_t(i % 11) + 1, ch), T(size_t(i % 5) + 13, ch)};
        break;
      default:
        d.dom = {T(size_t(i % 9) + 3, ch)};
      }
      units += payload_units(g, d.dom[0]);
      c.fields.push_back(d);
    }
    c.data_bytes = 4 * (units + 3);
    for (int i = 0; i < n; ++i)
      c.prefill.push_back({(i * 29 + 3) % n, 0}); // 29: coprime to all n
    for (int i = 2; i < n; i += 5)
      c.prefill.push_back({i, -1});
    c.depth = n > 33 ? 1 + thorough : 2 + (thorough && n < 10);
    r.push_back(c);
  }
  for (int n : {8, 17, 34, 70, 700}) {
    Config c = mk("", size_t(n) + 2, size_t(n) * 12 + 16,
                  {{fptu::text, COLL, true, {T(2, 'x'), T(6, 'y'), T(10, 'z')}},
                   {fptu::u16, COLL, false, {raw(uint16_t(7))}, 1999}});
    c.name = "wide-coll-" + std::to_string(n);
    for (int i = 0; i < n; ++i)
      c.prefill.push_back({i % 4 == 3, i % 4 == 3 ? 0 : (i / 3) % 3});
    c.item_positions = size_t(n);
    if (n > 100) { // hundreds of holes
      c.item_positions = 4;
      c.ranges = {{0, 250}, {100, 420}, {1, n / 4 * 3 - 1}};
    }
    c.depth = n > 100 ? 2 : n > 17 ? 1 + (thorough && n < 40) : 2;
    r.push_back(c);
  }
  return r;
}

static std::vector<Config> matrix_configs() {
  std::vector<Config> r;
  for (genus g : ALL)
    for (int kind = 0; kind < 3; ++kind)
      for (int dn = 0; dn < 2; ++dn) {
        const bool null_nested = !dn;
        auto d = dom_of(g, null_nested);
        if (kind == PRE && dn && !is_stretchy(g)) {
          // writing the designated null itself is decided elsewhere
          d.erase(std::remove(d.begin(), d.end(), denil(g)), d.end());
        }
        std::string n = std::string("nil-") + gname(g) +
                        (kind == LOOSE ? "-loose"
                                       : kind == COLL ? "-coll" : "-pre") +
                        (dn ? "-dn" : "");
        Config c;
        c.name = n;
        c.items_limit = 2;
        c.data_bytes = 2 * (4 * payload_units(g, d.back()) + 8) + 16;
        // neighbours on both sides make clobbering visible
        c.fields = {{fptu::u16, PRE, false, {raw(uint16_t(0xA5A5))}},
                    {g, Kind(kind), bool(dn), d},
                    {fptu::u16, PRE, false, {raw(uint16_t(0x5A5A))}}};
        if (kind != COLL)
          c.fields.push_back({fptu::u16, LOOSE, true, {raw(uint16_t(0xC33C))}});
        c.reset_op = true;
        r.push_back(c);
        if (kind != COLL) {
          c.name += "-accessor";
          c.accessor_api = true;
          r.push_back(c);
        }
      }
  return r;
}

static std::vector<Config> configs_of(const std::string &prop, bool thorough) {
  std::vector<Config> r;
  if (prop == "P07")
    r = matrix_configs();
  else
    r = small_configs(thorough);
  if (prop != "P07")
    for (auto &c : wide_configs(thorough))
      r.push_back(c);
  if (prop == "P08") {
    Config c = mk("coll-wide", 5, 24,
                  {{fptu::u16, COLL, true, {raw(uint16_t(1)), raw(uint16_t(2))}},
                   {fptu::u32, COLL, true, {U32(3)}}});
    r.push_back(c);
    // the binary search by offset needs more than three preplaced fields
    for (int n = 4; n <= 9; ++n) {
      Config p = mk("pre-n", 1, 8, {});
      p.name = "pre-" + std::to_string(n);
      for (int i = 0; i < n; ++i)
        p.fields.push_back({i % 3 ? fptu::u16 : fptu::u32, PRE, true,
                            {i % 3 ? raw(uint16_t(i + 1)) : U32(i + 1)}});
      p.fields.push_back({fptu::u16, LOOSE, true, {raw(uint16_t(77))}});
      r.push_back(p);
    }
  }
  for (auto &c : r)
    c.max_states = thorough ? 1500000 : 60000;
  return r;
}
static Checks checks_of(const std::string &p) {
  Checks k;
  k.model = true;
  k.strict_ok = p == "P01" || p == "P02" || p == "P07";
  k.presence = p == "P01" || p == "P07" || p == "P08";
  k.accounting = p == "P02";
  k.atomic = p == "P03";
  k.roundtrip = p == "P04";
  k.iterate = p == "P08";
  return k;
}

// a tuple has room for the number of items and bytes it was asked for
static void geometry(mc::Chooser &c, unsigned part) {
  static std::unique_ptr<fptu::schema> with = [] {
    auto s = fptu::schema::create();
    s->define_preplaced("a", fptu::u8);
    s->define_preplaced("b", fptu::text);
    return s;
  }();
  static const unsigned I[] = {0,   1,   2,   3,    7,    8,    15,  16,
                               31,  64,  100, 255,  256,  1000, 4095, 8190,
                               8191};
  static const unsigned B[] = {1000,  4000,  4096,   10000,  65532, 65535,
                               65536, 65540, 131064, 200000, 229000};
  const unsigned items = I[part];
  const bool schema = c.choose(2);
  const unsigned b = c.choose(411);
  const size_t bytes = b < 400 ? b : B[b - 400];
  mc::what("a tuple for %u items and %zu bytes%s", items, bytes,
           schema ? " with a schema" : "");
  mc::step();
  fptu::tuple_rw_fixed t(items, bytes, schema ? with.get() : nullptr);
  MC_CHECK(t.head_space() == items, "room for %zu items instead of %u",
           size_t(t.head_space()), items);
  const size_t room = t.tail_space_bytes();
  MC_CHECK(room >= bytes && room == 4 * t.tail_space_units(),
           "room for %zu bytes instead of %zu", room, bytes);
  MC_CHECK(t.junk_units() == 0 && t.index_size() == 0 && t.loose_count() == 0,
           "a new tuple isn't empty");
  if (!items)
    return;
  // all of it may be used
  const token text(fptu::text, 5, false), u16(fptu::u16, 6, true);
  const size_t n = room < 260 ? room - (room > 0) : room - 3;
  const std::string v(std::min(n, size_t(131000)), 'v');
  if (room) {
    t.set_string(text, fptu::string_view(v));
    MC_CHECK(v.size() < n || t.tail_space_units() == 0,
             "%zu units are left after a text of %zu bytes",
             size_t(t.tail_space_units()), v.size());
  }
  for (unsigned i = room ? 1 : 0; i < items; ++i)
    t.insert_u16(u16, uint16_t(i + 1));
  MC_CHECK(t.head_space() == 0, "%zu slots are left", size_t(t.head_space()));
  const char *bad = t.validate();
  MC_CHECK(!bad, "a full tuple: %s", bad);
  if (room) {
    const auto got = t.get_string(text);
    MC_CHECK(got.length() == v.size() &&
                 !memcmp(got.data(), v.data(), v.size()),
             "the text is damaged");
  }
  size_t count = 0, sum = 0;
  for (auto x : t.collection(u16)) {
    ++count;
    sum += x.get_u16();
  }
  const size_t first = room ? 2 : 1, wanted = items + 1 - first;
  MC_CHECK(count == wanted && sum == (first + items) * wanted / 2,
           "%zu items instead of %zu", count, wanted);
  mc::add(mc::shared()->outcomes);
}

int main(int argc, char **argv) {
  mc::Harness h;
  mc::counter_name(0) = "operations_refused";
  h.items = [] {
    auto &o = mc::opt();
    std::vector<mc::Item> r;
    for (auto &c : configs_of(o.prop, o.thorough())) {
      mc::Item i;
      i.name = c.name;
      r.push_back(i);
    }
    if (o.prop == "P02")
      for (unsigned n = 0; n < 17; ++n) {
        mc::Item i;
        i.name = "geometry-" + std::to_string(n);
        i.a = n;
        r.push_back(i);
      }
    return r;
  };
  auto find = [](const std::string &name) {
    for (auto &c : configs_of(mc::opt().prop, mc::opt().thorough()))
      if (c.name == name)
        return c;
    abort();
  };
  h.run = [=](const mc::Item &i) {
    if (i.name.compare(0, 8, "geometry") == 0) {
      mc::dfs([&](mc::Chooser &c) { geometry(c, unsigned(i.a)); });
      return;
    }
    Config c = find(i.name);
    Sys s(c, checks_of(mc::opt().prop));
    mc::BfsLimits l;
    l.depth = c.depth;
    l.max_states = c.max_states;
    auto r = mc::bfs(s, l);
    if (mc::opt().verbose)
      fprintf(stderr, "%s: states %lu transitions %lu depth %u%s\n",
              c.name.c_str(), r.states, r.transitions, r.depth,
              r.fixpoint ? " fixpoint" : "");
  };
  h.replay = [=](const mc::Item &i, const std::vector<uint32_t> &path) {
    if (i.name.compare(0, 8, "geometry") == 0) {
      mc::dfs_replay(path, [&](mc::Chooser &c) { geometry(c, unsigned(i.a)); });
      return;
    }
    Config c = find(i.name);
    Sys s(c, checks_of(mc::opt().prop));
    mc::replay_path(s, path);
  };
  return mc::main_(argc, argv, h);
}
