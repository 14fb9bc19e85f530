// P09: histories of the self-growing writable tuple.
#include "fields.hpp"

#include "fast_positive/tuples.h"
#include "fast_positive/tuples/1Hippeus/buffer.h"
#include <new>
#include <sanitizer/asan_interface.h>

using fptu::tuple_ro_weak;
using fptu::tuple_rw_managed;

namespace {

// one pool serves both kinds of memory: managed buffers and malloc()
enum { SLOTS = 6, SLOT = 600 * 1024 };
alignas(64) char pool[SLOTS][SLOT];
struct Meta {
  uint32_t live, bytes;
};
Meta meta[SLOTS];
bool in_library; // redirects malloc()
int fail_in;
bool failed;
unsigned allocations;

char *take(size_t bytes) {
  ++allocations;
  if (fail_in && --fail_in == 0) {
    failed = true;
    return nullptr;
  }
  if (bytes > SLOT)
    mc::fail("unreasonable size of a memory chunk: %zu", bytes);
  for (unsigned i = 0; i < SLOTS; ++i)
    if (!meta[i].live) {
      ASAN_UNPOISON_MEMORY_REGION(pool[i], bytes);
      memset(pool[i], 0xCD, bytes);
      meta[i] = {1, uint32_t(bytes)};
      return pool[i];
    }
  mc::fail("memory chunks are leaked");
}
int slot_of(const void *p) {
  const char *c = static_cast<const char *>(p);
  if (c < pool[0] || c >= pool[0] + sizeof pool)
    return -1;
  return int((c - pool[0]) / SLOT);
}
void give(void *p) {
  const int i = slot_of(p);
  MC_CHECK(i >= 0 && p == pool[i], "a foreign pointer is freed");
  MC_CHECK(meta[i].live, "memory is freed twice");
  meta[i].live = 0;
  ASAN_POISON_MEMORY_REGION(pool[i], meta[i].bytes);
}
hippeus_buffer_t *borrow(hippeus_allot_t *, size_t, bool, hippeus_actor_t);
void repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t) {
  give(b);
}
bool valid(const hippeus_allot_t *, bool, bool) { return true; }
hippeus_allot_t allot = {4096, 0, borrow, repay, valid};
hippeus::buffer_tag tag() { return hippeus::buffer_tag(&allot, false); }
hippeus_buffer_t *borrow(hippeus_allot_t *, size_t wanna, bool,
                         hippeus_actor_t) {
  const size_t bytes = wanna + hippeus::buffer_solid::space_overhead();
  char *p = take(bytes);
  if (!p)
    throw std::bad_alloc();
  return new (p) hippeus::buffer_solid(tag(), bytes);
}

struct Enter {
  Enter() { in_library = true; }
  ~Enter() { in_library = false; }
};

//--------------------------------------------------------------------- model
fptu::schema *the_schema() {
  static std::unique_ptr<fptu::schema> s = [] {
    auto p = fptu::schema::create();
    p->define_preplaced("S", fptu::text);
    p->define_preplaced("F", fptu::u32);
    p->define_loose("A", fptu::text);
    p->define_collection("C", fptu::u32);
    p->define_loose("B", fptu::u64);
    p->define_loose("E", fptu::u16);
    return p;
  }();
  return s.get();
}
struct Tokens {
  fptu::token A, C, B, E, S, F;
};
const Tokens &tk(bool schema) {
  static const Tokens plain = {fptu::token(fptu::text, 1, false),
                               fptu::token(fptu::u32, 2, true),
                               fptu::token(fptu::u64, 3, false),
                               fptu::token(fptu::u16, 4, false),
                               fptu::token(fptu::text, 5, false),
                               fptu::token(fptu::u32, 6, false)};
  static const Tokens with = [] {
    auto s = the_schema();
    return Tokens{s->get_token("A"), s->get_token("C"), s->get_token("B"),
                  s->get_token("E"), s->get_token("S"), s->get_token("F")};
  }();
  return schema ? with : plain;
}
const unsigned LENS[] = {0, 3, 40, 1300};
std::string text(unsigned n, char c) {
  std::string s;
  for (unsigned i = 0; i < n; ++i)
    s += char(c + i % 17);
  return s;
}
// short texts have one byte of the length, others have three
enum : unsigned { LONG_TEXT = 254, MAX_TEXT = 254 + 65535 * 2 + 1 };
size_t text_units(unsigned n) {
  return n ? (n + (n < LONG_TEXT ? 1 : 3) + 3) / 4 : 0;
}
struct Model {
  uint8_t a = 0, b = 0, e = 0, s = 0, f = 0; // 0: absent
  uint8_t n = 0;
  uint8_t c[6] = {};
};

enum Kind { A_SET, A_ERASE, B_SET, B_ERASE, E_SET, E_ERASE, S_SET, S_ERASE,
            F_SET, C_INSERT, C_ERASE_FIRST, C_ERASE_ALL, COMPACT, OPTIMIZE };
const char *const kind_name[] = {
    "A=", "erase A", "B=", "erase B", "E=", "erase E", "S=", "erase S", "F=",
    "insert C", "erase the first of C", "erase C", "compactify", "optimize"};
struct Op {
  Kind k;
  uint8_t x, fault;
};

struct Config {
  unsigned items, bytes;
  bool schema, managed;
  std::string name() const {
    return "items" + std::to_string(items) + "-bytes" + std::to_string(bytes) +
           (schema ? "-schema" : "") + (managed ? "" : "-malloc");
  }
};

struct Sys {
  Config cfg;
  alignas(tuple_rw_managed) char mem[sizeof(tuple_rw_managed)];
  Model m;
  std::vector<Op> ops;
  tuple_rw_managed &W() { return *reinterpret_cast<tuple_rw_managed *>(mem); }

  explicit Sys(const Config &c) : cfg(c) {
    tk(true);
    tk(false);
    memset(meta, 0, sizeof meta);
    ASAN_POISON_MEMORY_REGION(pool, sizeof pool);
    {
      Enter e;
      new (mem) tuple_rw_managed(cfg.items, cfg.bytes,
                                 cfg.schema ? the_schema() : nullptr,
                                 cfg.managed ? tag() : hippeus::buffer_tag());
    }
    auto add = [&](Kind k, unsigned x = 0, bool allocates = false) {
      ops.push_back({k, uint8_t(x), 0});
      if (allocates)
        ops.push_back({k, uint8_t(x), 1});
    };
    for (unsigned i = 0; i < 4; ++i)
      add(A_SET, i + 1, true);
    add(A_ERASE);
    add(B_SET, 1, true);
    add(B_ERASE);
    add(E_SET, 1, true);
    add(E_ERASE);
    for (unsigned i = 0; i < 3; ++i)
      add(S_SET, i + 1, true);
    add(S_ERASE, 0, true);
    if (cfg.schema)
      add(F_SET, 9);
    add(C_INSERT, 1, true);
    add(C_INSERT, 2, true);
    add(C_ERASE_FIRST);
    add(C_ERASE_ALL);
    add(COMPACT);
    add(OPTIMIZE);
  }
  std::string title() { return cfg.name(); }
  std::string op_name(size_t n) {
    return std::string(kind_name[ops[n].k]) + " " + std::to_string(ops[n].x) +
           (ops[n].fault ? " failing allocation" : "");
  }
  size_t nops() { return ops.size(); }
  bool enabled(size_t n) {
    switch (ops[n].k) {
    case C_INSERT:
      return m.n < sizeof m.c;
    case C_ERASE_FIRST:
      return m.n > 0;
    default:
      return true;
    }
  }

  int slot() {
    for (int i = 0; i < SLOTS; ++i)
      if (meta[i].live)
        return i;
    return -1;
  }
  // a tuple fills the beginning of its chunk, the rest has no meaning
  size_t meaningful() {
    auto w = W().take_weak_asis();
    return size_t(static_cast<const char *>(w.data()) + w.size() -
                  pool[slot()]);
  }
  std::string save() {
    std::string s;
    s.append(mem, sizeof mem);
    s.append(reinterpret_cast<char *>(&m), sizeof m);
    const int i = slot();
    s.append(reinterpret_cast<const char *>(&i), sizeof i);
    s.append(reinterpret_cast<char *>(&meta[i]), sizeof(Meta));
    s.append(pool[i], meaningful());
    return s;
  }
  void restore(const std::string &s) {
    const char *p = s.data();
    auto get = [&](void *to, size_t n) {
      memcpy(to, p, n);
      p += n;
    };
    get(mem, sizeof mem);
    get(&m, sizeof m);
    int i;
    get(&i, sizeof i);
    for (int k = 0; k < SLOTS; ++k)
      if (meta[k].live) {
        ASAN_POISON_MEMORY_REGION(pool[k], meta[k].bytes);
        meta[k].live = 0;
      }
    get(&meta[i], sizeof(Meta));
    ASAN_UNPOISON_MEMORY_REGION(pool[i], meta[i].bytes);
    const size_t n = size_t(s.data() + s.size() - p);
    // the guard at the end of a buffer has to be kept
    get(pool[i], n);
    if (cfg.managed) {
      const size_t tail =
          n + 256 < meta[i].bytes ? n + 256 : size_t(meta[i].bytes);
      memset(pool[i] + n, 0xCD, tail - n);
    } else
      memset(pool[i] + n, 0xCD,
             n + 256 < meta[i].bytes ? 256 : meta[i].bytes - n);
  }
  std::string key() {
    std::string s(reinterpret_cast<char *>(&m), sizeof m);
    auto &w = W();
    const uint32_t q[] = {uint32_t(w.head_space()),
                          uint32_t(w.tail_space_units()),
                          uint32_t(w.junk_units()), uint32_t(w.loose_count()),
                          uint32_t(w.capacity())};
    s.append(reinterpret_cast<const char *>(q), sizeof q);
    auto t = w.take_weak_asis();
    s.append(static_cast<const char *>(t.data()), t.size());
    return s;
  }

  void check_content(const char *when) {
    auto &w = W();
    const Tokens &t = tk(cfg.schema);
    const char *bad = w.validate();
    MC_CHECK(!bad, "%s: %s", when, bad);
    auto str = [&](const fptu::token &id, unsigned v, char c, const char *n) {
      const std::string want = v ? text(LENS[v - 1], c) : "";
      if (!id.is_preplaced())
        MC_CHECK(w.is_present(id) == (v != 0), "%s: presence of %s", when, n);
      const fptu::string_view got = w.get_string(id);
      MC_CHECK(std::string(got.data(), got.length()) == want,
               "%s: %s reads '%.60s' instead of '%.60s'", when, n,
               std::string(got.data(), got.length()).c_str(), want.c_str());
    };
    str(t.A, m.a, 'a', "A");
    str(t.S, m.s, 's', "S");
    MC_CHECK(w.is_present(t.B) == (m.b != 0), "%s: presence of B", when);
    MC_CHECK(w.get_u64(t.B) == m.b * 0x0102030405060708ull, "%s: B", when);
    MC_CHECK(w.is_present(t.E) == (m.e != 0), "%s: presence of E", when);
    MC_CHECK(w.get_u16(t.E) == m.e * 0x0102u, "%s: E", when);
    if (cfg.schema)
      MC_CHECK(w.get_u32(t.F) == m.f, "%s: F", when);
    unsigned cnt[3] = {}, want[3] = {}, n = 0;
    for (unsigned i = 0; i < m.n; ++i)
      ++want[m.c[i]];
    auto col = w.collection(t.C);
    for (auto it = col.begin(); it != col.end(); ++it, ++n) {
      const uint32_t v = (*it).get_u32();
      MC_CHECK(v >= 1 && v <= 2, "%s: alien item %u in C", when, v);
      ++cnt[v];
    }
    MC_CHECK(n == m.n && !memcmp(cnt, want, sizeof cnt),
             "%s: C has %u items instead of %u", when, n, m.n);
    // the whole space is accounted
    unsigned live = 0;
    for (auto &x : meta)
      live += x.live;
    MC_CHECK(live == 1, "%s: %u chunks of memory are in use", when, live);
    MC_CHECK(W().capacity() >= W().loose_count() - 0u, "%s: capacity", when);
    const fptu::tuple_ro_weak ro = W().take_weak_asis();
    MC_CHECK(meaningful() <= meta[slot()].bytes,
             "%s: the tuple is outside of its memory", when);
    const char *bad2 =
        ro.validate(cfg.schema ? the_schema() : nullptr, false);
    MC_CHECK(!bad2, "%s: serialized form: %s", when, bad2);
  }
  void check_initial() { check_content("initially"); }
  void check_state() {
    mc::add(mc::shared()->checks);
    const std::string s = save();
    // compaction recovers all the junk and keeps the content
    W().compactify();
    MC_CHECK(W().junk_bytes() == 0, "junk remains after compaction");
    check_content("after compaction");
    // destruction frees the memory
    {
      Enter e;
      W().purge();
    }
    for (auto &x : meta)
      MC_CHECK(!x.live, "memory is leaked");
    restore(s);
  }

  void apply(size_t n) {
    const Op o = ops[n];
    mc::what("%s", op_name(n).c_str());
    const Tokens &t = tk(cfg.schema);
    auto &w = W();
    Model x = m;
    fail_in = o.fault;
    failed = false;
    allocations = 0;
    try {
      Enter enter;
      switch (o.k) {
      case A_SET:
        x.a = o.x > 1 ? o.x : 0; // an empty text is the same as absence
        w.set_string(t.A, fptu::string_view(text(LENS[o.x - 1], 'a')));
        break;
      case A_ERASE:
        x.a = 0;
        w.erase(t.A);
        break;
      case B_SET:
        x.b = 1;
        w.set_u64(t.B, 0x0102030405060708ull);
        break;
      case B_ERASE:
        x.b = 0;
        w.erase(t.B);
        break;
      case E_SET:
        x.e = 1;
        w.set_u16(t.E, 0x0102);
        break;
      case E_ERASE:
        x.e = 0;
        w.erase(t.E);
        break;
      case S_SET:
        x.s = o.x > 1 ? o.x : 0;
        w.set_string(t.S, fptu::string_view(text(LENS[o.x - 1], 's')));
        break;
      case S_ERASE:
        x.s = 0;
        w.erase(t.S);
        break;
      case F_SET:
        x.f = o.x;
        w.set_u32(t.F, o.x);
        break;
      case C_INSERT:
        x.c[x.n++] = o.x;
        w.insert_u32(t.C, o.x);
        break;
      case C_ERASE_FIRST: {
        auto col = w.collection(t.C);
        auto it = col.begin();
        const uint32_t v = (*it).get_u32();
        MC_CHECK(w.erase(it), "an item is not erased");
        unsigned at = 0;
        while (at < x.n && x.c[at] != v)
          ++at;
        MC_CHECK(at < x.n, "the collection has an alien item %u", v);
        for (--x.n; at < x.n; ++at)
          x.c[at] = x.c[at + 1];
        x.c[x.n] = 0;
      } break;
      case C_ERASE_ALL: {
        const size_t k = w.erase(w.collection(t.C));
        MC_CHECK(k == x.n, "%zu items of %u are erased", k, x.n);
        memset(x.c, 0, sizeof x.c);
        x.n = 0;
      } break;
      case COMPACT:
        w.compactify();
        break;
      case OPTIMIZE:
        w.optimize();
        break;
      }
      fail_in = 0;
      MC_CHECK(!failed, "the failure of an allocation is lost");
      m = x;
      mc::count(0);
      if (allocations)
        mc::count(2);
    } catch (const std::exception &e) {
      fail_in = 0;
      MC_CHECK(failed, "%s is refused: %s", op_name(n).c_str(), e.what());
      mc::count(1);
    }
    check_content(op_name(n).c_str());
  }
};

//---------------------------------------------------------------- the limits
// items are inserted one after another until the limit of a tuple is reached
struct Walk {
  const char *name;
  int len; // -1: u16 (without payload), -2: u64, otherwise a text
  int churn; // after each N-th insertion an item is erased
};
const Walk walks[] = {{"u16", -1}, {"u64", -2}, {"text3", 3}, {"text100", 100},
                      {"text1000", 1000}, {"text8000", 8000},
                      {"text30000", 30000}, {"text100000", 100000},
                      {"u16-churn3", -1, 3}, {"u64-churn2", -2, 2},
                      {"text100-churn3", 100, 3}, {"text1000-churn2", 1000, 2},
                      {"text8000-churn3", 8000, 3},
                      {"text9000-churn2", 9000, 2}};
void walk(const Config &cfg, const Walk &k) {
  in_library = true;
  tuple_rw_managed w(cfg.items, cfg.bytes, cfg.schema ? the_schema() : nullptr,
                     cfg.managed ? tag() : hippeus::buffer_tag());
  in_library = false;
  const fptu::token id(k.len == -1 ? fptu::u16
                                   : k.len == -2 ? fptu::u64 : fptu::text,
                       77, true);
  const std::string base = k.len > 0 ? text(unsigned(k.len), 'w') : "";
  const size_t units = k.len == -1 ? 0
                       : k.len == -2
                           ? 2
                           : text_units(unsigned(k.len));
  std::vector<bool> live; // by the number of an item
  size_t count = 0;
  auto number = [&](auto &it) {
    if (k.len == -1)
      return size_t((*it).get_u16() - 1u);
    if (k.len == -2)
      return size_t((*it).get_u64() - 0x123456789abcull);
    const fptu::string_view s = (*it).get_string();
    MC_CHECK(s.length() == base.size(), "length of an item");
    if (base.size() > 6)
      MC_CHECK(!memcmp(s.data() + 6, base.data() + 6, base.size() - 6),
               "content of an item");
    return size_t(strtoul(
        std::string(s.data(), s.length() < 6 ? s.length() : 6).c_str(),
        nullptr, 36));
  };
  auto verify = [&](const char *when) {
    mc::tick();
    const char *bad = w.validate();
    MC_CHECK(!bad, "%s, %zu items: %s", when, count, bad);
    auto col = w.collection(id);
    std::vector<bool> seen(live.size());
    size_t got = 0;
    for (auto it = col.begin(); it != col.end(); ++it, ++got) {
      const size_t v = number(it);
      MC_CHECK(v < live.size() && live[v] && !seen[v],
               "%s, %zu items: alien or repeated item", when, count);
      seen[v] = true;
    }
    MC_CHECK(got == count, "%s: %zu items instead of %zu", when, got, count);
  };
  size_t n = 0, growths = 0;
  for (;; ++n) {
    std::string s = base;
    if (k.len > 0) {
      char num[8];
      size_t x = n;
      for (int i = (k.len < 6 ? k.len : 6) - 1; i >= 0; --i) {
        num[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[x % 36];
        x /= 36;
      }
      memcpy(&s[0], num, size_t(k.len < 6 ? k.len : 6));
    }
    const size_t used = (count + 1) * (1 + units) +
                        (cfg.schema ? the_schema()->preplaced_units() : 0);
    const bool fits = count + 1 <= fptu::max_fields &&
                      used <= fptu::max_tuple_units_netto;
    const size_t cap = w.capacity();
    mc::what("item %zu of %s", n, k.name);
    mc::tick();
    allocations = 0;
    mc::step();
    bool ok = true;
    std::string err;
    in_library = true;
    try {
      if (k.len == -1)
        w.insert_u16(id, uint16_t(n + 1)); // zero is the same as absence
      else if (k.len == -2)
        w.insert_u64(id, n + 0x123456789abcull);
      else
        w.insert_string(id, fptu::string_view(s));
    } catch (const std::exception &e) {
      in_library = false;
      ok = false;
      err = e.what();
    }
    in_library = false;
    if (ok)
      MC_CHECK(fits, "item %zu is inserted beyond the limit of a tuple", n);
    else {
      MC_CHECK(!fits, "item %zu is refused: %s", n, err.c_str());
      verify("after a refusal");
      break;
    }
    live.push_back(true);
    ++count;
    if (allocations || w.capacity() != cap) {
      ++growths;
      verify("after a growth");
    }
    if (k.churn && n % unsigned(k.churn) == unsigned(k.churn) - 1) {
      // erases the middle one
      auto col = w.collection(id);
      auto it = col.begin();
      for (size_t i = (n * 7) % count; i; --i)
        ++it;
      const size_t v = number(it);
      MC_CHECK(v < live.size() && live[v], "alien item");
      live[v] = false;
      --count;
      in_library = true;
      const bool done = w.erase(it);
      in_library = false;
      MC_CHECK(done, "an item is not erased");
      if (n % 64 == 63)
        verify("after erasing");
    }
  }
  mc::count(3, growths);
  mc::count(4, n);
  // still usable: serialized form and erasing
  auto ro = w.take_weak_asis();
  const char *bad =
      ro.validate(cfg.schema ? the_schema() : nullptr, false);
  MC_CHECK(!bad, "serialized form at the limit: %s", bad);
  // most of the items are erased, then a long text takes a half of the room
  size_t erased = 0;
  {
    auto col = w.collection(id);
    for (auto it = col.begin(); it != col.end();) {
      auto at = it;
      ++it;
      const size_t v = number(at);
      if (v % 5 == 0)
        continue;
      in_library = true;
      const bool done = w.erase(at);
      in_library = false;
      MC_CHECK(done, "an item is not erased");
      live[v] = false;
      --count;
      ++erased;
    }
  }
  verify("after erasing most of the items");
  const size_t freed = erased * (1 + units);
  if (freed > 16) {
    const fptu::token tid(fptu::text, 78, false);
    const size_t len = std::min(size_t(131000), (freed / 2 - 4) * 4);
    const std::string t = text(unsigned(len), 't');
    mc::what("a text of %zu bytes after erasing of %zu items of %s", len,
             erased, k.name);
    mc::step();
    in_library = true;
    try {
      w.set_string(tid, fptu::string_view(t));
    } catch (const std::exception &e) {
      in_library = false;
      mc::fail("a text of %zu bytes is refused while %zu units were released: "
               "%s",
               len, freed, e.what());
    }
    in_library = false;
    auto same = [&] {
      const fptu::string_view got = w.get_string(tid);
      MC_CHECK(got.length() == len && !memcmp(got.data(), t.data(), len),
               "the text is damaged");
    };
    verify("after setting a long text");
    same();
    in_library = true;
    w.compactify();
    in_library = false;
    MC_CHECK(w.junk_units() == 0, "junk after compacting");
    verify("after compacting");
    same();
    in_library = true;
    const bool gone = w.erase(tid);
    in_library = false;
    MC_CHECK(gone, "the text is not erased");
    verify("after erasing of the text");
  }
  in_library = true;
  w.erase(id);
  in_library = false;
  live.assign(live.size(), false);
  count = 0;
  verify("after erasing all the items");
  in_library = true;
  w.purge();
  in_library = false;
  for (auto &x : meta)
    MC_CHECK(!x.live, "memory is leaked");
}

// a text is enlarged step by step up to the limit of a tuple, then shrunk
void resize(const Config &cfg, int at) {
  in_library = true;
  tuple_rw_managed w(cfg.items, cfg.bytes, cfg.schema ? the_schema() : nullptr,
                     cfg.managed ? tag() : hippeus::buffer_tag());
  in_library = false;
  const Tokens &t = tk(cfg.schema);
  // the text is the preplaced field or one of the two loose fields
  const fptu::token ids[] = {t.S, t.A, fptu::token(fptu::text, 700, false)};
  const unsigned other[] = {3, 40, 9};
  unsigned len[3] = {};
  auto set = [&](int f, unsigned n) -> std::string {
    const std::string v = text(n, char('a' + f));
    std::string err;
    in_library = true;
    try {
      w.set_string(ids[f], fptu::string_view(v));
      in_library = false;
      len[f] = n;
      return "";
    } catch (const std::exception &e) {
      in_library = false;
      return e.what();
    }
  };
  auto units = text_units;
  auto verify = [&] {
    mc::tick();
    mc::step();
    const char *bad = w.validate();
    MC_CHECK(!bad, "%s", bad);
    for (int f = 0; f < 3; ++f) {
      const std::string v = text(len[f], char('a' + f));
      const fptu::string_view s = w.get_string(ids[f]);
      MC_CHECK(s.length() == v.length() &&
                   !memcmp(s.data(), v.data(), v.length()),
               "field %d: length %zu instead of %zu or wrong content", f,
               size_t(s.length()), v.length());
    }
    auto ro = w.take_weak_asis();
    bad = ro.validate(cfg.schema ? the_schema() : nullptr, false);
    MC_CHECK(!bad, "serialized form: %s", bad);
  };
  for (int f = 0; f < 3; ++f)
    MC_CHECK(set(f, other[f]).empty(), "small value is refused");
  const size_t fixed = units(other[0]) + units(other[1]) + units(other[2]) -
                       units(other[at]) +
                       (cfg.schema ? the_schema()->preplaced_units() + 2 : 3);
  std::vector<unsigned> lens;
  for (unsigned n = 1; n < 140000; n = n + 1 + n / 9)
    lens.push_back(n);
  for (unsigned n = 8180; n < 8200; ++n)
    lens.push_back(n);
  for (unsigned n = 250; n < 260; ++n)
    lens.push_back(n);
  for (unsigned n = MAX_TEXT - 3; n < MAX_TEXT + 4; ++n)
    lens.push_back(n);
  for (size_t i = 0; i < 2 * lens.size(); ++i) {
    const unsigned n = lens[i < lens.size() ? i : 2 * lens.size() - 1 - i];
    mc::what("length %u of field %d", n, at);
    const bool must = n <= MAX_TEXT && fixed + units(len[at]) + units(n) + 1 <=
                                       fptu::max_tuple_units_netto;
    const std::string err = set(at, n);
    if (err.empty())
      MC_CHECK(n <= MAX_TEXT && fixed + units(n) <= fptu::max_tuple_units_netto,
               "a value beyond the limit is accepted");
    else
      MC_CHECK(!must, "refused: %s", err.c_str());
    verify();
    if (i % 5 == 0) {
      // the neighbour
      const int f = (at + 1) % 3;
      MC_CHECK(set(f, i % 2 ? other[f] : other[f] + 8).empty(),
               "a neighbour is refused");
      verify();
      MC_CHECK(set(f, other[f]).empty(), "a neighbour is refused");
    }
    if (i % 17 == 0 && len[at]) {
      in_library = true;
      w.erase(ids[at]);
      in_library = false;
      len[at] = 0;
      verify();
    }
  }
  in_library = true;
  w.purge();
  in_library = false;
  for (auto &x : meta)
    MC_CHECK(!x.live, "memory is leaked");
}

//----------------------------------------------------------------- the types
// each setter of each type, as it has to grow the tuple
using fx::Val;
using fptu::genus;

Val sample_of(genus g, unsigned n) {
  switch (g) {
  case fptu::text:
  case fptu::varbin:
    return n ? Val("some longer text") : Val("t");
  case fptu::nested: {
    static const Val image = [] {
      fptu::tuple_rw_fixed t(2, 32, nullptr);
      t.set_u32(fptu::token(fptu::u32, 7), 0x12345678);
      const auto w = t.take_weak_asis();
      return Val(static_cast<const char *>(w.data()), w.size());
    }();
    return image;
  }
  case fptu::property:
    return n ? Val("\5property") : Val("\xff");
  case fptu::f32:
    return fx::raw(n ? 7.0f : 3.0f);
  case fptu::f64:
    return fx::raw(n ? 7.0 : 3.0);
  case fptu::mac:
    return fx::raw(uint64_t(n ? 0x0000010203040506u : 0x0000fffefdfcfbfau));
  default: {
    // a small number which all the integer and float setters are able to carry
    Val v(fx::fixed_size(g), '\0');
    v[0] = char(n ? 1 : 77);
    if (v.size() > 16)
      v[v.size() - 1] = 'e';
    return v;
  }
  }
}

struct Way {
  const char *name;
  std::function<void(tuple_rw_managed &, const fptu::token &, const Val &)> set,
      insert;
};
uint64_t small(const Val &v) { return uint8_t(v[0]); }
std::vector<Way> ways(genus g) {
  std::vector<Way> r;
  r.push_back({"the type itself",
               [](tuple_rw_managed &w, const fptu::token &k, const Val &v) {
                 fx::set(w, k, v);
               },
               [](tuple_rw_managed &w, const fptu::token &k, const Val &v) {
                 fx::insert(w, k, v);
               }});
#define WAY(NAME, ...)                                                         \
  r.push_back({#NAME ": " #__VA_ARGS__,                                        \
               [](tuple_rw_managed &w, const fptu::token &k, const Val &v) {   \
                 w.set_##NAME(k, __VA_ARGS__);                                 \
               },                                                              \
               [](tuple_rw_managed &w, const fptu::token &k, const Val &v) {   \
                 w.insert_##NAME(k, __VA_ARGS__);                              \
               }})
  switch (g) {
  case fptu::text:
    WAY(string, std::string(v));
    break;
  case fptu::bin128: {
    WAY(uuid, fx::unraw<fptu::uuid_t>(v));
    WAY(int128, fx::unraw<fptu::int128_t>(v));
    WAY(uint128, fx::unraw<fptu::uint128_t>(v));
  } break;
  case fptu::f32:
  case fptu::f64: {
    WAY(float, double(v == sample_of(fptu::f32, 0) ||
                              v == sample_of(fptu::f64, 0)
                          ? 3
                          : 7));
    WAY(number, float(v == sample_of(fptu::f32, 0) ||
                              v == sample_of(fptu::f64, 0)
                          ? 3
                          : 7));
    WAY(number, double(v == sample_of(fptu::f32, 0) ||
                               v == sample_of(fptu::f64, 0)
                           ? 3
                           : 7));
  } break;
  case fptu::i16:
    WAY(enum, short(small(v)));
    goto integers;
  case fptu::i8: // bool is i8
    r.push_back({"bool",
                 [](tuple_rw_managed &w, const fptu::token &k, const Val &v) {
                   small(v) == 1 ? w.set_bool(k, true) : w.set_i8(k, v[0]);
                 },
                 [](tuple_rw_managed &w, const fptu::token &k, const Val &v) {
                   if (small(v) == 1)
                     w.insert_bool(k, true);
                   else
                     w.insert_i8(k, v[0]);
                 }});
    goto integers;
  case fptu::i32:
  case fptu::i64:
  integers:
    WAY(integer, int64_t(small(v)));
    WAY(integer, uint64_t(small(v)));
    WAY(number, int32_t(small(v)));
    WAY(number, uint32_t(small(v)));
    WAY(number, int64_t(small(v)));
    WAY(number, uint64_t(small(v)));
    break;
  case fptu::u8:
  case fptu::u16:
  case fptu::u32:
  case fptu::u64:
    WAY(unsigned, int64_t(small(v)));
    WAY(unsigned, uint64_t(small(v)));
    WAY(number, int32_t(small(v)));
    WAY(number, uint32_t(small(v)));
    WAY(number, int64_t(small(v)));
    WAY(number, uint64_t(small(v)));
    break;
  default:
    break;
  }
#undef WAY
  return r;
}
bool supported(genus g) { return fx::is_stretchy(g) || fx::fixed_size(g); }

// all the histories of setting a loose and a preplaced field and of filling a
// collection, each of them through each of the setters
void types(mc::Chooser &c, genus g) {
  const bool managed = c.choose(2);
  const unsigned items = c.choose(2) * 2;
  memset(meta, 0, sizeof meta);
  ASAN_POISON_MEMORY_REGION(pool, sizeof pool);
  auto schema = fptu::schema::create();
  schema->define_preplaced("F", fptu::u32);
  schema->define_preplaced("P", g);
  schema->define_loose("X", g);
  schema->define_collection("C", g);
  const fptu::token P = schema->get_token("P"), X = schema->get_token("X"),
                    C = schema->get_token("C"), F = schema->get_token("F");
  static std::vector<Way> way;
  static int way_of = -1;
  if (way_of != int(g)) {
    way = ways(g);
    way_of = int(g);
  }
  const Val dom[] = {sample_of(g, 0), sample_of(g, 1)};
  std::string trace;
  Val p = fx::empty_value(g), x = p;
  bool has_x = false;
  std::vector<Val> col;
  in_library = true;
  {
    tuple_rw_managed w(items, 0, schema.get(),
                       managed ? tag() : hippeus::buffer_tag());
    in_library = false;
    const unsigned depth = mc::opt().thorough() ? 4 : 3;
    for (unsigned d = 0; d < depth; ++d) {
      // the last step takes all the ways, others only the first one
      const unsigned to = c.choose(3); // P, X, C
      const unsigned what = c.choose(3); // two values or erasing
      const unsigned by =
          what < 2 && d + 1 == depth ? c.choose(unsigned(way.size())) : 0;
      const bool fault = what < 2 && d + 1 == depth && c.choose(2);
      const fptu::token &k = to == 0 ? P : to == 1 ? X : C;
      trace += std::string(what < 2 ? to == 2 ? " insert " : " set "
                                    : " erase ") +
               "PXC"[to] + (what < 2 ? what ? " 1" : " 0" : "") +
               (by ? way[by].name : "") + (fault ? " no memory" : "");
      mc::what("%s:%s", fx::gname(g), trace.c_str());
      mc::step(to);
      bool ok = true;
      std::string err;
      failed = false;
      fail_in = fault;
      in_library = true;
      try {
        if (what == 2)
          w.erase(k);
        else if (to == 2)
          way[by].insert(w, k, dom[what]);
        else
          way[by].set(w, k, dom[what]);
        in_library = false;
      } catch (const std::exception &e) {
        in_library = false;
        ok = false;
        err = e.what();
      }
      fail_in = 0;
      MC_CHECK(ok != failed, "%s:%s: %s", fx::gname(g), trace.c_str(),
               ok ? "the failure of an allocation is lost" : err.c_str());
      mc::count(ok ? 0 : 1);
      if (!ok)
        continue;
      const Val v = what < 2 ? dom[what] : fx::empty_value(g);
      if (to == 0)
        p = v;
      else if (to == 1)
        x = v, has_x = what < 2;
      else if (what < 2)
        col.push_back(v);
      else
        col.clear();
    }
    const char *bad = w.validate();
    MC_CHECK(!bad, "%s:%s: %s", fx::gname(g), trace.c_str(), bad);
    MC_CHECK(w.get_u32(F) == 0, "%s:%s: a neighbour", fx::gname(g),
             trace.c_str());
    MC_CHECK(fx::get(w, P) == p, "%s:%s: P is %s", fx::gname(g), trace.c_str(),
             mc::hex(fx::get(w, P)).c_str());
    MC_CHECK(w.is_present(X) == has_x && fx::get(w, X) == x, "%s:%s: X is %s",
             fx::gname(g), trace.c_str(), mc::hex(fx::get(w, X)).c_str());
    auto items_of = w.collection(C);
    std::vector<Val> got;
    for (auto it = items_of.begin(); it != items_of.end(); ++it)
      got.push_back(fx::aget(*it));
    std::sort(got.begin(), got.end());
    std::sort(col.begin(), col.end());
    MC_CHECK(got == col, "%s:%s: %zu items of C or their values", fx::gname(g),
             trace.c_str(), got.size());
    const auto ro = w.take_weak_asis();
    bad = ro.validate(schema.get(), false);
    MC_CHECK(!bad, "%s:%s: serialized form: %s", fx::gname(g), trace.c_str(),
             bad);
    in_library = true;
  }
  in_library = false;
  for (auto &m : meta)
    MC_CHECK(!m.live, "memory is leaked");
}

std::vector<Config> configs() {
  std::vector<Config> r;
  const unsigned sizes[][2] = {{0, 0}, {1, 8}, {2, 64}, {5, 0}, {0, 200},
                               {4, 24}, {12, 2000}};
  for (int schema = 0; schema < 2; ++schema)
    for (int managed = 1; managed >= 0; --managed)
      for (auto &s : sizes)
        r.push_back({s[0], s[1], schema != 0, managed != 0});
  return r;
}

} // namespace

extern "C" {
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) {
  return in_library ? take(n) : __real_malloc(n);
}
void __wrap_free(void *p) {
  if (p && slot_of(p) >= 0)
    give(p);
  else
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p)
    return __wrap_malloc(n);
  const int i = slot_of(p);
  if (i < 0)
    return __real_realloc(p, n);
  MC_CHECK(p == pool[i] && meta[i].live, "realloc() of a freed memory");
  char *q = take(n);
  if (!q)
    return nullptr;
  memcpy(q, p, n < meta[i].bytes ? n : meta[i].bytes);
  give(p);
  return q;
}
}

int main(int argc, char **argv) {
  mc::counter_name(0) = "operations_done";
  mc::counter_name(1) = "allocation_failures_injected";
  mc::counter_name(2) = "operations_with_growth";
  mc::counter_name(3) = "growths_on_the_way_to_the_limit";
  mc::counter_name(4) = "items_inserted_up_to_the_limit";
  mc::Harness h;
  h.hang_seconds = 60;
  h.items = [] {
    std::vector<mc::Item> r;
    auto cs = configs();
    for (size_t i = 0; i < cs.size(); ++i) {
      mc::Item it;
      it.name = cs[i].name();
      it.a = i;
      it.b = 0;
      r.push_back(it);
    }
    for (size_t i = 0; i < cs.size(); ++i)
      for (size_t k = 0; k < sizeof walks / sizeof walks[0]; ++k) {
        if (!mc::opt().thorough() && i % 7 != 0 && i % 7 != 6)
          continue;
        mc::Item it;
        it.name = "limit-" + cs[i].name() + "-" + walks[k].name;
        it.a = i;
        it.b = 1 + k;
        r.push_back(it);
      }
    for (size_t i = 0; i < cs.size(); ++i)
      for (int at = 0; at < 3; ++at) {
        mc::Item it;
        it.name = "resize-" + cs[i].name() + "-" + std::to_string(at);
        it.a = i;
        it.b = 100 + at;
        r.push_back(it);
      }
    for (unsigned g = 0; g < 31; ++g)
      if (supported(genus(g))) {
        mc::Item it;
        it.name = std::string("types-") + fx::gname(genus(g));
        it.a = g;
        it.b = 200;
        r.push_back(it);
      }
    return r;
  };
  auto run = [](const mc::Item &i, const std::vector<uint32_t> *path) {
    if (i.b == 200) {
      auto body = [&](mc::Chooser &c) { types(c, genus(i.a)); };
      if (path)
        mc::dfs_replay(*path, body);
      else
        mc::dfs(body);
      return;
    }
    const Config c = configs()[i.a];
    if (i.b) {
      memset(meta, 0, sizeof meta);
      mc::set_path({uint32_t(0)});
      if (i.b >= 100)
        resize(c, int(i.b) - 100);
      else
        walk(c, walks[i.b - 1]);
      mc::add(mc::shared()->executions);
      mc::add(mc::shared()->states);
      return;
    }
    static Sys *s = nullptr;
    s = new Sys(c);
    if (path)
      return mc::replay_path(*s, *path);
    mc::BfsLimits l;
    l.depth = mc::opt().thorough() ? 6 : 5;
    l.max_states = 2000000;
    mc::bfs(*s, l);
  };
  h.run = [run](const mc::Item &i) { run(i, nullptr); };
  h.replay = [run](const mc::Item &i, const std::vector<uint32_t> &p) {
    run(i, &p);
  };
  return mc::main_(argc, argv, h);
}
