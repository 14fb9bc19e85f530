// Real tuple_rw_fixed + independent reference model, explored exhaustively.
#pragma once
#include "fields.hpp"
#include <algorithm>

namespace hist {
using namespace fx;
using fptu::token;

enum Kind { LOOSE, COLL, PRE };
struct FieldDef {
  genus g;
  Kind kind;
  bool dn; // discernible null
  std::vector<Val> dom;
  int id = -1; // identifier to be imported instead of an assigned one
};
struct Config {
  std::string name;
  std::vector<FieldDef> fields;
  size_t items_limit = 3, data_bytes = 24;
  bool with_schema = true;
  bool optimize_ops = true, reset_op = true, coll_item_ops = true;
  bool accessor_api = false; // write through operator[] accessors
  bool bad_ops = false;      // ill-typed / over-long / wrong-kind requests
  bool probe_read = true;
  unsigned depth = 1000;
  uint64_t max_states = 200000;
  // the histories go on from here: (field, value), or (field, -1) to erase
  std::vector<std::pair<int, int>> prefill;
  size_t item_positions = 4; // of a collection
  std::vector<std::pair<int, int>> ranges; // more ranges of items to erase
};

// checks enabled for the property being decided
struct Checks {
  bool model = true;      // reads agree with the reference model
  bool strict_ok = true;  // operations that fit must succeed
  bool accounting = false;
  bool atomic = false; // failing operations change nothing
  bool roundtrip = false;
  bool iterate = false;
  bool presence = true;
};

// --------------------------------------------------------------------------
// independent parser of the serialized form (documented layout)
struct Parsed {
  struct Entry {
    unsigned descriptor;
    genus g;
    unsigned id;
    size_t slot;  // index slot from the image start, in units
    size_t begin; // payload begin, units from the image start (0: none)
    size_t units; // payload units
  };
  std::vector<Entry> entries;
  size_t total_units = 0, index = 0;
  std::string trouble;
};

inline size_t stretchy_units(genus g, const uint8_t *p, size_t avail_units) {
  if (avail_units < 1)
    return SIZE_MAX;
  switch (g) {
  case fptu::text: {
    size_t len = p[0];
    if (len < 254)
      return (1 + len + 3) / 4;
    size_t suf = size_t(p[1]) | size_t(p[2]) << 8;
    return (3 + len + suf * 2 + 3) / 4;
  }
  case fptu::varbin:
  case fptu::nested:
    return size_t(p[0]) | size_t(p[1]) << 8;
  case fptu::property:
    return (2 + size_t(p[0]) + 3) / 4;
  default:
    return SIZE_MAX;
  }
}

inline Parsed parse(const void *image, size_t bytes) {
  Parsed r;
  const uint8_t *b = static_cast<const uint8_t *>(image);
  if (bytes < 4 || bytes % 4) {
    r.trouble = "image size is not a positive multiple of the unit";
    return r;
  }
  const size_t units = size_t(b[0]) | size_t(b[1]) << 8;
  const unsigned lf = unsigned(b[2]) | unsigned(b[3]) << 8;
  r.total_units = units;
  r.index = lf >> 3;
  if (units * 4 != bytes) {
    r.trouble = "header size differs from the image size";
    return r;
  }
  if (1 + r.index > units) {
    r.trouble = "index is larger than the image";
    return r;
  }
  for (size_t i = 0; i < r.index; ++i) {
    const uint8_t *e = b + 4 + i * 4;
    Parsed::Entry x;
    // descriptor layout: low half - inplaced/offset, high half - genus/id
    unsigned hi = unsigned(e[0]) | unsigned(e[1]) << 8;
    unsigned lo = unsigned(e[2]) | unsigned(e[3]) << 8;
    x.descriptor = lo;
    x.g = genus(lo >> 11);
    x.id = lo & 0x7ff;
    x.slot = 1 + i;
    x.begin = 0;
    x.units = 0;
    if (x.g == fptu::hole) {
      x.units = x.id;
      x.begin = x.id ? x.slot + hi : 0;
    } else if (!is_inplaced(x.g)) {
      if (hi) {
        x.begin = x.slot + hi;
        if (x.begin < 1 + r.index || x.begin >= units) {
          r.trouble = "payload reference is out of the payload area";
          return r;
        }
        x.units = is_stretchy(x.g)
                      ? stretchy_units(x.g, b + x.begin * 4, units - x.begin)
                      : (fixed_size(x.g) + 3) / 4;
      } else if (!is_stretchy(x.g)) {
        r.trouble = "fixed-size field without payload";
        return r;
      }
    }
    if (x.units &&
        (x.begin < 1 + r.index || x.begin + x.units > units)) {
      r.trouble = "payload is out of the payload area";
      return r;
    }
    r.entries.push_back(x);
  }
  return r;
}

// --------------------------------------------------------------------------
enum OpKind {
  SET,
  INS,
  ERASE,
  ERASE_AT,
  UPD_AT,
  ERASE_RANGE,
  COMPACT,
  SORT,
  OPTIMIZE,
  TAKE_OPT,
  RESET,
  BAD
};
struct Op {
  OpKind k;
  int f = 0, v = 0, a = 0, b = 0;
};

using Model = std::vector<std::vector<Val>>;

struct Sys {
  Config cfg;
  Checks chk;
  std::unique_ptr<fptu::schema> schema;
  std::vector<token> tok;
  std::unique_ptr<fptu::tuple_rw_fixed> t;
  std::vector<Op> ops;
  Model model, initial_model;
  size_t items_limit0 = 0, capacity0 = 0, pre_bytes = 0;
  char *mem = nullptr;
  size_t mem_bytes = 0;

  size_t pre_units() const { return (pre_bytes + 3) / 4; }
  const FieldDef &fd(int f) const { return cfg.fields[size_t(f)]; }

  Sys(const Config &c, const Checks &k) : cfg(c), chk(k) {
    schema = fptu::schema::create();
    for (size_t i = 0; i < cfg.fields.size(); ++i) {
      auto &f = cfg.fields[i];
      std::string n = "f" + std::to_string(i);
      if (f.id >= 0)
        tok.push_back(schema->import_definition(
            std::move(n), token(f.g, unsigned(f.id), f.kind == COLL, f.dn),
            nullptr, false));
      else if (f.kind == PRE)
        tok.push_back(schema->define_preplaced(std::move(n), f.g, f.dn));
      else
        tok.push_back(
            schema->define_loose(std::move(n), f.g, f.kind == COLL, f.dn));
    }
    pre_bytes = schema->preplaced_bytes();
    const fptu::schema *s = cfg.with_schema ? schema.get() : nullptr;
    t.reset(
        new fptu::tuple_rw_fixed(cfg.items_limit, cfg.data_bytes, s));
    const auto &ct = *t;
    mem = reinterpret_cast<char *>(
        const_cast<fptu::details::tuple_rw *>(ct.get_impl()));
    mem_bytes = fptu::details::tuple_rw::pure_tuple_size() + t->capacity();
    items_limit0 = t->head_space() + t->index_size();
    capacity0 = t->capacity();
    model.resize(cfg.fields.size());
    for (size_t i = 0; i < cfg.fields.size(); ++i)
      if (fd(int(i)).kind == PRE && !is_stretchy(fd(int(i)).g))
        model[i].push_back(fd(int(i)).dn ? denil(fd(int(i)).g)
                                         : empty_value(fd(int(i)).g));
    initial_model = model;
    make_ops();
    scribble();
    for (auto &p : cfg.prefill) {
      const FieldDef &d = fd(p.first);
      const token &k = tok[size_t(p.first)];
      if (p.second < 0) {
        t->erase(k);
        model[size_t(p.first)].clear();
      } else if (d.kind == COLL) {
        insert(*t, k, d.dom[size_t(p.second)]);
        m_insert(p.first, d.dom[size_t(p.second)]);
      } else {
        set(*t, k, d.dom[size_t(p.second)]);
        m_set(p.first, d.dom[size_t(p.second)]);
      }
      scribble();
    }
  }

  void make_ops() {
    for (size_t f = 0; f < cfg.fields.size(); ++f) {
      auto &d = cfg.fields[f];
      for (size_t v = 0; v < d.dom.size(); ++v)
        ops.push_back({d.kind == COLL ? INS : SET, int(f), int(v)});
    }
    for (size_t f = 0; f < cfg.fields.size(); ++f)
      ops.push_back({ERASE, int(f)});
    if (cfg.coll_item_ops)
      for (size_t f = 0; f < cfg.fields.size(); ++f)
        if (cfg.fields[f].kind == COLL) {
          for (size_t k = 0; k < cfg.items_limit && k < cfg.item_positions;
               ++k) {
            ops.push_back({ERASE_AT, int(f), 0, int(k)});
            for (size_t v = 0; v < cfg.fields[f].dom.size(); ++v)
              ops.push_back({UPD_AT, int(f), int(v), int(k)});
          }
          for (int a = 0; a < 2; ++a)
            for (int b = a + 1; b < 4; ++b)
              ops.push_back({ERASE_RANGE, int(f), 0, a, b});
          for (auto &x : cfg.ranges)
            ops.push_back({ERASE_RANGE, int(f), 0, x.first, x.second});
          for (size_t b = 4; b <= cfg.item_positions && b < cfg.items_limit; ++b)
            for (int a = 0; a < int(b); a += 3)
              if (cfg.item_positions > 4)
                ops.push_back({ERASE_RANGE, int(f), 0, a, int(b)});
        }
    if (cfg.optimize_ops) {
      ops.push_back({COMPACT});
      ops.push_back({SORT});
      ops.push_back({OPTIMIZE});
      ops.push_back({TAKE_OPT});
    }
    if (cfg.reset_op)
      ops.push_back({RESET});
    if (cfg.bad_ops)
      for (size_t f = 0; f < cfg.fields.size(); ++f)
        for (int b = 0; b < 4; ++b)
          ops.push_back({BAD, int(f), 0, b});
  }

  size_t nops() const { return ops.size(); }
  std::string title() const { return cfg.name; }
  std::string op_name(size_t i) const { return describe(ops[i]); }
  bool enabled(size_t i) const {
    const Op &o = ops[i];
    if (o.k == ERASE_AT || o.k == UPD_AT)
      return size_t(o.a) < model[size_t(o.f)].size();
    if (o.k == ERASE_RANGE)
      return size_t(o.b) <= model[size_t(o.f)].size();
    return true;
  }
  std::string describe(const Op &o) const {
    char b[256];
    static const char *n[] = {"set",     "insert",      "erase",    "erase_at",
                              "update_at", "erase_range", "compactify",
                              "sort_index(force)", "optimize",
                              "take_weak_optimized", "reset", "bad"};
    std::string val;
    if (o.k == SET || o.k == INS || o.k == UPD_AT) {
      auto &v = fd(o.f).dom[size_t(o.v)];
      val = " value[" + std::to_string(v.size()) + "]=" + mc::hex(v);
      if (val.size() > 90)
        val.resize(90);
    }
    if (o.k >= COMPACT && o.k != BAD)
      snprintf(b, sizeof b, "%s()", n[o.k]);
    else
      snprintf(b, sizeof b, "%s field#%d(%s%s%s)%s a=%d b=%d", n[o.k], o.f,
               gname(fd(o.f).g),
               fd(o.f).kind == PRE ? " preplaced"
                                   : fd(o.f).kind == COLL ? " collection"
                                                          : " loose",
               fd(o.f).dn ? " dn" : "", val.c_str(), o.a, o.b);
    return b;
  }

  // --- snapshots -----------------------------------------------------------
  static void put(std::string &s, uint32_t n) {
    s.append(reinterpret_cast<const char *>(&n), 4);
  }
  std::string model_bytes() const {
    std::string s;
    for (auto &f : model) {
      put(s, uint32_t(f.size()));
      for (auto &v : f) {
        put(s, uint32_t(v.size()));
        s += v;
      }
    }
    return s;
  }
  std::string save() const { return std::string(mem, mem_bytes) + model_bytes(); }
  void restore(const std::string &s) {
    memcpy(mem, s.data(), mem_bytes);
    const char *p = s.data() + mem_bytes;
    for (auto &f : model) {
      uint32_t n, l;
      memcpy(&n, p, 4);
      p += 4;
      f.resize(n);
      for (auto &v : f) {
        memcpy(&l, p, 4);
        p += 4;
        v.assign(p, l);
        p += l;
      }
    }
  }
  std::string image() const {
    auto w = t->take_weak_asis();
    return std::string(static_cast<const char *>(w.data()), w.size());
  }
  std::string key() const {
    std::string k = image();
    put(k, uint32_t(t->head_space()));
    put(k, uint32_t(t->tail_space_units()));
    put(k, uint32_t(t->junk_units()));
    put(k, uint32_t(t->loose_count()));
    return k + model_bytes();
  }

  // Overwrites everything that carries no information: unallocated space at
  // both ends, contents of vacated chunks and the pad of the preplaced area.
  void scribble() {
    auto w = t->take_weak_asis();
    char *base = static_cast<char *>(const_cast<void *>(w.data()));
    const size_t head = t->head_space(), tail = t->tail_space_units();
    const size_t used = (t->index_size() + 1) * 4 + t->payload_size_bytes();
    char *area = base + 4 - head * 4;
    if (head > 1)
      memset(area, 0xDB, (head - 1) * 4);
    if (tail)
      memset(base + used, 0xDB, tail * 4);
    if (cfg.with_schema && pre_bytes % 4) {
      const size_t at = (t->index_size() + 1) * 4 + pre_bytes;
      memset(base + at, 0xDB, 4 - pre_bytes % 4);
    }
    Parsed p = parse(base, w.size());
    if (!p.trouble.empty())
      return;
    for (auto &e : p.entries)
      if (e.g == fptu::hole && e.units)
        memset(base + e.begin * 4, 0xDB, e.units * 4);
  }

  // --- reference model ------------------------------------------------------
  bool m_is_empty(int f, const Val &v) const {
    if (fd(f).g == fptu::nested)
      return v.size() < 8;
    return is_empty(fd(f).g, v);
  }
  bool m_present(int f) const {
    auto &x = model[size_t(f)];
    if (fd(f).kind == PRE && !is_stretchy(fd(f).g))
      return !fd(f).dn || x[0] != denil(fd(f).g);
    return !x.empty();
  }
  void m_set(int f, const Val &v) {
    auto &x = model[size_t(f)];
    if (fd(f).kind == PRE && !is_stretchy(fd(f).g)) {
      x[0] = v;
      return;
    }
    x.clear();
    if (fd(f).dn || !m_is_empty(f, v))
      x.push_back(v);
  }
  void m_insert(int f, const Val &v) {
    auto &x = model[size_t(f)];
    if (fd(f).dn || !m_is_empty(f, v)) {
      x.push_back(v);
      std::sort(x.begin(), x.end());
    }
  }
  void m_remove_one(int f, const Val &v) {
    auto &x = model[size_t(f)];
    auto it = std::find(x.begin(), x.end(), v);
    MC_CHECK(it != x.end(),
             "collection field#%d yields a value that was never stored: %s", f,
             mc::hex(v).c_str());
    x.erase(it);
  }

  // --- comparing observations with the model --------------------------------
  // the const flavours of collection()/operator[] of a writable tuple are not
  // usable in this library, so the observation goes through the plain ones
  template <class T> static std::vector<Val> items_of(const T &r,
                                                      const token &k,
                                                      size_t limit) {
    std::vector<Val> got;
    for (const auto &a : r.collection(k)) {
      got.push_back(aget(a));
      if (got.size() > limit)
        break;
    }
    return got;
  }
  static std::vector<Val> items_of(const fptu::tuple_rw_fixed &r,
                                   const token &k, size_t limit) {
    std::vector<Val> got;
    auto c = const_cast<fptu::tuple_rw_fixed &>(r).collection(k);
    for (auto it = c.begin(); it != c.end(); ++it) {
      got.push_back(aget(*it));
      if (got.size() > limit)
        break;
    }
    return got;
  }
  template <class T> static bool coll_empty(const T &r, const token &k) {
    return r.collection(k).empty();
  }
  static bool coll_empty(const fptu::tuple_rw_fixed &r, const token &k) {
    auto c = const_cast<fptu::tuple_rw_fixed &>(r).collection(k);
    return !(c.begin() != c.end());
  }
  template <class T> static auto access(const T &r, const token &k) {
    return r[k];
  }
  static auto access(const fptu::tuple_rw_fixed &r, const token &k) {
    return const_cast<fptu::tuple_rw_fixed &>(r)[k];
  }
  template <class T>
  void check_reader(const T &r, const char *where, bool dyn_presence = true) {
    for (int f = 0; f < int(cfg.fields.size()); ++f) {
      const token &k = tok[size_t(f)];
      if (fd(f).kind == COLL) {
        std::vector<Val> got = items_of(r, k, items_limit0);
        MC_CHECK(got.size() <= items_limit0,
                 "%s: endless collection of field#%d", where, f);
        std::sort(got.begin(), got.end());
        MC_CHECK(got == model[size_t(f)],
                 "%s: collection field#%d(%s) holds %zu values instead of %zu "
                 "(or different ones)",
                 where, f, gname(fd(f).g), got.size(),
                 model[size_t(f)].size());
        if (dyn_presence && chk.presence) {
          MC_CHECK(r.is_present(k) == !got.empty(),
                   "%s: is_present() of collection field#%d is wrong", where,
                   f);
          MC_CHECK(coll_empty(r, k) == got.empty(),
                   "%s: collection.empty() of field#%d is wrong", where, f);
        }
        continue;
      }
      const bool present = m_present(f);
      Val got;
      const Rc rc = guarded([&] { got = get(r, k); });
      if (!present && fd(f).dn) {
        MC_CHECK(rc == Rc::absent,
                 "%s: reading absent discernible field#%d(%s): %s instead of "
                 "field_absent",
                 where, f, gname(fd(f).g), rc_name(rc));
      } else {
        const Val want = present ? model[size_t(f)][0] : empty_value(fd(f).g);
        MC_CHECK(rc == Rc::ok, "%s: reading field#%d(%s) throws %s", where, f,
                 gname(fd(f).g), rc_name(rc));
        MC_CHECK(got == want, "%s: field#%d(%s) reads %s[%zu] instead of %s[%zu]",
                 where, f, gname(fd(f).g), mc::hex(got).c_str(), got.size(),
                 mc::hex(want).c_str(), want.size());
      }
      if (chk.presence) {
        const auto acc = access(r, k);
        MC_CHECK(acc.exist() == present,
                 "%s: exist() of field#%d(%s) is %d instead of %d", where, f,
                 gname(fd(f).g), int(acc.exist()), int(present));
        MC_CHECK(bool(acc) == present, "%s: operator bool of field#%d", where,
                 f);
        MC_CHECK(r.is_present(k) == present,
                 "%s: is_present() of field#%d(%s) is %d instead of %d", where,
                 f, gname(fd(f).g), int(r.is_present(k)), int(present));
        Val got2;
        const Rc rc2 = guarded([&] { got2 = aget(acc); });
        MC_CHECK(rc2 == rc && got2 == got,
                 "%s: accessor of field#%d(%s) disagrees with the getter",
                 where, f, gname(fd(f).g));
      }
    }
  }

  void check_iteration_loose_counts(
      const std::map<unsigned, std::vector<Val>> &got, const char *where) {
    std::map<unsigned, std::vector<Val>> want;
    for (int f = 0; f < int(cfg.fields.size()); ++f)
      if (fd(f).kind != PRE && !model[size_t(f)].empty()) {
        auto &w = want[uint16_t(tok[size_t(f)].tag())];
        w.insert(w.end(), model[size_t(f)].begin(), model[size_t(f)].end());
      }
    for (auto &p : want)
      std::sort(p.second.begin(), p.second.end());
    MC_CHECK(got == want,
             "%s: iteration does not yield every present loose field exactly "
             "once",
             where);
  }

  template <class T, class B, class E>
  void check_field_iteration(const T &r, B begin, E end, const char *where) {
    (void)r;
    std::map<unsigned, std::vector<Val>> got;
    std::vector<int> pre_seen;
    size_t steps = 0;
    std::vector<Val> fwd;
    auto prev = begin;
    bool have_prev = false;
    for (auto it = begin; it != end; ++it) {
      MC_CHECK(++steps <= items_limit0 + cfg.fields.size() + 2,
               "%s: field iteration does not terminate", where);
      if (have_prev) {
        MC_CHECK(prev < it && it > prev && prev <= it && it >= prev,
                 "%s: iterators are not ordered in the iteration order", where);
        auto back = it;
        --back;
        MC_CHECK(back == prev, "%s: decrement is not inverse to increment",
                 where);
        auto post = prev;
        auto old = post++;
        MC_CHECK(old == prev && post == it,
                 "%s: postfix increment must return the old position and "
                 "advance",
                 where);
        auto post2 = it;
        auto old2 = post2--;
        MC_CHECK(old2 == it && post2 == prev,
                 "%s: postfix decrement must return the old position and step "
                 "back",
                 where);
      }
      prev = it;
      have_prev = true;
      const genus g = it.field_type();
      if (g == fptu::hole) {
        fwd.push_back(Val("hole"));
        continue;
      }
      const auto acc = *it;
      MC_CHECK(acc.type() == g, "%s: type of an iterated field", where);
      const Val v = aget(acc);
      fwd.push_back(v);
      const token k = acc.token();
      if (k.is_preplaced()) {
        int f = -1;
        for (int i = 0; i < int(tok.size()); ++i)
          if (fd(i).kind == PRE &&
              tok[size_t(i)].preplaced_offset() == k.preplaced_offset())
            f = i;
        MC_CHECK(f >= 0, "%s: iteration yields unknown preplaced field", where);
        for (int i = 0; i < int(tok.size()); ++i)
          MC_CHECK((it == tok[size_t(i)]) == (i == f) &&
                       (it != tok[size_t(i)]) == (i != f),
                   "%s: iterator/token equality", where);
        MC_CHECK(it.field_token() == tok[size_t(f)],
                 "%s: field_token() of preplaced field#%d", where, f);
        MC_CHECK(m_present(f) && v == model[size_t(f)][0],
                 "%s: iterated preplaced field#%d is absent or differs", where,
                 f);
        pre_seen.push_back(f);
      } else {
        got[uint16_t(k.tag())].push_back(v);
        const token kk = it.field_token();
        int f = -1;
        for (int i = 0; i < int(tok.size()); ++i)
          if (tok[size_t(i)] == kk)
            f = i;
        MC_CHECK(f >= 0 && fd(f).kind != PRE &&
                     uint16_t(kk.tag()) == uint16_t(k.tag()),
                 "%s: field_token() of a loose field does not match the schema",
                 where);
        check_token_equality(it, k.type(), k.id(), where);
      }
    }
    for (auto &p : got)
      std::sort(p.second.begin(), p.second.end());
    check_iteration_loose_counts(got, where);
    std::vector<int> want;
    for (int f = 0; f < int(cfg.fields.size()); ++f)
      if (fd(f).kind == PRE && m_present(f))
        want.push_back(f);
    MC_CHECK(pre_seen == want,
             "%s: preplaced fields are not iterated exactly once in the order "
             "of definition",
             where);
    // backward
    std::vector<Val> bwd;
    auto it = end;
    while (it != begin) {
      --it;
      MC_CHECK(bwd.size() <= fwd.size(),
               "%s: backward iteration is longer than forward", where);
      bwd.push_back(it.field_type() == fptu::hole ? Val("hole") : aget(*it));
    }
    std::reverse(bwd.begin(), bwd.end());
    MC_CHECK(bwd == fwd, "%s: backward iteration is not the reverse of forward",
             where);
  }

  // an iterator is equal to the token of its own field only
  template <class I>
  void check_token_equality(const I &it, genus g, unsigned id,
                            const char *where) {
    for (int i = 0; i < int(tok.size()); ++i) {
      const bool same = fd(i).kind != PRE && tok[size_t(i)].type() == g &&
                        tok[size_t(i)].id() == id;
      MC_CHECK((it == tok[size_t(i)]) == same &&
                   (it != tok[size_t(i)]) == !same,
               "%s: iterator/token equality", where);
    }
  }
  int field_of_loose(genus g, unsigned id) const {
    for (int i = 0; i < int(tok.size()); ++i)
      if (cfg.fields[size_t(i)].kind != PRE && tok[size_t(i)].type() == g &&
          tok[size_t(i)].id() == id)
        return i;
    return -1;
  }
  static const fptu::schema *alien_schema() {
    static const std::unique_ptr<fptu::schema> s = fptu::schema::create();
    return s.get();
  }
  template <class F> static bool no_such_field(F &&f) {
    try {
      // the result is used, otherwise the call of a pure function is elided
      volatile bool used = f().is_valid();
      (void)used;
      return false;
    } catch (const fptu::schema_no_such_field &) {
      return true;
    }
  }

  template <class T> void check_loose_iteration(const T &r, const char *where) {
    std::map<unsigned, std::vector<Val>> got;
    const auto b = r.cbegin_loose(), e = r.cend_loose();
    MC_CHECK(r.begin_loose() == b && r.end_loose() == e, "%s: begin/cbegin",
             where);
    const ptrdiff_t n = e - b;
    MC_CHECK(n >= 0 && size_t(n) == r.index_size(),
             "%s: distance of loose iterators is %zd instead of %zu", where, n,
             r.index_size());
    ptrdiff_t i = 0;
    for (auto it = b; it != e; ++it, ++i) {
      MC_CHECK(i < n, "%s: loose iteration does not terminate", where);
      MC_CHECK(it == b + i && it == i + b && it - i == b && it - b == i &&
                   e - it == n - i,
               "%s: loose iterator arithmetic at %zd", where, i);
      MC_CHECK((i == 0) == !(b < it) && it >= b && it <= e && it < e &&
                   e > it && it != e,
               "%s: loose iterator ordering at %zd", where, i);
      auto p = it;
      auto old = p++;
      MC_CHECK(old == it && p == it + 1,
               "%s: postfix increment of loose iterator must return the old "
               "position and advance forward",
               where);
      auto q = p;
      auto old2 = q--;
      MC_CHECK(old2 == p && q == it,
               "%s: postfix decrement of loose iterator must return the old "
               "position and step back",
               where);
      auto m = p;
      --m;
      MC_CHECK(m == it, "%s: decrement of loose iterator", where);
      auto a = b;
      a += i;
      MC_CHECK(a == it, "%s: += of loose iterator", where);
      a -= i;
      MC_CHECK(a == b, "%s: -= of loose iterator", where);
      if (it.field_type() == fptu::hole)
        continue;
      const auto acc = *it;
      const auto acc2 = b[i];
      const Val v = aget(acc);
      MC_CHECK(v == aget(acc2), "%s: subscript of loose iterator", where);
      got[uint16_t(acc.token().tag())].push_back(v);
      MC_CHECK(it.field_id() == acc.token().id() &&
                   it.field_type() == acc.type(),
               "%s: id/type of loose iterator", where);
      check_token_equality(it, it.field_type(), it.field_id(), where);
      if (cfg.with_schema) {
        int f = field_of_loose(it.field_type(), it.field_id());
        MC_CHECK(f >= 0 && it.field_token(schema.get()) == tok[size_t(f)] &&
                     it.field_token_nothow(schema.get()) == tok[size_t(f)],
                 "%s: field_token() of a loose iterator", where);
        const token made = it.field_token(fd(f).kind == COLL, fd(f).dn);
        MC_CHECK(made.type() == fd(f).g && made.id() == tok[size_t(f)].id() &&
                     made.is_collection() == (fd(f).kind == COLL) &&
                     made.is_discernible_null() == bool(fd(f).dn),
                 "%s: field_token() by flags", where);
      }
      MC_CHECK(no_such_field([&] { return it.field_token(alien_schema()); }),
               "%s: field_token() of a field which the schema doesn't have",
               where);
      MC_CHECK(no_such_field([&] {
                 return it.field_token(static_cast<fptu::schema *>(nullptr));
               }),
               "%s: field_token() without a schema", where);
    }
    for (auto &p : got)
      std::sort(p.second.begin(), p.second.end());
    check_iteration_loose_counts(got, where);
  }

  template <class C>
  void check_coll_postfix(const C &c, const char *where, int f) {
    auto it = c.begin();
    auto e = c.end();
    size_t n = 0;
    while (it != e) {
      auto p = it;
      auto old = p++;
      auto nx = it;
      ++nx;
      MC_CHECK(old == it && p == nx,
               "%s: postfix increment of collection iterator (field#%d) must "
               "return the old position and advance",
               where, f);
      it = nx;
      MC_CHECK(++n <= items_limit0, "%s: endless collection", where);
    }
  }

  void check_iterators() {
    const fptu::tuple_rw_fixed &ct = *t;
    check_loose_iteration(ct, "rw");
    const auto w = t->take_weak_asis();
    check_loose_iteration(w, "ro");
    if (cfg.with_schema) {
      check_field_iteration(ct, ct.begin(), ct.end(), "rw fields");
      check_field_iteration(w, w.begin(schema.get()), w.end(schema.get()),
                            "ro fields");
      MC_CHECK(ct.cbegin() == ct.begin() && ct.cend() == ct.end() &&
                   w.cbegin(schema.get()) == w.begin(schema.get()) &&
                   w.cend(schema.get()) == w.end(schema.get()),
               "cbegin/cend differ from begin/end");
    }
    for (int f = 0; f < int(cfg.fields.size()); ++f)
      if (fd(f).kind == COLL) {
        check_coll_postfix(w.collection(tok[size_t(f)]), "ro", f);
        auto c = t->collection(tok[size_t(f)]);
        // rw collections: same elements in the same order as the ro view
        std::vector<Val> a, b;
        for (auto it = c.begin(); it != c.end(); ++it) {
          a.push_back(aget(*it));
          MC_CHECK(a.size() <= items_limit0, "endless rw collection");
        }
        for (const auto &x : w.collection(tok[size_t(f)]))
          b.push_back(aget(x));
        MC_CHECK(a == b, "rw collection of field#%d differs from the ro one",
                 f);
        auto it = c.begin();
        if (it != c.end()) {
          auto old = it;
          auto r = it++;
          auto nx = old;
          ++nx;
          MC_CHECK(r == old && it == nx,
                   "postfix increment of rw collection iterator (field#%d)",
                   f);
        }
      }
  }

  size_t m_loose_count() const {
    size_t n = 0;
    for (int f = 0; f < int(cfg.fields.size()); ++f)
      if (fd(f).kind != PRE)
        n += model[size_t(f)].size();
    return n;
  }
  size_t m_payload_units() const {
    size_t n = cfg.with_schema ? pre_units() : 0;
    for (int f = 0; f < int(cfg.fields.size()); ++f)
      if (fd(f).kind != PRE || is_stretchy(fd(f).g))
        for (auto &v : model[size_t(f)])
          n += payload_units(fd(f).g, v);
    return n;
  }

  void check_accounting() {
    const char *trouble = t->validate();
    MC_CHECK(!trouble, "validate() of a writable tuple reports: %s", trouble);
    const std::string img = image();
    MC_CHECK(img.size() == t->brutto_size(), "image size %zu != brutto_size %zu",
             img.size(), t->brutto_size());
    MC_CHECK(t->head_space() + t->index_size() == items_limit0,
             "index space leaks: head %zu + index %zu != %zu", t->head_space(),
             t->index_size(), items_limit0);
    MC_CHECK(t->capacity() == capacity0, "capacity changed");
    MC_CHECK((t->head_space() + t->index_size() + t->tail_space_units()) * 4 +
                     t->payload_size_bytes() ==
                 capacity0,
             "space leaks: head %zu + index %zu + payload %zu/4 + tail %zu",
             t->head_space(), t->index_size(), t->payload_size_bytes(),
             t->tail_space_units());
    Parsed p = parse(img.data(), img.size());
    MC_CHECK(p.trouble.empty(), "malformed image: %s", p.trouble.c_str());
    MC_CHECK(p.index == t->index_size(), "index size in the image");
    std::vector<char> own(p.total_units, 0);
    size_t holes = 0, volume = 0, fields = 0;
    auto claim = [&](size_t b, size_t n, const char *who) {
      for (size_t i = b; i < b + n; ++i) {
        MC_CHECK(i < own.size(), "%s is out of the image", who);
        MC_CHECK(!own[i], "%s overlaps another chunk at unit %zu", who, i);
        own[i] = 1;
      }
    };
    claim(0, 1 + p.index, "header");
    if (cfg.with_schema) {
      claim(1 + p.index, pre_units(), "preplaced area");
      for (int f = 0; f < int(tok.size()); ++f)
        if (fd(f).kind == PRE && is_stretchy(fd(f).g)) {
          const size_t at =
              (1 + p.index) * 4 + size_t(tok[size_t(f)].preplaced_offset());
          // 16-bit distance counted from the slot
          unsigned hi = unsigned(uint8_t(img[at])) |
                        unsigned(uint8_t(img[at + 1])) << 8;
          MC_CHECK((hi != 0) == !model[size_t(f)].empty(),
                   "preplaced reference of field#%d", f);
          if (hi) {
            MC_CHECK(at % 4 == 0, "preplaced stretchy slot is unaligned");
            size_t b = at / 4 + hi;
            MC_CHECK(b < own.size(), "preplaced payload is out of the image");
            claim(b,
                  stretchy_units(fd(f).g,
                                 reinterpret_cast<const uint8_t *>(
                                     img.data()) +
                                     b * 4,
                                 own.size() - b),
                  "payload of a preplaced field");
          }
        }
    }
    for (auto &e : p.entries) {
      if (e.g == fptu::hole) {
        ++holes;
        volume += e.units;
      } else
        ++fields;
      if (e.units)
        claim(e.begin, e.units, e.g == fptu::hole ? "hole" : "field payload");
    }
    for (size_t i = 0; i < own.size(); ++i)
      MC_CHECK(own[i], "unit %zu belongs neither to a field nor to a vacancy: "
                       "space is lost",
               i);
    MC_CHECK(t->junk_units() == holes + volume,
             "junk_units() is %zu but the image holds %zu vacancies of %zu "
             "units",
             t->junk_units(), holes, volume);
    MC_CHECK(t->junk_bytes() == 4 * (holes + volume), "junk_bytes()");
    MC_CHECK(t->loose_count() == fields && fields == m_loose_count(),
             "loose_count() is %zu, image %zu, model %zu", t->loose_count(),
             fields, m_loose_count());
    MC_CHECK(t->brutto_size() - t->junk_bytes() == t->netto_size(),
             "netto_size() is %zu but brutto %zu minus junk %zu",
             t->netto_size(), t->brutto_size(), t->junk_bytes());
    const size_t minimal = 4 * (1 + m_loose_count() + m_payload_units());
    MC_CHECK(t->netto_size() == minimal,
             "netto_size() is %zu but the live content needs %zu bytes",
             t->netto_size(), minimal);
    const fptu::schema *s = cfg.with_schema ? schema.get() : nullptr;
    const auto w = t->take_weak_asis();
    const char *tr = w.validate(s);
    MC_CHECK(!tr, "serialized form is rejected by the validator: %s", tr);
    const char *tr2 = w.validate(s, true);
    MC_CHECK((tr2 == nullptr) == (holes == 0),
             "validation without holes is wrong for %zu holes: %s", holes,
             tr2 ? tr2 : "accepted");
    if (m_loose_count() == 0 && pre_bytes == 0) {
      MC_CHECK(t->empty() || holes, "empty() of an empty tuple");
    } else {
      MC_CHECK(!t->empty(), "empty() of a non-empty tuple");
    }
  }

  void check_roundtrip() {
    const fptu::schema *s = cfg.with_schema ? schema.get() : nullptr;
    const std::string img = image();
    {
      const auto w = t->take_weak_asis();
      check_reader(w, "weak view");
    }
    // relocation: exact-size heap block, different address
    std::unique_ptr<uint32_t[]> raw_(new uint32_t[img.size() / 4]);
    memcpy(raw_.get(), img.data(), img.size());
    {
      fptu::tuple_ro_weak w(raw_.get(), img.size(), s);
      check_reader(w, "relocated image");
      MC_CHECK(w.size() == img.size() && w.data() == raw_.get() &&
                   w.index_size() == t->index_size() &&
                   w.payload_size() == t->payload_size_bytes(),
               "geometry of the relocated image");
      auto m = fptu::tuple_ro_managed::clone(w, s);
      check_reader(m, "managed clone of the image");
      MC_CHECK(std::string(static_cast<const char *>(m.data()), m.size()) ==
                   img,
               "managed clone differs from the source image");
      auto m2 = fptu::tuple_ro_managed::clone(m, s);
      check_reader(m2, "clone of the managed tuple");
    }
    {
      fptu::tuple_ro_managed m(raw_.get(), img.size(), s);
      check_reader(m, "managed copy of the image");
      MC_CHECK(std::string(static_cast<const char *>(m.data()), m.size()) ==
                   img,
               "managed copy differs from the source image");
    }
    {
      fptu::tuple_rw_fixed r(raw_.get(), img.size(), t->head_space(),
                             t->tail_space_bytes(), s);
      const fptu::tuple_rw_fixed &cr = r;
      check_reader(cr, "writable tuple loaded from the image");
      auto w = r.take_weak_asis();
      MC_CHECK(std::string(static_cast<const char *>(w.data()), w.size()) ==
                   img,
               "reloaded tuple serializes differently");
      MC_CHECK(r.head_space() >= t->head_space() &&
                   r.tail_space_units() >= t->tail_space_units() &&
                   r.junk_units() == t->junk_units(),
               "reloaded tuple has head %zu/%zu tail %zu/%zu junk %zu/%zu",
               r.head_space(), t->head_space(), r.tail_space_units(),
               t->tail_space_units(), r.junk_units(), t->junk_units());
      MC_CHECK(!r.validate(), "reloaded tuple is invalid: %s", r.validate());
      r.optimize();
      check_reader(cr, "reloaded and optimized tuple");
      MC_CHECK(r.junk_units() == 0, "junk after optimize of the reloaded");
      MC_CHECK(!r.validate(), "reloaded+optimized tuple is invalid: %s",
               r.validate());
    }
    {
      auto c = fptu::tuple_rw_fixed::clone(*t);
      const fptu::tuple_rw_fixed &cc = c;
      check_reader(cc, "clone of the writable tuple");
      auto w = c.take_weak_asis();
      MC_CHECK(std::string(static_cast<const char *>(w.data()), w.size()) ==
                   img,
               "clone serializes differently");
      MC_CHECK(c.junk_units() == t->junk_units(), "junk of the clone");
      fptu::tuple_ro_managed m = c.move_to_ro(true);
      check_reader(m, "move_to_ro");
      MC_CHECK(std::string(static_cast<const char *>(m.data()), m.size()) ==
                   img,
               "moved tuple differs");
      fptu::tuple_rw_fixed back(std::move(m));
      const fptu::tuple_rw_fixed &cb = back;
      check_reader(cb, "moved back to the writable form");
      MC_CHECK(back.junk_units() == t->junk_units() && !back.validate(),
               "writable form after moving back");
    }
    {
      auto m = t->take_managed_clone_asis();
      check_reader(m, "take_managed_clone_asis");
      auto c = fptu::tuple_rw_fixed::clone(m, 1, 8, s);
      const fptu::tuple_rw_fixed &cc = c;
      check_reader(cc, "writable clone of a managed read-only tuple");
      MC_CHECK(c.junk_units() == t->junk_units(),
               "junk counters of a writable clone of a read-only tuple: %zu "
               "instead of %zu",
               c.junk_units(), t->junk_units());
      c.compactify();
      check_reader(cc, "compactified clone");
      MC_CHECK(!c.validate(), "compactified clone is invalid: %s",
               c.validate());
      auto mo = c.take_managed_clone_optimized();
      check_reader(mo.first, "take_managed_clone_optimized");
      MC_CHECK(!mo.first.validate(s, true),
               "optimized clone still has holes");
    }
    {
      // take_weak(dont_optimize): the flag must do what it says
      auto c = fptu::tuple_rw_fixed::clone(*t);
      auto p = c.take_weak(true);
      MC_CHECK(!p.second && std::string(
                                static_cast<const char *>(p.first.data()),
                                p.first.size()) == img,
               "take_weak(dont_optimize=true) must yield the tuple as is");
      auto q = c.take_weak(false);
      check_reader(q.first, "take_weak(dont_optimize=false)");
      MC_CHECK(!q.first.validate(s, true),
               "take_weak(dont_optimize=false) must yield optimized tuple");
      auto c2 = fptu::tuple_rw_fixed::clone(*t);
      auto mc1 = c2.take_managed_clone(true);
      MC_CHECK(!mc1.second &&
                   std::string(static_cast<const char *>(mc1.first.data()),
                               mc1.first.size()) == img,
               "take_managed_clone(dont_optimize=true) must copy as is");
      auto mc2 = c2.take_managed_clone(false);
      check_reader(mc2.first, "take_managed_clone(dont_optimize=false)");
      MC_CHECK(!mc2.first.validate(s, true),
               "take_managed_clone(dont_optimize=false) must be optimized");
    }
    MC_CHECK(image() == img, "serialization modified the source tuple");
  }

  void check_state() {
    const fptu::tuple_rw_fixed &ct = *t;
    if (chk.model) {
      check_reader(ct, "rw");
      const auto w = t->take_weak_asis();
      check_reader(w, "ro");
    }
    if (chk.accounting)
      check_accounting();
    if (chk.roundtrip)
      check_roundtrip();
    if (chk.iterate)
      check_iterators();
    mc::add(mc::shared()->checks);
  }
  void check_initial() {
    mc::what("initial state of %s", cfg.name.c_str());
    check_state();
  }

  void apply(size_t i) {
    const Op &o = ops[i];
    mc::what("%s: %s", cfg.name.c_str(), describe(o).c_str());
    if (mc::opt().verbose && !mc::opt().replay.empty())
      printf("  op %zu: %s\n", i, describe(o).c_str());
    const size_t h = t->head_space(), tl = t->tail_space_units();
    std::string before_image, before_key;
    if (chk.atomic) {
      before_key = key();
    }
    const int f = o.f;
    const Model saved = model;
    Rc rc = Rc::ok;
    std::string msg;
    bool must_ok = false;
    Rc allowed = Rc::space;
    switch (o.k) {
    case SET: {
      const Val &v = fd(f).dom[size_t(o.v)];
      const genus g = fd(f).g;
      auto &cur = saved[size_t(f)];
      const bool store = fd(f).dn || !m_is_empty(f, v);
      const size_t need = payload_units(g, v);
      if (fd(f).kind == PRE && !is_stretchy(g))
        must_ok = true;
      else if (!store)
        must_ok = cur.empty() || fd(f).kind != PRE || h >= 1;
      else if (cur.empty())
        must_ok = (fd(f).kind == PRE || h >= 1) && tl >= need;
      else {
        const size_t have = payload_units(g, cur[0]);
        must_ok = !is_stretchy(g) || have == need ||
                  (h >= 1 && (need < have || tl >= need));
      }
      if (cfg.accessor_api)
        rc = guarded([&] { auto a = (*t)[tok[size_t(f)]]; aset(a, v); }, &msg);
      else
        rc = guarded([&] { set(*t, tok[size_t(f)], v); }, &msg);
      if (rc == Rc::ok)
        m_set(f, v);
      break;
    }
    case INS: {
      const Val &v = fd(f).dom[size_t(o.v)];
      const bool store = fd(f).dn || !m_is_empty(f, v);
      must_ok = !store || (h >= 1 && tl >= payload_units(fd(f).g, v));
      rc = guarded([&] { insert(*t, tok[size_t(f)], v); }, &msg);
      if (rc == Rc::ok)
        m_insert(f, v);
      break;
    }
    case ERASE: {
      bool r = false;
      must_ok = fd(f).kind != PRE || !is_stretchy(fd(f).g) ||
                saved[size_t(f)].empty() || h >= 1;
      rc = guarded([&] { r = t->erase(tok[size_t(f)]); }, &msg);
      if (rc == Rc::ok) {
        const bool was = m_present(f);
        MC_CHECK(r == was, "erase() of field#%d(%s) returned %d but presence "
                           "was %d",
                 f, gname(fd(f).g), int(r), int(was));
        if (was) {
          auto &x = model[size_t(f)];
          if (fd(f).kind == PRE && !is_stretchy(fd(f).g))
            x[0] = fd(f).dn ? denil(fd(f).g) : empty_value(fd(f).g);
          else
            x.clear();
        }
      }
      break;
    }
    case ERASE_AT:
    case UPD_AT: {
      Val old;
      must_ok = o.k == ERASE_AT;
      bool r = false;
      if (o.k == UPD_AT)
        must_ok = false;
      rc = guarded(
          [&] {
            auto c = t->collection(tok[size_t(f)]);
            auto it = c.begin();
            for (int k = 0; k < o.a; ++k)
              ++it;
            old = aget(*it);
            if (o.k == ERASE_AT)
              r = t->erase(it);
            else {
              const Val &v = fd(f).dom[size_t(o.v)];
              const genus g = fd(f).g;
              const size_t have = payload_units(g, old),
                           need = payload_units(g, v);
              must_ok = !is_stretchy(g) || have == need ||
                        (!fd(f).dn && m_is_empty(f, v)) ||
                        (h >= 1 && (need < have || tl >= need));
              auto a = *it;
              aset(a, v);
              if (a.exist())
                MC_CHECK(aget(a) == v, "accessor reads another value just "
                                       "after the assignment");
            }
          },
          &msg);
      if (rc == Rc::ok) {
        m_remove_one(f, old);
        if (o.k == UPD_AT)
          m_insert(f, fd(f).dom[size_t(o.v)]);
        else
          MC_CHECK(r, "erase(iterator) returned false");
      }
      break;
    }
    case ERASE_RANGE: {
      std::vector<Val> olds;
      must_ok = true;
      size_t n = 0;
      rc = guarded(
          [&] {
            auto c = t->collection(tok[size_t(f)]);
            auto it = c.begin();
            auto from = it;
            for (int k = 0; k < o.b; ++k) {
              if (k == o.a)
                from = it;
              if (k >= o.a)
                olds.push_back(aget(*it));
              ++it;
            }
            n = t->erase(from, it);
          },
          &msg);
      if (rc == Rc::ok) {
        MC_CHECK(n == olds.size(), "erase(range) returned %zu instead of %zu",
                 n, olds.size());
        for (auto &v : olds)
          m_remove_one(f, v);
      }
      break;
    }
    case COMPACT:
    case SORT:
    case OPTIMIZE:
    case TAKE_OPT: {
      must_ok = true;
      const std::string was = image();
      bool inv = false;
      rc = guarded(
          [&] {
            if (o.k == COMPACT)
              inv = t->compactify();
            else if (o.k == SORT)
              inv = t->sort_index(true);
            else if (o.k == OPTIMIZE)
              inv = t->optimize();
            else {
              auto p = t->take_weak_optimized();
              inv = p.second;
              check_reader(p.first, "take_weak_optimized");
            }
          },
          &msg);
      if (rc == Rc::ok) {
        if (o.k != SORT)
          MC_CHECK(t->junk_units() == 0, "junk_units() is %zu after %s",
                   t->junk_units(), describe(o).c_str());
        // documented: returns true when iterators become invalid, i.e. when
        // any descriptor moved
        if (!inv) {
          const std::string is = image();
          const size_t n = 4 * (1 + t->index_size());
          bool same = t->head_space() == h;
          if (same) {
            // descriptors keep genus/id and position (offsets may change)
            for (size_t b = 4; b < n; b += 4)
              same &= is.compare(b + 2, 2, was, b + 2, 2) == 0;
          }
          MC_CHECK(same, "%s returned false but the index was rearranged",
                   describe(o).c_str());
        }
      }
      break;
    }
    case RESET:
      must_ok = true;
      rc = guarded([&] { t->reset(); }, &msg);
      if (rc == Rc::ok) {
        model = initial_model;
        MC_CHECK(t->index_size() == 0 && t->junk_units() == 0 &&
                     t->head_space() == items_limit0,
                 "geometry after reset()");
      }
      break;
    case BAD:
      return apply_bad(o);
    }
    if (rc != Rc::ok) {
      MC_CHECK(rc == allowed, "%s: unexpected %s (%s)", describe(o).c_str(),
               rc_name(rc), msg.c_str());
      if (chk.strict_ok)
        MC_CHECK(!must_ok,
                 "%s: %s although %zu free index slots and %zu free units are "
                 "available",
                 describe(o).c_str(), rc_name(rc), h, tl);
      if (chk.atomic)
        MC_CHECK(key() == before_key,
                 "%s failed with %s but changed the tuple",
                 describe(o).c_str(), rc_name(rc));
      mc::count(0);
    }
    scribble();
  }

  // requests that can never be satisfied: they must be refused by an exception
  // and leave everything as it was
  void apply_bad(const Op &o) {
    const std::string before = key();
    const token &k = tok[size_t(o.f)];
    Rc rc = Rc::ok;
    std::string msg;
    const char *w = "";
    bool skip = false;
    switch (o.a) {
    case 0: // wrong type
      w = "assignment of a wrong type";
      if (k.is_collection())
        rc = guarded(
            [&] {
              if (k.type() == fptu::i32)
                t->insert_string(k, fptu::string_view("x", 1));
              else
                t->insert_i32(k, 42);
            },
            &msg);
      else
        rc = guarded(
            [&] {
              if (k.type() == fptu::i32)
                t->set_string(k, fptu::string_view("x", 1));
              else
                t->set_i32(k, 42);
            },
            &msg);
      MC_CHECK(rc == Rc::mismatch, "%s: %s instead of type_mismatch", w,
               rc_name(rc));
      break;
    case 1: // wrong kind
      w = "insert into non-collection / assignment to a collection";
      rc = guarded(
          [&] {
            if (k.is_collection())
              set(*t, k, fd(o.f).dom[0]);
            else
              insert(*t, k, fd(o.f).dom[fd(o.f).dom.size() - 1]);
          },
          &msg);
      MC_CHECK(rc == Rc::coll, "%s: %s instead of collection exception", w,
               rc_name(rc));
      break;
    case 2: // over-long value
      w = "over-long value";
      if (k.type() == fptu::property) {
        std::string big(1 + 256, 'z');
        rc = guarded(
            [&] {
              if (k.is_collection())
                insert(*t, k, big);
              else
                set(*t, k, big);
            },
            &msg);
        MC_CHECK(rc == Rc::too_long, "%s: %s", w, rc_name(rc));
      } else if (k.type() == fptu::text || k.type() == fptu::varbin) {
        static const std::string big(300000, 'z');
        rc = guarded(
            [&] {
              if (k.is_collection())
                insert(*t, k, big);
              else
                set(*t, k, big);
            },
            &msg);
        MC_CHECK(rc == Rc::too_long, "%s: %s", w, rc_name(rc));
      } else
        skip = true;
      break;
    case 3: // does not fit at all
      w = "value larger than the whole tuple";
      if (k.type() == fptu::text || k.type() == fptu::varbin) {
        std::string big(cfg.data_bytes + 64, 'z');
        rc = guarded(
            [&] {
              if (k.is_collection())
                insert(*t, k, big);
              else
                set(*t, k, big);
            },
            &msg);
        MC_CHECK(rc == Rc::space, "%s: %s", w, rc_name(rc));
      } else
        skip = true;
      break;
    }
    (void)skip;
    MC_CHECK(key() == before, "refused request (%s) changed the tuple", w);
    const fptu::tuple_rw_fixed &ct = *t;
    check_reader(ct, "rw after a refused request");
  }
};
} // namespace hist
