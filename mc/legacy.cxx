// P13: the legacy C API (fptu_*) against a multiset of (column, type, value).
//
// Every history of fptu_upsert_*/insert_*/update_*/erase*/clear/shrink/fetch
// calls up to the depth bound is executed on a real fptu_rw in a caller's
// buffer. The model is a multiset; where the API leaves a choice (which item of
// a collection is updated or erased) any one of the allowed successors is
// accepted and becomes the model's state.
#include "mc.hpp"

#include "fast_positive/tuples/details/legacy_compat.h"
#include "fast_positive/tuples/internal.h"

#include <algorithm>
#include <map>
#include <set>

namespace {
using Val = std::string;

enum Kind {
  K_u16, K_bool, K_i32, K_u32, K_i64, K_u64, K_f32, K_f64, K_dt,
  K_96, K_128, K_160, K_256, K_cstr, K_opaque, K_nested, K_count
};
const char *const kname[] = {"uint16", "bool",  "int32", "uint32",
                             "int64",  "uint64", "fp32", "fp64",
                             "datetime", "96", "128", "160", "256",
                             "cstr", "opaque", "nested"};
const fptu_type ktype[] = {
    fptu_uint16, fptu_bool, fptu_int32, fptu_uint32, fptu_int64, fptu_uint64,
    fptu_fp32,   fptu_fp64, fptu_datetime, fptu_96, fptu_128, fptu_160,
    fptu_256,    fptu_cstr, fptu_opaque, fptu_nested};

// size of the value in bytes (0 for those of variable length)
const unsigned ksize[] = {2, 1, 4, 4, 8, 8, 4, 8, 8, 12, 16, 20, 32, 0, 0, 0};

bool k_int(int k) { return k == K_i32 || k == K_i64 || k == K_bool; }
bool k_uint(int k) { return k == K_u16 || k == K_u32 || k == K_u64; }
bool k_fp(int k) { return k == K_f32 || k == K_f64; }

struct Filter {
  const char *name;
  fptu_filter mask;
  bool match(int k) const {
    switch (mask) {
    case fptu_any:
      return true;
    case fptu_any_int:
      // declared as "integers": both signed and unsigned ones
      return k_int(k) || k_uint(k);
    case fptu_any_uint:
      return k_uint(k);
    case fptu_any_fp:
      return k_fp(k);
    case fptu_any_number:
      return k_int(k) || k_uint(k) || k_fp(k);
    default:
      for (int i = 0; i < K_count; ++i)
        if (mask == fptu_filter_mask(ktype[i]))
          return i == k;
      return false;
    }
  }
};

template <typename T> Val raw(T v) {
  return Val(reinterpret_cast<const char *>(&v), sizeof(v));
}
template <typename T> T un(const Val &v) {
  T r;
  if (v.size() != sizeof(r))
    mc::harness_error("wrong size of value");
  memcpy(&r, v.data(), sizeof(r));
  return r;
}
Val iov2val(const struct iovec &v) {
  return Val(static_cast<const char *>(v.iov_base), v.iov_len);
}
// the caller's data lies at an unaligned address and is followed by other bytes
struct Lay {
  std::vector<char> buf;
  Lay(const Val &v) : buf(v.size() + 9, char(0xEE)) {
    memcpy(buf.data() + 4, v.data(), v.size());
  }
  char *p() { return buf.data() + 4; }
};

fptu_ro make_ro(const Val &v) {
  fptu_ro ro;
  ro.sys.iov_base = const_cast<char *>(v.data());
  ro.sys.iov_len = v.size();
  return ro;
}

enum Mode { UPSERT, INSERT, UPDATE };

#define THREE(LEGACY, ARG)                                                     \
  return mode == UPSERT   ? fptu_upsert_##LEGACY(pt, col, ARG)                 \
         : mode == INSERT ? fptu_insert_##LEGACY(pt, col, ARG)                 \
                          : fptu_update_##LEGACY(pt, col, ARG)
fptu_error store(Mode mode, fptu_rw *pt, unsigned col, int k, const Val &v,
                 bool alt) {
  switch (k) {
  case K_u16:
    THREE(uint16, un<uint16_t>(v));
  case K_bool:
    THREE(bool, un<bool>(v));
  case K_i32:
    THREE(int32, un<int32_t>(v));
  case K_u32:
    THREE(uint32, un<uint32_t>(v));
  case K_i64:
    THREE(int64, un<int64_t>(v));
  case K_u64:
    THREE(uint64, un<uint64_t>(v));
  case K_f32:
    THREE(fp32, un<float>(v));
  case K_f64:
    THREE(fp64, un<double>(v));
  case K_dt:
    THREE(datetime,
          fptu::datetime_t::from_fixedpoint_32dot32(un<uint64_t>(v)));
  case K_96: {
    Lay l(v);
    THREE(96, l.p());
  }
  case K_128: {
    Lay l(v);
    THREE(128, l.p());
  }
  case K_160: {
    Lay l(v);
    THREE(160, l.p());
  }
  case K_256: {
    Lay l(v);
    THREE(256, l.p());
  }
  case K_cstr: {
    Lay l(v);
    if (alt) {
      Val z(v);
      THREE(cstr, z.c_str());
    }
    return mode == UPSERT   ? fptu_upsert_string(pt, col, l.p(), v.size())
           : mode == INSERT ? fptu_insert_string(pt, col, l.p(), v.size())
                            : fptu_update_string(pt, col, l.p(), v.size());
  }
  case K_opaque: {
    Lay l(v);
    if (alt) {
      struct iovec iov;
      iov.iov_base = l.p();
      iov.iov_len = v.size();
      THREE(opaque_iov, iov);
    }
    return mode == UPSERT   ? fptu_upsert_opaque(pt, col, l.p(), v.size())
           : mode == INSERT ? fptu_insert_opaque(pt, col, l.p(), v.size())
                            : fptu_update_opaque(pt, col, l.p(), v.size());
  }
  case K_nested: {
    std::vector<uint32_t> a((v.size() + 3) / 4);
    memcpy(a.data(), v.data(), v.size());
    fptu_ro ro;
    ro.sys.iov_base = a.data();
    ro.sys.iov_len = v.size();
    THREE(nested, ro);
  }
  }
  abort();
}
#undef THREE

Val cstr2val(const char *s) { return s ? Val(s) : Val(); }

Val field_value(const fptu_field *pf, int k) {
  switch (k) {
  case K_u16:
    return raw(uint16_t(fptu_field_uint16(pf)));
  case K_bool:
    return raw(fptu_field_bool(pf));
  case K_i32:
    return raw(int32_t(fptu_field_int32(pf)));
  case K_u32:
    return raw(uint32_t(fptu_field_uint32(pf)));
  case K_i64:
    return raw(int64_t(fptu_field_int64(pf)));
  case K_u64:
    return raw(uint64_t(fptu_field_uint64(pf)));
  case K_f32:
    return raw(float(fptu_field_fp32(pf)));
  case K_f64:
    return raw(double(fptu_field_fp64(pf)));
  case K_dt:
    return raw(uint64_t(fptu_field_datetime(pf).fixedpoint));
  case K_96:
    return Val(reinterpret_cast<const char *>(fptu_field_96(pf)), 12);
  case K_128:
    return Val(reinterpret_cast<const char *>(fptu_field_128(pf)), 16);
  case K_160:
    return Val(reinterpret_cast<const char *>(fptu_field_160(pf)), 20);
  case K_256:
    return Val(reinterpret_cast<const char *>(fptu_field_256(pf)), 32);
  case K_cstr:
    return cstr2val(fptu_field_cstr(pf));
  case K_opaque:
    return iov2val(fptu_field_opaque(pf));
  case K_nested:
    return iov2val(fptu_field_nested(pf).sys);
  }
  abort();
}

Val get_value(fptu_ro ro, unsigned col, int k, int *err) {
  switch (k) {
  case K_u16:
    return raw(uint16_t(fptu_get_uint16(ro, col, err)));
  case K_bool:
    return raw(fptu_get_bool(ro, col, err));
  case K_i32:
    return raw(int32_t(fptu_get_int32(ro, col, err)));
  case K_u32:
    return raw(uint32_t(fptu_get_uint32(ro, col, err)));
  case K_i64:
    return raw(int64_t(fptu_get_int64(ro, col, err)));
  case K_u64:
    return raw(uint64_t(fptu_get_uint64(ro, col, err)));
  case K_f32:
    return raw(float(fptu_get_fp32(ro, col, err)));
  case K_f64:
    return raw(double(fptu_get_fp64(ro, col, err)));
  case K_dt:
    return raw(uint64_t(fptu_get_datetime(ro, col, err).fixedpoint));
  case K_96:
    return Val(reinterpret_cast<const char *>(fptu_get_96(ro, col, err)), 12);
  case K_128:
    return Val(reinterpret_cast<const char *>(fptu_get_128(ro, col, err)), 16);
  case K_160:
    return Val(reinterpret_cast<const char *>(fptu_get_160(ro, col, err)), 20);
  case K_256:
    return Val(reinterpret_cast<const char *>(fptu_get_256(ro, col, err)), 32);
  case K_cstr:
    return cstr2val(fptu_get_cstr(ro, col, err));
  case K_opaque:
    return iov2val(fptu_get_opaque(ro, col, err));
  case K_nested:
    return iov2val(fptu_get_nested(ro, col, err).sys);
  }
  abort();
}

int kind_of(fptu_type t) {
  for (int k = 0; k < K_count; ++k)
    if (ktype[k] == t)
      return k;
  return -1;
}

using FieldId = std::pair<unsigned, int>; // column, kind
struct Content : std::map<FieldId, std::vector<Val>> {
  void put(FieldId f, const Val &v) {
    auto &x = (*this)[f];
    x.insert(std::upper_bound(x.begin(), x.end(), v), v);
  }
  bool take(FieldId f, const Val &v) {
    auto it = find(f);
    if (it == end())
      return false;
    auto p = std::find(it->second.begin(), it->second.end(), v);
    if (p == it->second.end())
      return false;
    it->second.erase(p);
    if (it->second.empty())
      erase(it);
    return true;
  }
  size_t count(FieldId f) const {
    auto it = find(f);
    return it == end() ? 0 : it->second.size();
  }
  size_t total() const {
    size_t n = 0;
    for (auto &x : *this)
      n += x.second.size();
    return n;
  }
  std::string bytes() const {
    std::string s;
    auto u = [&](size_t x) { s += raw(uint32_t(x)); };
    u(size());
    for (auto &x : *this) {
      u(x.first.first);
      u(size_t(x.first.second));
      u(x.second.size());
      for (auto &v : x.second) {
        u(v.size());
        s += v;
      }
    }
    return s;
  }
  const char *load(const char *p) {
    clear();
    auto u = [&]() {
      uint32_t x;
      memcpy(&x, p, 4);
      p += 4;
      return x;
    };
    for (uint32_t n = u(); n; --n) {
      const unsigned c = u();
      const int k = int(u());
      auto &x = (*this)[{c, k}];
      x.resize(u());
      for (auto &v : x) {
        const uint32_t l = u();
        v.assign(p, l);
        p += l;
      }
    }
    return p;
  }
};

std::string show(const Content &c) {
  std::string s;
  char b[64];
  for (auto &x : c)
    for (auto &v : x.second) {
      snprintf(b, sizeof(b), "%s%u.%s=", s.empty() ? "" : " ", x.first.first,
               kname[x.first.second]);
      s += b;
      for (size_t i = 0; i < v.size() && i < 8; ++i) {
        snprintf(b, sizeof(b), "%02x", uint8_t(v[i]));
        s += b;
      }
      if (v.size() > 8) {
        snprintf(b, sizeof(b), "..(%zu)", v.size());
        s += b;
      }
    }
  return s.empty() ? "nothing" : s;
}

// units occupied by the value outside of the descriptor
size_t units_of(int k, const Val &v) {
  switch (k) {
  case K_u16:
  case K_bool:
    return 0;
  case K_cstr:
    return (v.size() + (v.size() < 254 ? 1 : 3) + 3) / 4;
  case K_opaque:
    return (v.size() + 3) / 4 + 1;
  case K_nested:
    return (v.size() + 3) / 4;
  default:
    return ksize[k] / 4;
  }
}

struct FieldDef {
  unsigned col;
  int k;
  std::vector<Val> vals;
};
struct Config {
  std::string name;
  unsigned items;
  unsigned data;
  std::vector<FieldDef> fields;
  std::vector<Filter> filters;
  unsigned depth = 1000;
  // the histories go on from here: insertions (field, value) and erasures of
  // a field (field, -1)
  std::vector<std::pair<size_t, int>> prefill;
  size_t nth = 3;
};

struct FilterCtx {
  unsigned col;
  int k;
  int calls;
  bool saw_dead;
};
bool by_ctx(const fptu_field *pf, void *context, void *param) noexcept {
  auto c = static_cast<FilterCtx *>(context);
  c->calls += 1;
  if (param != context || fptu_field_is_dead(pf))
    c->saw_dead = true;
  return fptu_field_column(pf) == int(c->col) &&
         fptu_field_type(pf) == ktype[c->k];
}

struct Sys {
  Config cfg;
  size_t bytes;
  char *mem;
  std::vector<uint64_t> second;
  fptu_rw *pt;
  Content model;

  struct Op {
    enum T { STORE, ERASE, ERASE_F, ERASE_NTH, CLEAR, SHRINK, FETCH, BAD } t;
    Mode mode;
    size_t f, v;
    bool alt;
  };
  std::vector<Op> ops;

  explicit Sys(const Config &c) : cfg(c) {
    bytes = fptu_space(cfg.items, cfg.data);
    mem = static_cast<char *>(malloc(bytes));
    memset(mem, 0xDB, bytes);
    pt = fptu_init(mem, bytes, cfg.items);
    if (!pt)
      mc::fail("fptu_init(%zu, %u) refused the size given by fptu_space()",
               bytes, cfg.items);
    if (static_cast<void *>(pt) != mem)
      mc::harness_error("tuple is not at the beginning of the buffer");
    for (size_t f = 0; f < cfg.fields.size(); ++f) {
      for (int m = UPSERT; m <= UPDATE; ++m)
        for (size_t v = 0; v < cfg.fields[f].vals.size(); ++v)
          ops.push_back({Op::STORE, Mode(m), f, v, v % 2 == 1});
      ops.push_back({Op::ERASE, UPSERT, f, 0, false});
    }
    std::set<unsigned> cols;
    for (auto &f : cfg.fields)
      cols.insert(f.col);
    for (unsigned c : cols)
      for (size_t i = 0; i < cfg.filters.size(); ++i)
        ops.push_back({Op::ERASE_F, UPSERT, c, i, false});
    for (size_t n = 0; n < cfg.nth; ++n)
      ops.push_back({Op::ERASE_NTH, UPSERT, n, 0, false});
    ops.push_back({Op::CLEAR, UPSERT, 0, 0, false});
    ops.push_back({Op::SHRINK, UPSERT, 0, 0, false});
    ops.push_back({Op::FETCH, UPSERT, 0, 0, false});
    ops.push_back({Op::FETCH, UPSERT, 0, 1, false});
    ops.push_back({Op::BAD, UPSERT, 0, 0, false});
    for (auto &p : cfg.prefill)
      for (size_t i = 0; i < ops.size(); ++i)
        if (ops[i].f == p.first &&
            (p.second < 0 ? ops[i].t == Op::ERASE
                          : ops[i].t == Op::STORE && ops[i].mode == INSERT &&
                                ops[i].v == size_t(p.second))) {
          apply(i);
          break;
        }
  }
  std::string title() { return cfg.name; }
  size_t nops() { return ops.size(); }
  bool enabled(size_t) { return true; }
  std::string op_name(size_t n) {
    auto &o = ops[n];
    char b[128];
    switch (o.t) {
    case Op::STORE:
      snprintf(b, sizeof(b), "%s_%s(%u,#%zu)",
               o.mode == UPSERT ? "upsert" : o.mode == INSERT ? "insert"
                                                              : "update",
               kname[cfg.fields[o.f].k], cfg.fields[o.f].col, o.v);
      break;
    case Op::ERASE:
      snprintf(b, sizeof(b), "erase(%u,%s)", cfg.fields[o.f].col,
               kname[cfg.fields[o.f].k]);
      break;
    case Op::ERASE_F:
      snprintf(b, sizeof(b), "erase(%zu,%s)", o.f, cfg.filters[o.v].name);
      break;
    case Op::ERASE_NTH:
      snprintf(b, sizeof(b), "erase_field(live #%zu)", o.f);
      break;
    case Op::CLEAR:
      return "clear";
    case Op::SHRINK:
      return "shrink";
    case Op::FETCH:
      return o.v ? "take_noshrink+fetch_ex" : "take_noshrink+fetch";
    case Op::BAD:
      return "invalid arguments";
    }
    return b;
  }
  std::string save() { return std::string(mem, bytes) + model.bytes(); }
  void restore(const std::string &s) {
    memcpy(mem, s.data(), bytes);
    model.load(s.data() + bytes);
  }
  std::string key() {
    fptu_ro ro = fptu_take_noshrink(pt);
    std::string k = iov2val(ro.sys);
    k += raw(uint32_t(fptu_space4items(pt)));
    k += raw(uint32_t(fptu_space4data(pt)));
    k += raw(uint32_t(fptu_junkspace(pt)));
    return k + model.bytes();
  }

  Content observe(const fptu_field *b, const fptu_field *e, const char *w) {
    Content c;
    MC_CHECK(b <= e, "%s: begin is above end", w);
    for (const fptu_field *pf = b; pf != e; ++pf) {
      if (fptu_field_is_dead(pf)) {
        MC_CHECK(fptu_field_column(pf) < 0,
                 "%s: column of a removed field is %d, not negative", w,
                 fptu_field_column(pf));
        continue;
      }
      const int k = kind_of(fptu_field_type(pf));
      MC_CHECK(k >= 0, "%s: a field of unknown type 0x%x", w,
               unsigned(fptu_field_type(pf)));
      MC_CHECK(fptu_field_column(pf) >= 0, "%s: negative column", w);
      c.put({unsigned(fptu_field_column(pf)), k}, field_value(pf, k));
    }
    return c;
  }
  Content observe_rw(const char *w) {
    return observe(fptu_begin_rw(pt), fptu_end_rw(pt), w);
  }
  void expect(const Content &got, const Content &want, const char *w) {
    MC_CHECK(got == want, "%s: tuple holds %s, expected %s", w,
             show(got).c_str(), show(want).c_str());
  }
  size_t space() { return fptu_space4items(pt) * 4 + fptu_space4data(pt); }

  void check_initial() {
    if (cfg.prefill.empty()) {
      MC_CHECK(fptu_space4items(pt) == cfg.items, "space4items %zu, asked %u",
               fptu_space4items(pt), cfg.items);
      MC_CHECK(fptu_space4data(pt) >= cfg.data, "space4data %zu, asked %u",
               fptu_space4data(pt), cfg.data);
    }
    check_state();
  }

  void apply(size_t n) {
    auto &o = ops[n];
    mc::what("%s", op_name(n).c_str());
    const std::string name = op_name(n);
    const char *w = name.c_str();
    fptu_clear_error();
    switch (o.t) {
    case Op::STORE: {
      const FieldDef &fd = cfg.fields[o.f];
      const FieldId id{fd.col, fd.k};
      const Val &v = fd.vals[o.v];
      const size_t items = fptu_space4items(pt), data = fptu_space4data(pt);
      const std::string before = key();
      const fptu_error e = store(o.mode, pt, fd.col, fd.k, v, o.alt);
      const size_t have = model.count(id);
      if (e != FPTU_OK) {
        mc::count(0);
        if (o.mode == UPDATE && !have)
          MC_CHECK(e == FPTU_ENOFIELD, "%s: error %d, expected ENOFIELD", w,
                   int(e));
        else {
          MC_CHECK(e == FPTU_ENOSPACE, "%s: error %d (%s)", w, int(e),
                   fptu_last_error_msg());
          const size_t need = units_of(fd.k, v) * 4;
          // growing in a full index may need a slot for the vacated chunk
          MC_CHECK(items == 0 || data < need,
                   "%s: ENOSPACE with room for %zu items and %zu bytes", w,
                   items, data);
        }
        MC_CHECK(fptu_last_error_code() == e, "%s: last error %d, returned %d",
                 w, int(fptu_last_error_code()), int(e));
        MC_CHECK(*fptu_last_error_msg(), "%s: no message of the error", w);
        MC_CHECK(key() == before, "%s: refused, but the tuple changed", w);
        return;
      }
      MC_CHECK(fptu_last_error_code() == FPTU_OK,
               "%s: succeeded, but last error is %d", w,
               int(fptu_last_error_code()));
      MC_CHECK(!(o.mode == UPDATE && !have), "%s: updated an absent field", w);
      const Content got = observe_rw(w);
      if (o.mode == INSERT || !have) {
        model.put(id, v);
        expect(got, model, w);
        return;
      }
      // exactly one of the items has been replaced
      const std::vector<Val> items_were = model[id];
      for (auto &x : items_were) {
        Content want = model;
        want.take(id, x);
        want.put(id, v);
        if (want == got) {
          model = want;
          return;
        }
      }
      mc::fail("%s: tuple held %s, holds %s", w, show(model).c_str(),
               show(got).c_str());
    }
    case Op::ERASE: {
      const FieldDef &fd = cfg.fields[o.f];
      const FieldId id{fd.col, fd.k};
      const int r = fptu::erase(pt, fd.col, ktype[fd.k]);
      const Content got = observe_rw(w);
      MC_CHECK(r == (model.count(id) ? 1 : 0), "%s: returned %d of %zu", w, r,
               model.count(id));
      removed_one_of(r ? model[id] : std::vector<Val>(), id, got, w);
      return;
    }
    case Op::ERASE_F: {
      int n = 0;
      Content want;
      for (auto &x : model) {
        if (x.first.first == o.f && cfg.filters[o.v].match(x.first.second))
          n += int(x.second.size());
        else
          want.insert(x);
      }
      const int r = fptu::erase(pt, unsigned(o.f), cfg.filters[o.v].mask);
      const Content got = observe_rw(w);
      MC_CHECK(r == n, "%s: returned %d, there were %d fields", w, r, n);
      expect(got, want, w);
      model = want;
      return;
    }
    case Op::ERASE_NTH: {
      size_t i = 0;
      const fptu_field *pf = fptu_begin_rw(pt), *e = fptu_end_rw(pt);
      for (; pf != e; ++pf)
        if (!fptu_field_is_dead(pf) && i++ == o.f)
          break;
      if (pf == e)
        return;
      const FieldId id{unsigned(fptu_field_column(pf)),
                       kind_of(fptu_field_type(pf))};
      const Val v = field_value(pf, id.second);
      fptu_erase_field(pt, const_cast<fptu_field *>(pf));
      const Content got = observe_rw(w);
      if (!model.take(id, v))
        mc::fail("%s: the erased field was not there", w);
      expect(got, model, w);
      return;
    }
    case Op::CLEAR:
      MC_CHECK(fptu_clear(pt) == FPTU_OK, "clear refused");
      model.clear();
      return;
    case Op::SHRINK: {
      const size_t was = space(), junk = fptu_junkspace(pt);
      fptu_shrink(pt);
      MC_CHECK(fptu_junkspace(pt) == 0, "%zu bytes of junk after shrink",
               fptu_junkspace(pt));
      MC_CHECK(space() == was + junk,
               "shrink of %zu bytes of junk: space was %zu, now %zu", junk, was,
               space());
      expect(observe_rw(w), model, w);
      return;
    }
    case Op::FETCH: {
      // the modifiable form continues from the fetched copy
      const Val img = iov2val(fptu_take_noshrink(pt).sys);
      Lay4 l(img);
      fptu_rw *p = nullptr;
      // all the slots which are not used yet
      const unsigned more = unsigned(fptu_space4items(pt));
      const size_t junk = fptu_junkspace(pt);
      if (o.v) {
        fptu_cbfs_result cbfs;
        memset(&cbfs, 0xDB, sizeof(cbfs));
        const size_t need = fptu_check_and_get_buffer_size_ex(
            l.ro(), more, 0, &cbfs);
        MC_CHECK(need && cbfs.err == FPTU_OK, "%s: refused: %s", w,
                 cbfs.err_msg);
        MC_CHECK(need <= bytes, "%s: needs %zu bytes of %zu", w, need, bytes);
        memset(mem, 0xDB, bytes);
        p = fptu_fetch_ex(l.ro(), mem, bytes, more, &cbfs);
      } else {
        const char *err = "";
        const size_t need =
            fptu_check_and_get_buffer_size(l.ro(), more, 0, &err);
        MC_CHECK(need && !err, "%s: refused: %s", w, err ? err : "");
        MC_CHECK(need == fptu_get_buffer_size(l.ro(), more, 0),
                 "%s: sizes differ", w);
        MC_CHECK(need <= bytes, "%s: needs %zu bytes of %zu", w, need, bytes);
        memset(mem, 0xDB, bytes);
        p = fptu_fetch(l.ro(), mem, bytes, more);
      }
      memset(l.u.data(), 0xDB, l.u.size() * 4);
      MC_CHECK(p == pt, "%s: refused", w);
      MC_CHECK(fptu_space4items(pt) == more, "%s: room for %zu items, not %u",
               w, fptu_space4items(pt), more);
      MC_CHECK(fptu_junkspace(pt) == junk, "%s: junk %zu, was %zu", w,
               fptu_junkspace(pt), junk);
      expect(observe_rw(w), model, w);
      return;
    }
    case Op::BAD: {
      const std::string before = key();
      const unsigned bad[] = {unsigned(fptu_max_cols) + 1, ~0u};
      for (unsigned col : bad) {
        for (auto &f : cfg.fields)
          for (int m = UPSERT; m <= UPDATE; ++m) {
            const fptu_error e =
                store(Mode(m), pt, col, f.k, f.vals[0], false);
            MC_CHECK(e == FPTU_EINVAL, "column %u accepted with %d", col,
                     int(e));
          }
        MC_CHECK(fptu::erase(pt, col, fptu_any) < 0 &&
                     fptu::erase(pt, col, fptu_uint32) < 0,
                 "erase of column %u is not refused", col);
      }
      MC_CHECK(key() == before, "refused, but the tuple changed");
      return;
    }
    }
  }
  struct Lay4 {
    std::vector<uint32_t> u;
    size_t n;
    Lay4(const Val &v) : u((v.size() + 3) / 4), n(v.size()) {
      memcpy(u.data(), v.data(), n);
    }
    fptu_ro ro() {
      fptu_ro r;
      r.sys.iov_base = u.data();
      r.sys.iov_len = n;
      return r;
    }
  };
  void removed_one_of(std::vector<Val> from, FieldId id, const Content &got,
                      const char *w) {
    if (from.empty())
      return expect(got, model, w);
    for (auto &x : from) {
      Content want = model;
      want.take(id, x);
      if (want == got) {
        model = want;
        return;
      }
    }
    mc::fail("%s: tuple held %s, holds %s", w, show(model).c_str(),
             show(got).c_str());
  }

  template <typename T>
  std::vector<Val> walk(const fptu_field *b, const fptu_field *e, unsigned col,
                        T type, int k) {
    std::vector<Val> r;
    for (auto pf = fptu::first(b, e, col, type); pf != e;
         pf = fptu::next(pf, e, col, type)) {
      MC_CHECK(!fptu_field_is_dead(pf), "iteration gives a removed field");
      const int x = kind_of(fptu_field_type(pf));
      MC_CHECK(x >= 0 && (k < 0 || x == k) && fptu_field_column(pf) == int(col),
               "iteration over (%u, %s) gives %d of another type", col,
               k < 0 ? "filter" : kname[k], fptu_field_column(pf));
      r.push_back(field_value(pf, x));
      if (r.size() > 1000)
        mc::fail("endless iteration");
    }
    std::sort(r.begin(), r.end());
    return r;
  }

  void check_ro(fptu_ro ro, const char *w) {
    const fptu_field *b = fptu_begin_ro(ro), *e = fptu_end_ro(ro);
    const char *trouble = fptu_check_ro(ro);
    MC_CHECK(!trouble, "%s: fptu_check_ro(): %s", w, trouble);
    expect(observe(b, e, w), model, w);
    MC_CHECK(fptu_is_empty_ro(ro) == (b == e), "%s: is_empty_ro", w);
    check_range(b, e, w, &ro);
    for (auto &f : cfg.fields) {
      const FieldId id{f.col, f.k};
      auto it = model.find(id);
      int err = -42;
      if (it != model.end()) {
        const Val v = get_value(ro, f.col, f.k, &err);
        MC_CHECK(err == FPTU_OK, "%s: fptu_get_%s(%u): error %d", w,
                 kname[f.k], f.col, err);
        MC_CHECK(std::find(it->second.begin(), it->second.end(), v) !=
                     it->second.end(),
                 "%s: fptu_get_%s(%u) gives a value which is not there", w,
                 kname[f.k], f.col);
        MC_CHECK(v == get_value(ro, f.col, f.k, nullptr),
                 "%s: fptu_get_%s(%u) without error pointer differs", w,
                 kname[f.k], f.col);
      } else if (f.k == K_cstr) {
        get_value(ro, f.col, f.k, &err);
        MC_CHECK(err == FPTU_ENOFIELD, "%s: fptu_get_cstr: error %d", w, err);
      }
      check_cmp(ro, f, it == model.end() ? nullptr : &it->second, w);
    }
  }
  static fptu_lge lge(const Val &a, const Val &b) {
    const int c = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
    if (c)
      return c < 0 ? fptu_lt : fptu_gt;
    return a.size() < b.size() ? fptu_lt
                               : a.size() > b.size() ? fptu_gt : fptu_eq;
  }
  void check_cmp(fptu_ro ro, const FieldDef &f, const std::vector<Val> *have,
                 const char *w) {
    if (f.k < K_96 || f.k == K_cstr || f.k == K_nested)
      return;
    // with more items than one it is not defined which one is compared
    if (have && have->size() > 1)
      return;
    for (auto &v : f.vals) {
      const uint8_t *p = reinterpret_cast<const uint8_t *>(v.data());
      struct iovec iov;
      iov.iov_base = const_cast<char *>(v.data());
      iov.iov_len = v.size();
      const fptu_lge got =
          f.k == K_96     ? fptu_cmp_96(ro, f.col, p)
          : f.k == K_128  ? fptu_cmp_128(ro, f.col, p)
          : f.k == K_160  ? fptu_cmp_160(ro, f.col, p)
          : f.k == K_256  ? fptu_cmp_256(ro, f.col, p)
                          : fptu_cmp_opaque(ro, f.col, p, v.size());
      const fptu_lge want = have ? lge((*have)[0], v)
                            : f.k == K_opaque && v.empty() ? fptu_eq
                                                           : fptu_ic;
      MC_CHECK(got == want, "%s: fptu_cmp_%s(%u): %d, expected %d", w,
               kname[f.k], f.col, int(got), int(want));
      if (f.k == K_opaque)
        MC_CHECK(fptu_cmp_opaque_iov(ro, f.col, iov) == want,
                 "%s: fptu_cmp_opaque_iov differs", w);
    }
  }

  void check_range(const fptu_field *b, const fptu_field *e, const char *w,
                   const fptu_ro *ro) {
    std::set<unsigned> cols;
    std::set<int> kinds;
    for (auto &f : cfg.fields) {
      cols.insert(f.col);
      kinds.insert(f.k);
    }
    cols.insert(1234);
    kinds.insert(K_u16);
    kinds.insert(K_u64);
    for (unsigned c : cols) {
      for (int k : kinds) {
        auto it = model.find({c, k});
        const std::vector<Val> want =
            it == model.end() ? std::vector<Val>() : it->second;
        MC_CHECK(walk(b, e, c, ktype[k], k) == want,
                 "%s: iteration over (%u, %s) is wrong", w, c, kname[k]);
        MC_CHECK(walk(b, e, c, fptu_filter_mask(ktype[k]), k) == want,
                 "%s: filtered iteration over (%u, %s) is wrong", w, c,
                 kname[k]);
        const size_t n = ro ? fptu::field_count(*ro, c, ktype[k])
                            : fptu::field_count(pt, c, ktype[k]);
        MC_CHECK(n == want.size(), "%s: count(%u, %s) is %zu, not %zu", w, c,
                 kname[k], n, want.size());
        const fptu_field *pf = ro ? fptu::lookup(*ro, c, ktype[k])
                                  : fptu::lookup(pt, c, ktype[k]);
        MC_CHECK((pf != nullptr) == !want.empty(), "%s: lookup(%u, %s)", w, c,
                 kname[k]);
        MC_CHECK(pf == nullptr || (pf == fptu::first(b, e, c, ktype[k])),
                 "%s: lookup and first differ", w);
        FilterCtx fc{c, k, 0, false};
        const size_t x = ro ? fptu::field_count(*ro, by_ctx, &fc, &fc)
                            : fptu::field_count(pt, by_ctx, &fc, &fc);
        MC_CHECK(x == want.size() && !fc.saw_dead &&
                     size_t(fc.calls) == model.total(),
                 "%s: count by a function is %zu of %zu, %d calls", w, x,
                 want.size(), fc.calls);
      }
      for (auto &fl : cfg.filters) {
        std::vector<Val> want;
        for (auto &x : model)
          if (x.first.first == c && fl.match(x.first.second))
            want.insert(want.end(), x.second.begin(), x.second.end());
        std::sort(want.begin(), want.end());
        MC_CHECK(walk(b, e, c, fl.mask, -1) == want,
                 "%s: iteration over (%u, %s) is wrong", w, c, fl.name);
        const size_t n = ro ? fptu::field_count(*ro, c, fl.mask)
                            : fptu::field_count(pt, c, fl.mask);
        MC_CHECK(n == want.size(), "%s: count(%u, %s) is %zu, not %zu", w, c,
                 fl.name, n, want.size());
        const fptu_field *pf = ro ? fptu::lookup(*ro, c, fl.mask)
                                  : fptu::lookup(pt, c, fl.mask);
        MC_CHECK((pf != nullptr) == !want.empty(), "%s: lookup(%u, %s)", w, c,
                 fl.name);
      }
    }
    // the payload as a span of bytes
    for (const fptu_field *pf = b; pf != e; ++pf) {
      if (fptu_field_is_dead(pf))
        continue;
      const int k = kind_of(fptu_field_type(pf));
      const struct iovec iov = fptu_field_as_iovec(pf);
      const Val v = field_value(pf, k);
      MC_CHECK(iov2val(iov) == v,
               "%s: fptu_field_as_iovec(%s) is %zu bytes, not the value of %zu",
               w, kname[k], iov.iov_len, v.size());
    }
  }

  void check_state() {
    const char *trouble = fptu_check_rw(pt);
    MC_CHECK(!trouble, "fptu_check_rw(): %s", trouble);
    const fptu_field *b = fptu_begin_rw(pt), *e = fptu_end_rw(pt);
    expect(observe(b, e, "rw"), model, "rw");
    MC_CHECK(fptu_is_empty_rw(pt) == (model.total() == 0),
             "is_empty_rw() with %zu fields", model.total());
    check_range(b, e, "rw", nullptr);
    if (model.total() == 0)
      MC_CHECK(fptu_junkspace(pt) == 0, "empty, but junk is %zu",
               fptu_junkspace(pt));
    check_ro(fptu_take_noshrink(pt), "ro");

    const std::string saved = save();
    const Val img = iov2val(fptu_take_noshrink(pt).sys);
    Lay4 l(img);
    // a fetched copy is as good as the original
    second.assign(bytes / 8 + 1, UINT64_C(0xDBDBDBDBDBDBDBDB));
    const unsigned used = unsigned(e - b);
    for (int ex = 0; ex < 2; ++ex)
      for (unsigned more = 0; more < 2; ++more) {
        if (used + more > cfg.items)
          continue;
        fptu_rw *p;
        size_t need;
        if (ex) {
          fptu_cbfs_result cbfs;
          need = fptu_check_and_get_buffer_size_ex(l.ro(), more, 0, &cbfs);
          MC_CHECK(need, "fptu_check_and_get_buffer_size_ex: %s", cbfs.err_msg);
          p = fptu_fetch_ex(l.ro(), second.data(), need, more, &cbfs);
        } else {
          const char *err;
          need = fptu_check_and_get_buffer_size(l.ro(), more, 0, &err);
          MC_CHECK(need, "fptu_check_and_get_buffer_size: %s", err);
          p = fptu_fetch(l.ro(), second.data(), need, more);
        }
        MC_CHECK(p, "fetch with %u more items refused: %s", more,
                 fptu_last_error_msg());
        trouble = fptu_check_rw(p);
        MC_CHECK(!trouble, "fetched copy: fptu_check_rw(): %s", trouble);
        MC_CHECK(fptu_space4items(p) == more, "fetched: room for %zu, not %u",
                 fptu_space4items(p), more);
        MC_CHECK(fptu_junkspace(p) == fptu_junkspace(pt),
                 "fetched: junk %zu, was %zu", fptu_junkspace(p),
                 fptu_junkspace(pt));
        expect(observe(fptu_begin_rw(p), fptu_end_rw(p), "fetched"), model,
               "fetched");
        MC_CHECK(iov2val(fptu_take_noshrink(p).sys) == img,
                 "serialized form of the fetched copy differs");
        // less space is refused
        MC_CHECK(!fptu_fetch(l.ro(), second.data(), need - 4, more) ||
                     fptu_junkspace(pt),
                 "fetch into a smaller buffer is not refused");
      }
    // the compact form
    const fptu_ro ro = fptu_take(pt);
    MC_CHECK(fptu_junkspace(pt) == 0, "junk after fptu_take()");
    trouble = fptu_check_ro_ex(ro, true);
    MC_CHECK(!trouble, "fptu_take(): fptu_check_ro_ex(): %s", trouble);
    trouble = fptu_check_rw(pt);
    MC_CHECK(!trouble, "after fptu_take(): fptu_check_rw(): %s", trouble);
    check_ro(ro, "taken");
    restore(saved);
    mc::add(mc::shared()->outcomes, 1);
  }
};

Val bin(size_t n, int seed) {
  Val v(n, 0);
  for (size_t i = 0; i < n; ++i)
    v[i] = char(seed * 37 + int(i) * 11 + 1);
  return v;
}
Val nested_image(unsigned col, uint32_t x, bool two) {
  char b[256];
  fptu_rw *pt = fptu_init(b, sizeof(b), 4);
  if (!pt || fptu_insert_uint32(pt, col, x) != FPTU_OK ||
      (two && fptu_insert_uint16(pt, col, 7) != FPTU_OK))
    mc::harness_error("nested");
  return iov2val(fptu_take(pt).sys);
}

const Filter F_any{"any", fptu_any};
const Filter F_int{"any_int", fptu_any_int};
const Filter F_uint{"any_uint", fptu_any_uint};
const Filter F_fp{"any_fp", fptu_any_fp};
const Filter F_num{"any_number", fptu_any_number};

std::vector<Val> values(int k) {
  switch (k) {
  case K_u16:
    return {raw(uint16_t(0)), raw(uint16_t(0x8001))};
  case K_bool:
    return {raw(false), raw(true)};
  case K_i32:
    return {raw(int32_t(0)), raw(INT32_MIN)};
  case K_u32:
    return {raw(uint32_t(0)), raw(uint32_t(0xDEADBEEF))};
  case K_i64:
    return {raw(int64_t(0)), raw(INT64_MIN + 1)};
  case K_u64:
    return {raw(uint64_t(0)), raw(uint64_t(0x123456789ABCDEF))};
  case K_f32:
    return {raw(0.0f), raw(-1.5f)};
  case K_f64:
    return {raw(0.0), raw(3.25e100)};
  case K_dt:
    return {raw(uint64_t(0)), raw(uint64_t(0x5E0000001234))};
  case K_96:
  case K_128:
  case K_160:
  case K_256:
    return {Val(ksize[k], 0), bin(ksize[k], 3)};
  case K_cstr:
    return {"", "ab", "abc", "cstring!"};
  case K_opaque:
    return {"", bin(3, 1), bin(4, 2), bin(9, 5)};
  case K_nested:
    return {nested_image(1, 5, false), nested_image(0, 6, true)};
  }
  abort();
}

// --- exhaustive tables ------------------------------------------------------
void run_tags() {
  std::set<fptu_tag_t> seen;
  for (unsigned c = 0; c <= fptu_max_cols; ++c)
    for (int k = 0; k < K_count; ++k) {
      mc::what("tag of (%u, %s)", c, kname[k]);
      const fptu_tag_t t = fptu_make_tag(c, ktype[k]);
      MC_CHECK(fptu_get_colnum(t) == c, "column %u of the tag",
               fptu_get_colnum(t));
      MC_CHECK(fptu_get_type(t) == ktype[k], "type %x of the tag",
               unsigned(fptu_get_type(t)));
      MC_CHECK(fptu_tag_is_fixedsize(t) == (ksize[k] != 0), "is_fixedsize");
      MC_CHECK(!fptu_tag_is_deleted(t), "is_deleted");
      MC_CHECK(seen.insert(t).second, "the same tag twice");
      mc::add(mc::shared()->outcomes, 1);
    }
  for (int k = 0; k < K_count; ++k)
    MC_CHECK(fptu_type_name(ktype[k]) && *fptu_type_name(ktype[k]),
             "no name of a type");
}
void run_cmp() {
  // all the pairs of strings over {00, 7f, 80, ff} up to three bytes
  const char a[] = {0, 0x7f, char(0x80), char(0xff)};
  std::vector<Val> all = {""};
  for (size_t i = 0; i < all.size() && all[i].size() < 3; ++i)
    for (char x : a)
      all.push_back(all[i] + x);
  for (auto &l : all)
    for (auto &r : all) {
      Lay x(l), y(r);
      const fptu_lge got = fptu_cmp_binary(x.p(), l.size(), y.p(), r.size());
      MC_CHECK(got == Sys::lge(l, r), "fptu_cmp_binary: %d", int(got));
      mc::add(mc::shared()->outcomes, 1);
    }
}
void run_init() {
  std::vector<size_t> items, data;
  for (size_t i = 0; i <= 20; ++i)
    items.push_back(i);
  for (size_t i : {100, 8190, 8191})
    items.push_back(i);
  for (size_t i = 0; i <= 40; ++i)
    data.push_back(i);
  for (size_t i : {100, 1000, 65536, 131072, 200000, 250000})
    data.push_back(i);
  std::vector<uint64_t> mem(fptu_buffer_limit / 8 + 16);
  for (size_t i : items)
    for (size_t d : data) {
      mc::what("fptu_space(%zu, %zu)", i, d);
      if ((i + d / 4) >= 65534)
        continue;
      const size_t n = fptu_space(i, d);
      for (size_t less : {0, 1, 4, 8}) {
        if (less > n)
          continue;
        fptu_rw *pt = fptu_init(mem.data(), n - less, i);
        if (!less)
          MC_CHECK(pt, "refused: %s", fptu_last_error_msg());
        if (!pt)
          continue;
        const char *trouble = fptu_check_rw(pt);
        MC_CHECK(!trouble, "fptu_check_rw: %s", trouble);
        MC_CHECK(fptu_space4items(pt) == i, "space4items is %zu",
                 fptu_space4items(pt));
        if (!less)
          MC_CHECK(fptu_space4data(pt) >= d, "space4data is %zu",
                   fptu_space4data(pt));
        MC_CHECK(fptu_rw::pure_tuple_size() + i * 4 + fptu_space4data(pt) <=
                     n - less,
                 "more space (%zu) than the buffer has", fptu_space4data(pt));
        mc::add(mc::shared()->outcomes, 1);
      }
      if (d < 2000) {
        fptu_rw *pt = fptu_alloc(i, d);
        MC_CHECK(pt, "fptu_alloc refused");
        MC_CHECK(fptu_space4items(pt) == i && fptu_space4data(pt) >= d,
                 "fptu_alloc: %zu items, %zu bytes", fptu_space4items(pt),
                 fptu_space4data(pt));
        fptu_destroy(pt);
      }
    }
  mc::what("invalid arguments");
  MC_CHECK(!fptu_init(nullptr, 1000, 1), "nullptr");
  MC_CHECK(!fptu_init(mem.data(), mem.size() * 8, 1), "over buffer_limit");
  MC_CHECK(!fptu_init(mem.data(), 100000, fptu_max_fields + 1), "max_fields");
  MC_CHECK(!fptu_init(mem.data(), fptu_rw::pure_tuple_size() - 1, 0), "tiny");
  MC_CHECK(!fptu_alloc(fptu_max_fields + 1, 1), "alloc: max_fields");
  MC_CHECK(!fptu_alloc(1, fptu::max_tuple_bytes_netto + 1), "alloc: bytes");
}

template <class T> fptu_type_or_filter by(T x) {
  fptu_type_or_filter r;
  static_assert(sizeof(r) == sizeof(x), "");
  memcpy(&r, &x, sizeof r);
  return r;
}
// the size which is told for fetching is enough for what has been asked
void run_fetch() {
  std::vector<Val> images;
  images.push_back(Val()); // nothing is the same as an empty tuple
  {
    std::vector<uint64_t> mem(fptu_buffer_limit / 8);
    auto image = [&](unsigned n, unsigned text, unsigned erase) {
      fptu_rw *pt =
          fptu_init(mem.data(), mem.size() * 8, n + 4 < 8191 ? n + 4 : 8191);
      const std::string s(text, 'x');
      for (unsigned i = 0; i < n; ++i) {
        const fptu_error e =
            text ? fptu_insert_string(pt, i % 1000, s.data(), text)
                 : fptu_insert_uint16(pt, i % 1000, i);
        if (e != FPTU_OK)
          mc::harness_error("run_fetch: field");
      }
      for (unsigned i = 0; i < erase; ++i)
        if (fptu_erase(pt, i * 2 + 1, by(fptu_any)) != 1)
          mc::harness_error("run_fetch: erase");
      images.push_back(iov2val(fptu_take_noshrink(pt).sys));
    };
    image(0, 0, 0);
    for (unsigned n : {1, 2, 7}) {
      image(n, 0, 0);
      image(n, 0, n / 2);
      image(n, 5, 0);
      image(n, 5, n / 2);
      image(n, 300, n / 2);
    }
    image(1, 60000, 0);
    image(4, 60000, 0);
    image(4, 60000, 2);
    image(8190, 0, 0);
    image(8191, 0, 0);
    image(8100, 20, 0);
  }
  std::vector<uint64_t> mem(fptu_buffer_limit / 8 + 16);
  std::vector<unsigned> items, payload;
  for (unsigned i = 0; i <= 6; ++i)
    items.push_back(i);
  for (unsigned i : {100, 8190, 8191})
    items.push_back(i);
  for (unsigned i = 0; i <= 9; ++i)
    payload.push_back(i);
  for (unsigned i : {100, 1000, 60000, 200000})
    payload.push_back(i);
  for (size_t n = 0; n < images.size(); ++n) {
    const Val &img = images[n];
    std::vector<uint32_t> exact((img.size() + 3) / 4);
    memcpy(exact.data(), img.data(), img.size());
    fptu_ro ro;
    ro.sys.iov_base = exact.data();
    ro.sys.iov_len = img.size();
    unsigned have = 0, units = 0;
    if (img.size()) {
      have = unsigned(fptu_end_ro(ro) - fptu_begin_ro(ro));
      units = unsigned(img.size() / 4) - 1;
    }
    for (unsigned i : items)
      for (unsigned d : payload) {
        mc::tick();
        mc::step();
        mc::what("image %zu of %zu bytes, %u more items, %u more bytes", n,
                 img.size(), i, d);
        // the tuple has to be within the limits
        const bool fits = have + i <= fptu_max_fields &&
                          units + i + (d + 3) / 4 <
                              fptu::max_tuple_units_netto;
        size_t need = 0;
        fptu_cbfs_result cbfs;
        const char *err = nullptr;
        if (img.size()) {
          memset(&cbfs, 0xEE, sizeof cbfs);
          need = fptu_check_and_get_buffer_size_ex(ro, i, d, &cbfs);
          const size_t need2 = fptu_check_and_get_buffer_size(ro, i, d, &err);
          MC_CHECK(need == need2 && !need == (err != nullptr) &&
                       !need == (cbfs.err != FPTU_OK),
                   "the sizes %zu and %zu, error '%s' or %d", need, need2, err,
                   cbfs.err);
          MC_CHECK(need || !fits, "refused: %s", err);
          if (need)
            MC_CHECK(fptu_get_buffer_size(ro, i, d) == need, "get_buffer_size");
          else {
            MC_CHECK(!fptu_fetch_ex(ro, mem.data(), 100000, i, &cbfs),
                     "fetched with a wrong cbfs");
            mc::count(0);
          }
        } else
          need = fptu_space(i, d);
        if (!need || !fits)
          continue;
        for (int ex = 0; ex < (img.size() ? 2 : 1); ++ex) {
          fptu_rw *p = ex ? fptu_fetch_ex(ro, mem.data(), need, i, &cbfs)
                          : fptu_fetch(ro, mem.data(), need, i);
          MC_CHECK(p, "fetch is refused: %s", fptu_last_error_msg());
          const char *trouble = fptu_check_rw(p);
          MC_CHECK(!trouble, "fetched: %s", trouble);
          MC_CHECK(fptu_space4items(p) == i, "room for %zu items",
                   fptu_space4items(p));
          MC_CHECK(fptu_space4data(p) >= d, "room for %zu bytes",
                   fptu_space4data(p));
          if (img.size())
            MC_CHECK(iov2val(fptu_take_noshrink(p).sys) == img,
                     "the fetched copy differs");
          else
            MC_CHECK(fptu_is_empty_rw(p), "the fetched copy is not empty");
          // everything that has been asked for fits indeed
          const unsigned extra = i < 10 ? i : 10;
          for (unsigned k = 0; k < extra; ++k)
            MC_CHECK(fptu_insert_uint16(p, 1001 + k, k) == FPTU_OK,
                     "item %u isn't accepted: %s", k, fptu_last_error_msg());
          trouble = fptu_check_rw(p);
          MC_CHECK(!trouble, "after adding: %s", trouble);
          mc::add(mc::shared()->outcomes, 1);
        }
      }
    mc::what("invalid arguments, image %zu", n);
    fptu_cbfs_result cbfs;
    const char *err = nullptr;
    MC_CHECK(!fptu_fetch(ro, nullptr, 1000, 0), "fetch into nullptr");
    MC_CHECK(!fptu_fetch(ro, mem.data(), 100000, fptu_max_fields + 1),
             "fetch with too many items");
    MC_CHECK(!fptu_fetch(ro, mem.data(), mem.size() * 8, 1),
             "fetch into an oversized buffer");
    MC_CHECK(!fptu_fetch_ex(ro, mem.data(), 1000, 0, nullptr), "no cbfs");
    if (img.empty())
      continue;
    MC_CHECK(fptu_check_and_get_buffer_size_ex(ro, 0, 0, &cbfs), "size");
    MC_CHECK(!fptu_fetch_ex(ro, nullptr, 1000, 0, &cbfs), "fetch into nullptr");
    cbfs.err = FPTU_EINVAL;
    MC_CHECK(!fptu_fetch_ex(ro, mem.data(), 100000, 0, &cbfs),
             "fetch with a failed cbfs");
    MC_CHECK(fptu_check_and_get_buffer_size(ro, 0, 0, nullptr) == ~size_t(0) &&
                 fptu_check_and_get_buffer_size_ex(ro, 0, 0, nullptr) ==
                     ~size_t(0),
             "sizes without a place for an error");
    // malformed: truncated by a unit, or by a byte
    for (size_t cut : {1, 4}) {
      fptu_ro bad = ro;
      bad.sys.iov_len -= cut;
      if (!bad.sys.iov_len)
        continue;
      err = nullptr;
      MC_CHECK(!fptu_check_and_get_buffer_size(bad, 0, 0, &err) && err,
               "a truncated tuple is accepted");
      MC_CHECK(!fptu_check_and_get_buffer_size_ex(bad, 0, 0, &cbfs) &&
                   cbfs.err != FPTU_OK && cbfs.err_msg,
               "a truncated tuple is accepted");
      MC_CHECK(!fptu_fetch(bad, mem.data(), 200000, 0),
               "a truncated tuple is fetched");
    }
  }
}

// fptu_upsert_null(): the null is an enumeration with the designated value
void run_null() {
  for (unsigned col : {0u, 1u, 500u, 1023u}) {
    uint64_t mem[64];
    fptu_rw *pt = fptu_init(mem, sizeof mem, 4);
    mc::step();
    mc::what("null in the column %u", col);
    MC_CHECK(fptu_upsert_uint32(pt, 7, 77) == FPTU_OK, "neighbour");
    for (int again = 0; again < 3; ++again) {
      MC_CHECK(fptu_upsert_null(pt, col) == FPTU_OK, "%s",
               fptu_last_error_msg());
      const char *trouble = fptu_check_rw(pt);
      MC_CHECK(!trouble, "%s", trouble);
      MC_CHECK(fptu_end_rw(pt) - fptu_begin_rw(pt) == 2, "fields: %zd",
               fptu_end_rw(pt) - fptu_begin_rw(pt));
    }
    const fptu_field *pf = fptu_lookup_rw(pt, 7, by(fptu_uint32));
    MC_CHECK(pf && fptu_field_uint32(pf) == 77, "neighbour");
  }
}

std::vector<Config> configs(bool thorough) {
  std::vector<Config> r;
  const unsigned more = thorough ? 1 : 0;
  // every type alone, with collections
  for (int k = 0; k < K_count; ++k) {
    Config c;
    c.name = std::string("single-") + kname[k];
    c.items = 4 + more;
    auto v = values(k);
    size_t mx = 0;
    for (auto &x : v)
      mx = std::max(mx, units_of(k, x));
    const bool st = k == K_cstr || k == K_opaque;
    c.data = unsigned(mx * 4 * 2 + (st ? 4 : mx * 4));
    if (st)
      c.items = 3;
    c.fields = {{k % 2 ? unsigned(fptu_max_cols) : 0u, k, v}};
    c.filters = {F_any, F_num};
    r.push_back(c);
  }
  // every type beside another one in the same column
  for (int k = 0; k < K_count; ++k) {
    Config c;
    c.name = std::string("pair-") + kname[k];
    c.items = 4;
    const int o = (k + 5) % K_count;
    auto v = values(k), u = values(o);
    size_t mx = 0;
    for (auto &x : v)
      mx = std::max(mx, units_of(k, x));
    for (auto &x : u)
      mx = std::max(mx, units_of(o, x));
    c.data = unsigned(mx * 4 + 32);
    if (v.size() > 2)
      v = {v[1], v[3]};
    c.fields = {{7, k, v}, {7, o, {u.back()}}, {8, k, {v[1]}}};
    c.filters = {F_int, F_fp};
    c.depth = 6 + more;
    r.push_back(c);
  }
  // filters against all the numbers
  {
    Config c;
    c.name = "numbers";
    c.items = 5;
    c.data = 28;
    c.fields = {{3, K_u16, {raw(uint16_t(1))}},
                {3, K_u32, {raw(uint32_t(2))}},
                {3, K_i32, {raw(int32_t(-3))}},
                {3, K_f32, {raw(4.5f)}},
                {3, K_f64, {raw(5.5)}},
                {3, K_bool, {raw(true)}},
                {4, K_u32, {raw(uint32_t(7))}}};
    c.filters = {F_any, F_int, F_uint, F_fp, F_num};
    c.depth = 5 + more;
    r.push_back(c);
  }
  // long index: the vectorized search is used for lookups
  {
    Config c;
    c.name = "wide";
    c.items = 40;
    c.data = 64;
    c.fields = {{0, K_u16, {raw(uint16_t(1)), raw(uint16_t(2))}},
                {2047, K_u16, {raw(uint16_t(3))}},
                {1, K_u32, {raw(uint32_t(9))}}};
    c.filters = {F_any};
    c.depth = 6 + more;
    r.push_back(c);
  }
  // many fields of all the types, some of them erased
  for (unsigned n : {9u, 18u, 34u, 70u, 600u}) {
    Config c;
    c.name = "filled-" + std::to_string(n);
    c.items = n + 1;
    size_t units = 2;
    for (unsigned i = 0; i < n && i < 18; ++i) {
      const int k = int(i % K_count);
      c.fields.push_back({i / 3 * 97, k, {values(k).back()}});
    }
    for (unsigned i = 0; i < n; ++i) {
      const size_t f = i * 7 % c.fields.size();
      c.prefill.push_back({f, 0});
      units += units_of(c.fields[f].k, c.fields[f].vals[0]);
    }
    for (size_t f = 1; f < c.fields.size(); f += n > 100 ? 2 : 4)
      for (unsigned i = 0; i < (n > 100 ? n / 20 : 1); ++i)
        c.prefill.push_back({f, -1});
    c.data = unsigned(units * 4);
    c.filters = {F_any, F_num};
    c.nth = n > 100 ? 3 : n;
    c.depth = n > 20 ? 1 + more : 2;
    r.push_back(c);
  }
  // long values: long texts have another header, a hole is up to 2047 units
  {
    Config c;
    c.name = "long";
    c.items = 6;
    c.data = 24000;
    c.fields = {{0, K_opaque, {bin(1100, 1), bin(8190, 2), bin(9001, 3)}},
                {0, K_cstr, {Val(253, 'a'), Val(254, 'b'), Val(70000, 'c')}},
                {1, K_u32, {raw(uint32_t(2))}}};
    c.filters = {F_any};
    c.depth = 5 + more;
    r.push_back(c);
    c.name = "huge";
    c.items = 4;
    c.data = 210000;
    c.fields = {{0, K_opaque, {bin(60000, 1)}},
                {0, K_cstr, {Val(65535, 'd'), Val(131000, 'c')}},
                {1, K_u32, {raw(uint32_t(2))}}};
    c.depth = 4 + more;
    r.push_back(c);
  }
  // no slot or no data at all
  {
    Config c;
    c.name = "no-items";
    c.items = 0;
    c.data = 16;
    c.fields = {{0, K_u16, {raw(uint16_t(1))}}, {1, K_u32, {raw(uint32_t(2))}}};
    c.filters = {F_any};
    r.push_back(c);
  }
  {
    Config c;
    c.name = "no-data";
    c.items = 2;
    c.data = 0;
    c.fields = {{0, K_u16, {raw(uint16_t(1)), raw(uint16_t(2))}},
                {0, K_cstr, {"", "x"}},
                {1, K_opaque, {"", "y"}},
                {0, K_u32, {raw(uint32_t(9))}}};
    c.filters = {F_any};
    r.push_back(c);
  }
  return r;
}

} // namespace

int main(int argc, char **argv) {
  mc::counter_name(0) = "operations_refused";
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    for (auto &c : configs(mc::opt().thorough())) {
      mc::Item i;
      i.name = c.name;
      r.push_back(i);
    }
    for (const char *n : {"tags", "cmp", "init", "fetch", "null"}) {
      mc::Item i;
      i.name = n;
      r.push_back(i);
    }
    return r;
  };
  auto table = [](const std::string &n) {
    if (n == "tags")
      run_tags();
    else if (n == "cmp")
      run_cmp();
    else if (n == "init")
      run_init();
    else if (n == "fetch")
      run_fetch();
    else if (n == "null")
      run_null();
    else
      return false;
    return true;
  };
  auto find = [](const std::string &name) {
    for (auto &c : configs(mc::opt().thorough()))
      if (c.name == name)
        return c;
    abort();
  };
  h.run = [=](const mc::Item &i) {
    if (table(i.name))
      return;
    Sys s(find(i.name));
    mc::BfsLimits l;
    l.depth = s.cfg.depth;
    l.max_states = mc::opt().thorough() ? 1000000 : 40000;
    auto r = mc::bfs(s, l);
    if (mc::opt().verbose)
      fprintf(stderr, "%s: states %lu transitions %lu depth %u%s\n",
              s.cfg.name.c_str(), r.states, r.transitions, r.depth,
              r.fixpoint ? " fixpoint" : "");
  };
  h.replay = [=](const mc::Item &i, const std::vector<uint32_t> &path) {
    if (table(i.name))
      return;
    Sys s(find(i.name));
    mc::replay_path(s, path);
  };
  return mc::main_(argc, argv, h);
}
