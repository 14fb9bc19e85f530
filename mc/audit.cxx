// P05/P06: the validator of serialized tuples, over a bounded space of byte
// images (well-formed and not).
#include "fields.hpp"
#include <algorithm>
#include <sanitizer/asan_interface.h>

using namespace fx;
using fptu::token;

namespace {
enum { GAP_UNITS = 70000, MAX_UNITS = 65536 };
alignas(64) uint32_t arena[GAP_UNITS + MAX_UNITS + GAP_UNITS];
uint32_t *const image = arena + GAP_UNITS;
size_t open_bytes = 0;

// only [image, image+bytes) is accessible for the library
void expose(size_t bytes) {
  static bool init;
  if (!init) {
    ASAN_POISON_MEMORY_REGION(arena, sizeof arena);
    init = true;
  }
  if (bytes == open_bytes)
    return;
  ASAN_POISON_MEMORY_REGION(image, (open_bytes + 15) / 8 * 8);
  if (bytes)
    ASAN_UNPOISON_MEMORY_REGION(image, bytes);
  open_bytes = bytes;
}

// ---- reference rules -------------------------------------------------------
struct Chunk {
  size_t begin, end;
};
struct Verdict {
  bool ok = false;
  unsigned holes = 0;
};
size_t fixed_units(genus g) {
  switch (unsigned(g)) {
  case 26:
    return 2;
  case 27:
    return 4;
  default:
    return (fixed_size(g) + 3) / 4;
  }
}
bool stretchy_ok(genus g, size_t at, size_t units, size_t &len) {
  if (at >= units)
    return false;
  const uint8_t *p = reinterpret_cast<const uint8_t *>(image + at);
  const size_t lo16 = size_t(p[0]) | size_t(p[1]) << 8;
  switch (g) {
  case fptu::text:
    len = p[0] < 254 ? (1 + size_t(p[0]) + 3) / 4
                     : (3 + size_t(p[0]) +
                        2 * (size_t(p[1]) | size_t(p[2]) << 8) + 3) /
                           4;
    return true;
  case fptu::varbin:
    len = lo16;
    return len > 1 || (len == 1 && (p[2] & 3) == 0);
  case fptu::nested:
    len = lo16;
    return len > 0;
  default: // property
    len = (2 + size_t(p[0]) + 3) / 4;
    return true;
  }
}
struct SchemaDef {
  const char *name;
  std::vector<std::pair<genus, bool>> pre; // type, discernible null
};
struct Field {
  unsigned tag;
  size_t slot;
};

Verdict reference(size_t bytes, const std::vector<token> *pre, size_t pre_bytes,
                  std::vector<Field> &fields) {
  Verdict v;
  fields.clear();
  if (bytes < 4 || bytes % 4)
    return v;
  if (bytes / 4 > 65535)
    return v;
  const size_t units = image[0] & 0xffff, index = image[0] >> 19;
  const unsigned flags = image[0] >> 16 & 7;
  if (units * 4 != bytes || 1 + index > units)
    return v;
  const size_t pivot = 1 + index;
  static std::vector<Chunk> chunks;
  chunks.clear();
  unsigned prev = 0;
  bool sorted = true;
  for (size_t i = 0; i < index; ++i) {
    const size_t slot = 1 + i;
    const unsigned off = image[slot] & 0xffff, tag = image[slot] >> 16;
    if (tag < prev)
      sorted = false;
    prev = tag;
    const genus g = genus(tag >> 11);
    if (g == fptu::hole) {
      ++v.holes;
      const unsigned len = tag & 0x7ff;
      if ((len != 0) != (off != 0))
        return v;
      if (len)
        chunks.push_back({slot + off, slot + off + len});
      continue;
    }
    fields.push_back({tag, slot});
    if (is_inplaced(g))
      continue;
    if (is_stretchy(g)) {
      if (!off)
        continue;
      size_t len;
      if (slot + off < pivot || !stretchy_ok(g, slot + off, units, len))
        return v;
      chunks.push_back({slot + off, slot + off + len});
      continue;
    }
    if (!off)
      return v;
    chunks.push_back({slot + off, slot + off + fixed_units(g)});
  }
  if (((flags & 2) != 0) != (pre_bytes != 0))
    return v;
  const size_t pre_units = (pre_bytes + 3) / 4;
  if (pivot + pre_units > units)
    return v;
  if (pre)
    for (auto &k : *pre) {
      if (!is_stretchy(k.type()))
        continue;
      const size_t at = pivot * 4 + k.preplaced_offset();
      uint16_t off;
      memcpy(&off, reinterpret_cast<char *>(image) + at, 2);
      if (!off)
        continue;
      size_t len;
      // the offset counts units from the slot of the field itself
      if (at % 4 || !stretchy_ok(k.type(), at / 4 + off, units, len))
        return v;
      chunks.push_back({at / 4 + off, at / 4 + off + len});
    }
  std::sort(chunks.begin(), chunks.end(), [](const Chunk &a, const Chunk &b) {
    return a.begin != b.begin ? a.begin < b.begin : a.end < b.end;
  });
  size_t cover = pivot + pre_units;
  for (auto &c : chunks) {
    if (c.begin != cover)
      return v;
    cover = c.end;
  }
  if (cover != units)
    return v;
  if ((flags & 1) && !sorted)
    return v;
  v.ok = true;
  return v;
}

// ---- schemas ---------------------------------------------------------------
const std::vector<SchemaDef> SCHEMAS = {
    {"none", {}},
    {"text", {{fptu::text, false}}},
    {"u8", {{fptu::u8, true}}},
    {"varbin+u32", {{fptu::varbin, true}, {fptu::u32, false}}},
    {"u64+nested", {{fptu::u64, false}, {fptu::nested, false}}},
    {"property+text", {{fptu::property, false}, {fptu::text, true}}},
};
struct Ctx {
  std::unique_ptr<fptu::schema> schema;
  std::vector<token> pre;
  size_t pre_bytes = 0;
};
Ctx &ctx(unsigned n) {
  static std::vector<std::unique_ptr<Ctx>> all(SCHEMAS.size());
  if (!all[n]) {
    all[n].reset(new Ctx);
    Ctx &c = *all[n];
    if (n) {
      c.schema = fptu::schema::create();
      unsigned i = 0;
      for (auto &f : SCHEMAS[n].pre)
        c.pre.push_back(c.schema->define_preplaced("p" + std::to_string(i++),
                                                   f.first, f.second));
      c.pre_bytes = c.schema->preplaced_bytes();
    }
  }
  return *all[n];
}

// ---- using of an accepted image --------------------------------------------
Val raw_value(genus g, const uint8_t *slot, size_t off) {
  const uint8_t *p = slot + off * 4;
  auto bytes = [](const uint8_t *b, size_t n) {
    return Val(reinterpret_cast<const char *>(b), n);
  };
  switch (g) {
  case fptu::text:
    if (!off)
      return Val();
    if (p[0] < 254)
      return bytes(p + 1, p[0]);
    return bytes(p + 3, p[0] + 2 * (size_t(p[1]) | size_t(p[2]) << 8));
  case fptu::varbin: {
    if (!off)
      return Val();
    const size_t units = size_t(p[0]) | size_t(p[1]) << 8, tail = p[2] & 3;
    return bytes(p + 4, (units - 1) * 4 - (tail ? 4 - tail : 0));
  }
  case fptu::nested:
    if (!off)
      return Val();
    return bytes(p, 4 * (size_t(p[0]) | size_t(p[1]) << 8));
  case fptu::property: {
    if (!off)
      return Val(1, '\0');
    Val r(1, char(p[1]));
    r += bytes(p + 2, p[0]);
    return r;
  }
  default:
    if (is_inplaced(g))
      return bytes(slot, fixed_size(g));
    return bytes(p, fixed_size(g));
  }
}
bool readable(genus g) { return unsigned(g) != 26 && unsigned(g) != 27; }

using Content = std::map<unsigned, std::vector<Val>>;
Content content_of(const std::vector<Field> &fields) {
  Content r;
  for (auto &f : fields) {
    const genus g = genus(f.tag >> 11);
    if (readable(g))
      r[f.tag].push_back(canon(
          g, raw_value(g, reinterpret_cast<const uint8_t *>(image + f.slot),
                       image[f.slot] & 0xffff)));
  }
  return r;
}
template <class T> std::vector<Val> items(T &t, unsigned tag) {
  const token k(genus(tag >> 11), tag & 0x7ff, true, false);
  std::vector<Val> r;
  auto c = t.collection(k);
  for (auto it = c.begin(); it != c.end(); ++it) {
    r.push_back(aget(*it));
    MC_CHECK(r.size() < 10000, "endless collection");
  }
  return r;
}
std::vector<Val> sorted(std::vector<Val> v) {
  std::sort(v.begin(), v.end());
  return v;
}
template <class T>
void compare(T &t, const Content &want, const Ctx &c,
             const std::vector<Val> &pre, const char *where) {
  for (auto &w : want) {
    const auto got = items(t, w.first);
    MC_CHECK(sorted(got) == sorted(w.second),
             "%s: fields with the tag %04x of an accepted tuple: %zu values "
             "instead of %zu (or different ones)",
             where, w.first, got.size(), w.second.size());
  }
  for (size_t i = 0; i < c.pre.size(); ++i) {
    Val got;
    const Rc rc = guarded([&] { got = get(t, c.pre[i]); });
    MC_CHECK(rc == Rc::ok || rc == Rc::absent, "%s: preplaced field throws %s",
             where, rc_name(rc));
    if (rc == Rc::ok)
      MC_CHECK(got == pre[i], "%s: preplaced field %zu differs", where, i);
  }
}
void use(size_t bytes, unsigned sn, const std::vector<Field> &fields,
         bool light) {
  Ctx &c = ctx(sn);
  const Content want = content_of(fields);
  std::vector<Val> pre;
  const size_t pivot = 1 + (image[0] >> 19);
  for (auto &k : c.pre) {
    const uint8_t *slot =
        reinterpret_cast<const uint8_t *>(image + pivot) + k.preplaced_offset();
    uint16_t off = 0;
    if (is_stretchy(k.type()))
      memcpy(&off, slot, 2);
    pre.push_back(is_stretchy(k.type())
                      ? raw_value(k.type(), slot, off)
                      : Val(reinterpret_cast<const char *>(slot),
                            fixed_size(k.type())));
  }
  const fptu::schema *s = c.schema.get();
  mc::step(4);
  fptu::tuple_ro_weak ro(image, bytes, s);
  compare(ro, want, c, pre, "reading");
  size_t n = 0;
  for (auto it = ro.cbegin_loose(); it != ro.cend_loose(); ++it)
    if (it.field_type() != fptu::hole) {
      if (readable(it.field_type()))
        (void)aget(*it);
      ++n;
    }
  MC_CHECK(n == fields.size(), "iteration yields %zu fields instead of %zu", n,
           fields.size());
  // a nested tuple has its own verdict
  for (auto &w : want)
    if (w.first >> 11 == fptu::nested)
      for (auto &v : w.second)
        if (!v.empty())
          (void)fptu::tuple_ro_weak::validate(v.data(), v.size(), nullptr);
  if (light)
    return;
  auto finish = [&](fptu::tuple_rw_fixed &rw, const Content &w,
                    const char *where) {
    compare(rw, w, c, pre, where);
    auto weak = rw.take_weak_asis();
    const char *trouble =
        fptu::tuple_ro_weak::validate(weak.data(), weak.size(), s);
    MC_CHECK(!trouble, "%s: the result is rejected: %s", where, trouble);
  };
  // an update of each field, a removal of each one, and the compaction
  for (unsigned room = 0; room < 2; ++room) {
    {
      fptu::tuple_rw_fixed rw(image, bytes, room * 2, room * 64, s);
      finish(rw, want, "cloned");
      rw.compactify();
      finish(rw, want, "compacted");
      rw.optimize();
      finish(rw, want, "optimized");
      mc::step(3);
    }
    for (auto &w : want) {
      const genus g = genus(w.first >> 11);
      const token k(g, w.first & 0x7ff, true, false);
      {
        fptu::tuple_rw_fixed rw(image, bytes, room * 2, room * 64, s);
        const size_t erased = rw.erase(k);
        (void)erased;
        Content left = want;
        left[w.first].clear();
        finish(rw, left, "erased");
        rw.compactify();
        finish(rw, left, "erased and compacted");
        mc::step(2);
      }
      const Val v = g == fptu::nested
                        ? Val("\x02\0\x08\0\x07\0\0\x38", 8)
                        : is_stretchy(g) ? Val("\x05value", 6)
                                         : Val(fixed_size(g), '\x2a');
      {
        fptu::tuple_rw_fixed rw(image, bytes, room * 2, room * 64, s);
        const Rc rc = guarded([&] { insert(rw, k, v); });
        Content more = want;
        MC_CHECK(rc == Rc::ok || rc == Rc::space, "insertion fails: %s",
                 rc_name(rc));
        MC_CHECK(rc == Rc::ok || room == 0, "no space for an insertion");
        if (rc == Rc::ok)
          more[w.first].push_back(canon(g, v));
        finish(rw, more, "inserted");
        rw.erase(k);
        more[w.first].clear();
        finish(rw, more, "inserted and erased");
        mc::step(2);
      }
      {
        fptu::tuple_rw_fixed rw(image, bytes, room * 2, room * 64, s);
        const token single(g, w.first & 0x7ff, false, true);
        const Rc rc = guarded([&] { set(rw, single, v); });
        MC_CHECK(rc == Rc::ok || rc == Rc::space, "update fails: %s",
                 rc_name(rc));
        Content upd = want;
        if (rc == Rc::ok)
          upd[w.first][0] = canon(g, v);
        finish(rw, upd, "updated");
        rw.compactify();
        finish(rw, upd, "updated and compacted");
        mc::step(2);
      }
    }
  }
}

uint64_t accepted_here, images_here;
// one image of `bytes`
void judge(size_t bytes, unsigned sn, bool light) {
  Ctx &c = ctx(sn);
  expose(bytes);
  static std::vector<Field> fields;
  static const bool p06 = mc::opt().prop == "P06";
  mc::tick();
  const char *trouble =
      fptu::tuple_ro_weak::validate(image, bytes, c.schema.get());
  ++images_here;
  Verdict v = reference(bytes, &c.pre, c.pre_bytes, fields);
  if (p06) {
    MC_CHECK((trouble == nullptr) == v.ok,
             "verdict: %s, expected %s; schema %s, image %s",
             trouble ? trouble : "accepted", v.ok ? "accepted" : "rejected",
             SCHEMAS[sn].name,
             mc::hex(image, bytes > 96 ? 96 : bytes).c_str());
    const char *strict =
        fptu::tuple_ro_weak::validate(image, bytes, c.schema.get(), true);
    MC_CHECK((strict == nullptr) == (v.ok && !v.holes),
             "verdict without holes: %s; schema %s, image %s",
             strict ? strict : "accepted", SCHEMAS[sn].name,
             mc::hex(image, bytes > 96 ? 96 : bytes).c_str());
    mc::step(2);
    // the constructors obey the verdict
    if (v.ok || (images_here & 15) == 0) {
      bool thrown = false;
      try {
        fptu::tuple_ro_weak ro(image, bytes, c.schema.get());
      } catch (const fptu::bad_tuple &) {
        thrown = true;
      } catch (const std::exception &) {
        thrown = true;
      }
      MC_CHECK(thrown == !v.ok, "constructor of a r/o tuple %s the image",
               thrown ? "refused" : "accepted");
    }
  } else {
    mc::step(1);
    if (!trouble) {
      if (!v.ok) { // the verdict itself is a matter of P06: only reading here
        fptu::tuple_ro_weak ro(image, bytes, c.schema.get());
        for (auto it = ro.cbegin_loose(); it != ro.cend_loose(); ++it)
          if (it.field_type() != fptu::hole && readable(it.field_type()))
            (void)aget(*it);
        for (auto &k : c.pre)
          (void)guarded([&] { (void)get(ro, k); });
      } else {
        const std::vector<Field> f = fields;
        use(bytes, sn, f, light);
      }
    }
  }
  if (!trouble)
    ++accepted_here;
}

// ---- the space -------------------------------------------------------------
const unsigned TAGS[] = {
    fptu::text << 11 | 1,   fptu::varbin << 11 | 1, fptu::nested << 11 | 1,
    fptu::property << 11 | 1, fptu::u8 << 11 | 1,   fptu::u32 << 11 | 1,
    fptu::u64 << 11 | 1,    fptu::bin96 << 11 | 1,  31u << 11 | 0,
    31u << 11 | 1,          31u << 11 | 2,          31u << 11 | 3};
const unsigned NT = sizeof TAGS / sizeof *TAGS;
const uint32_t WORDS[] = {
    0x00000000, 0x00000001, 0x00000002, 0x00000003, 0x00030001, 0x00030002,
    0x00010003, 0x00000004, 0x00000008, 0x000000FE, 0x00100002, 0xFFFFFFFF};
const unsigned NW = sizeof WORDS / sizeof *WORDS;

enum Family { SMALL, HEADER, LENGTHS, GENUS, CHUNKS, SIZES, CLAIMS, MANY, SPREAD, BIG };
struct Space {
  Family fam;
  unsigned n, p, schema, flags;
};

void put_word(mc::Chooser &c, unsigned at, unsigned slot_units) {
  (void)slot_units;
  image[at] = WORDS[c.choose(NW)];
}
void small(mc::Chooser &c, const Space &s, unsigned first) {
  const size_t units = 1 + s.n + s.p;
  Ctx &x = ctx(s.schema);
  expose(units * 4);
  image[0] = uint32_t(units) | s.n << 19 | s.flags << 16;
  for (unsigned i = 0; i < s.n; ++i) {
    const unsigned tag = i == 0 ? TAGS[first] : TAGS[c.choose(NT)];
    const bool inpl = is_inplaced(genus(tag >> 11));
    // offsets: none, each unit from the descriptor itself to one beyond the
    // end, and the farthest one
    const unsigned max = s.n - i + s.p;
    const unsigned o = inpl ? c.choose(2) : c.choose(max + 3);
    image[1 + i] = tag << 16 | (o == max + 2 ? 0xffffu : o);
  }
  size_t at = 1 + s.n;
  char is_slot[16] = {0};
  for (auto &k : x.pre)
    if (is_stretchy(k.type()) && k.preplaced_offset() / 4 < s.p)
      is_slot[k.preplaced_offset() / 4] = 1;
  for (unsigned i = 0; i < s.p; ++i, ++at)
    if (is_slot[i]) {
      const unsigned o = c.choose(s.p - i + 3);
      image[at] = o == s.p - i + 2 ? 0xffffu : o;
    } else
      image[at] = WORDS[c.choose(NW)];
  judge(units * 4, s.schema, false);
}

// every arrangement of several chunks of a few sizes
void chunks(mc::Chooser &c, const Space &s, unsigned first) {
  static const unsigned T[] = {fptu::u32 << 11 | 1,    fptu::u64 << 11 | 1,
                               fptu::bin96 << 11 | 1,  31u << 11 | 1,
                               31u << 11 | 2,          fptu::varbin << 11 | 1,
                               fptu::u8 << 11 | 1};
  const size_t units = 1 + s.n + s.p;
  expose(units * 4);
  image[0] = uint32_t(units) | s.n << 19 | s.flags << 16;
  for (unsigned i = 0; i < s.p; ++i)
    image[1 + s.n + i] = 2; // a varbinary of two units, or data
  Ctx &x = ctx(s.schema);
  for (auto &k : x.pre)
    if (is_stretchy(k.type()) && k.preplaced_offset() / 4 < s.p) {
      const unsigned i = unsigned(k.preplaced_offset() / 4);
      image[1 + s.n + i] = c.choose(s.p - i + 1);
    }
  for (unsigned i = 0; i < s.n; ++i) {
    const unsigned tag = T[i == 0 ? first : c.choose(7)];
    image[1 + i] = tag << 16;
    if (!is_inplaced(genus(tag >> 11)))
      // only units of payload and one beyond
      image[1 + i] |= s.n - i + c.choose(s.p + 1);
  }
  judge(units * 4, s.schema, s.n > 3);
}

void header(mc::Chooser &c, unsigned chunk) {
  // every value of the second half of the header, near-miss sizes
  const unsigned bytes = c.choose(25);
  const unsigned b = c.choose(9);
  expose(bytes);
  const unsigned brutto = b < 8 ? b : 0xffff;
  std::vector<uint32_t> w(7, 0);
  for (unsigned lf = chunk * 1024; lf < (chunk + 1) * 1024; ++lf) {
    w[0] = brutto | lf << 16;
    memcpy(image, w.data(), bytes);
    judge(bytes, 0, true);
    judge(bytes, 2, true);
  }
}

// a long text, exact length and its neighbourhood, all encodings of length
void lengths(mc::Chooser &c, unsigned chunk) {
  const unsigned prefix = 254 + c.choose(2);
  const unsigned delta = c.choose(3);
  for (unsigned suffix = chunk * 256; suffix < (chunk + 1) * 256; ++suffix) {
    const size_t len = prefix + 2 * size_t(suffix);
    const size_t need = (3 + len + 3) / 4;
    const size_t have = need + delta - 1, units = 2 + have;
    if (units > 65535)
      continue;
    expose(units * 4);
    image[0] = uint32_t(units) | 1u << 19;
    image[1] = (fptu::text << 11 | 1) << 16 | 1u;
    image[2] = prefix | suffix << 8 | 0x41000000u;
    image[1 + have] = delta == 1 && have > 1 ? 0x42424242u : image[1 + have];
    judge(units * 4, 0, true);
  }
}

// every value of the length of each variable-size type in a small image
void claims(mc::Chooser &c, unsigned part) {
  const unsigned g = c.choose(4);
  const unsigned p = 1 + c.choose(5);
  const unsigned low = c.choose(g == fptu::text ? 2 : 4);
  const size_t units = 2 + p;
  expose(units * 4);
  image[0] = uint32_t(units) | 1u << 19;
  image[1] = (g << 11 | 1) << 16 | 1u;
  for (unsigned i = 0; i < p; ++i)
    image[2 + i] = 0x41424344u;
  for (unsigned n = part * 1024; n < (part + 1) * 1024; ++n) {
    image[2] = g == fptu::text ? (254 + low) | n << 8 : n | low << 16;
    judge(units * 4, 0, true);
    // (zero with other bytes set is the unimplemented reference to a pool)
    if (g == fptu::text && n > 0 && n < 256 && low == 0) {
      image[2] = n | 0x41424300u;
      judge(units * 4, 0, true);
    }
  }
}

// every type, identifiers at the limits, every size of payload
void genera(mc::Chooser &c, unsigned g) {
  static const unsigned ids[] = {0, 1, 1023, 1024, 2047};
  const unsigned id = ids[c.choose(5)];
  const unsigned p = c.choose(20);
  const unsigned off = c.choose(p + 3);
  const unsigned w0 = c.choose(p + 2);
  const unsigned flags = c.choose(8);
  const size_t units = 2 + p;
  expose(units * 4);
  image[0] = uint32_t(units) | 1u << 19 | flags << 16;
  image[1] = (g << 11 | id) << 16 | off;
  for (size_t i = 2; i < units; ++i)
    image[i] = i == 2 ? w0 : 0x01010101u * uint32_t(i);
  judge(units * 4, 0, g == 26 || g == 27 || g == 31);
}

// sizes at the limits of the format: a single varbinary
void sizes(mc::Chooser &c) {
  static const unsigned U[] = {2,     3,     4,     8190,  8192,  32767,
                               32768, 65532, 65533, 65534, 65535};
  const unsigned units = U[c.choose(11)];
  const unsigned tail = c.choose(4);
  const int wrong = int(c.choose(3)) - 1;
  expose(units * 4);
  image[0] = units | 1u << 19;
  image[1] = (fptu::varbin << 11 | 1) << 16 | 1u;
  if (units > 2)
    image[2] = (units - 2 + unsigned(wrong)) & 0xffff;
  if (units > 2)
    image[2] |= tail << 16;
  judge(units * 4, 0, true);
}

// an index of many fields, up to the limit, besides preplaced ones
void many(mc::Chooser &c, unsigned schema) {
  static const unsigned N[] = {1, 2, 9, 255, 256, 1000, 8188, 8189, 8190, 8191};
  const unsigned n = N[c.choose(10)];
  const unsigned texts = c.choose(n < 3 ? n + 1 : 4);
  const unsigned flags = c.choose(8);
  const unsigned extra = c.choose(2);
  const bool descending = c.choose(2);
  const size_t pre = (ctx(schema).pre_bytes + 3) / 4;
  const size_t pivot = 1 + n, units = pivot + pre + texts + extra;
  expose(units * 4);
  memset(image, 0, units * 4);
  image[0] = uint32_t(units) | flags << 16 | n << 19;
  for (unsigned i = 0; i < n; ++i) {
    // texts have the lowest genus, so they are the last when sorted
    const bool t = descending ? i >= n - texts : i < texts;
    const unsigned k = descending ? n - 1 - i : i;
    const unsigned at = 1 + i;
    if (t) {
      image[at] = (fptu::text << 11 | k) << 16 |
                  unsigned(pivot + pre + k - at);
      image[pivot + pre + k] = 0x41414103u;
    } else
      image[at] = (fptu::u16 << 11 | (descending ? k / 8 : k % 7)) << 16 |
                  (i & 0xff);
  }
  judge(units * 4, schema, true);
}

// hundreds and thousands of chunks in several orders, one of them is misplaced
void spread(mc::Chooser &c, unsigned part) {
  static const unsigned N[] = {40, 600, 1100, 2500, 8191};
  const unsigned n = N[part];
  const unsigned w = 1 + c.choose(2);
  const unsigned order = c.choose(4);
  const unsigned who = c.choose(6);
  const unsigned defect = c.choose(8);
  const size_t pivot = 1 + n;
  // the defects 6 and 7 change the size of the whole
  const size_t units = pivot + n * w + (defect == 6) - (defect == 7);
  const unsigned spot[] = {0, 1, n / 2, n / 2 + 1, n - 2, n - 1};
  expose(units * 4);
  memset(image, 0, units * 4);
  image[0] = uint32_t(units) | n << 19;
  for (unsigned i = 0; i < n; ++i) {
    unsigned at; // place among the chunks
    switch (order) {
    case 0:
      at = i;
      break;
    case 1:
      at = n - 1 - i;
      break;
    case 2: // every other
      at = i < (n + 1) / 2 ? i * 2 : (i - (n + 1) / 2) * 2 + 1;
      break;
    default: // from the middle
      at = i < n / 2 ? n / 2 - 1 - i : i;
    }
    long begin = long(pivot) + long(at) * w;
    if (i == spot[who])
      begin += defect == 1   ? 1
               : defect == 2 ? -1
               : defect == 3 ? long(w)
               : defect == 4 ? -long(w)
               : defect == 5 ? (long(n / 2) - long(at)) * long(w)
                             : 0;
    const unsigned g = w == 1 ? fptu::u32 : fptu::u64;
    image[1 + i] = (g << 11 | i % 2000) << 16 | (unsigned(begin - 1 - i) & 0xffff);
  }
  judge(units * 4, 0, true);
}

// three long chunks at all the places where they touch each other, more or
// less by one unit
void big(mc::Chooser &c, unsigned part) {
  static const unsigned L[] = {2, 2047, 2048, 4097, 9000};
  const unsigned len[3] = {L[part % 5], L[part / 5], L[c.choose(5)]};
  const unsigned sum = len[0] + len[1] + len[2];
  const unsigned cut = c.choose(3);
  const unsigned payload =
      cut == 0 ? sum : cut == 1 ? sum - 1 : sum - std::min(len[0], len[1]);
  const size_t pivot = 4, units = pivot + payload;
  expose(units * 4);
  image[0] = uint32_t(units) | 3u << 19;
  const unsigned base[] = {0,      len[0],          len[1],
                           len[2], len[0] + len[1], len[0] + len[2],
                           len[1] + len[2]};
  for (unsigned i = 0; i < 3; ++i) {
    const unsigned at = base[c.choose(7)] + c.choose(3) - 1;
    image[1 + i] = (fptu::varbin << 11 | i) << 16 |
                   ((unsigned(pivot) + at - 1 - i) & 0xffff);
    if (at < payload) // a varbinary of this length
      image[pivot + at] = len[i];
  }
  judge(units * 4, 0, true);
}

std::vector<mc::Item> items_list() {
  std::vector<mc::Item> r;
  auto add = [&](const std::string &name, Family f, unsigned n, unsigned p,
                 unsigned schema, unsigned flags, unsigned part) {
    mc::Item i;
    i.name = name;
    i.a = part;
    i.extra = {uint64_t(f), n, p, schema, flags};
    r.push_back(i);
  };
  const bool deep = mc::opt().thorough();
  auto small_family = [&](unsigned n, unsigned p, unsigned schema,
                          unsigned flags) {
    char b[96];
    for (unsigned t = 0; t < (n ? NT : 1); ++t) {
      snprintf(b, sizeof b, "images n=%u payload=%u schema=%s flags=%u part=%u",
               n, p, SCHEMAS[schema].name, flags, t);
      add(b, SMALL, n, p, schema, flags, t);
    }
  };
  small_family(2, 3, 0, 0);
  small_family(3, 1, 0, 0);
  for (unsigned n = 0; n <= 2; ++n)
    for (unsigned p = 0; p <= (n == 0 ? 4 : n == 1 ? 4 : 2); ++p)
      small_family(n, p, 0, 0);
  small_family(3, 0, 0, 0);
  small_family(3, 0, 0, 1);
  small_family(2, 1, 0, 1);
  for (unsigned s = 1; s < SCHEMAS.size(); ++s) {
    for (unsigned n = 0; n <= 1; ++n)
      for (unsigned p = 0; p <= 4; ++p) {
        small_family(n, p, s, 2);
        if (p < 3)
          small_family(n, p, s, 0);
      }
    small_family(2, s < 3 || !deep ? 3 : 4, s, 2);
  }
  for (unsigned i = 0; i < 64; ++i)
    add("header part=" + std::to_string(i), HEADER, 0, 0, 0, 0, i);
  for (unsigned i = 0; i < 256; ++i)
    if (deep || i < 4 || i > 250 || i % 32 == 0)
      add("long text part=" + std::to_string(i), LENGTHS, 0, 0, 0, 0, i);
  for (unsigned i = 0; i < 64; ++i)
    add("claims part=" + std::to_string(i), CLAIMS, 0, 0, 0, 0, i);
  for (unsigned i = 0; i < 32; ++i)
    add("type " + std::to_string(i), GENUS, 0, 0, 0, 0, i);
  auto chunk_family = [&](unsigned n, unsigned p, unsigned schema) {
    char b[96];
    for (unsigned t = 0; t < 7; ++t) {
      snprintf(b, sizeof b, "chunks n=%u payload=%u schema=%s part=%u", n, p,
               SCHEMAS[schema].name, t);
      add(b, CHUNKS, n, p, schema, schema ? 2 : 0, t);
    }
  };
  for (unsigned p = 2; p <= 8; ++p) {
    chunk_family(3, p, 0);
    if (p <= (deep ? 8 : 6))
      chunk_family(4, p, 0);
  }
  for (unsigned s = 1; s < SCHEMAS.size(); ++s)
    for (unsigned p = 3; p <= 6; ++p)
      chunk_family(3, p, s);
  if (deep)
    for (unsigned p = 3; p <= 6; ++p)
      chunk_family(5, p, 0);
  add("sizes", SIZES, 0, 0, 0, 0, 0);
  for (unsigned s = 0; s < SCHEMAS.size(); ++s)
    add(std::string("many fields, schema=") + SCHEMAS[s].name, MANY, 0, 0, 0,
        0, s);
  for (unsigned i = 0; i < 5; ++i)
    add("spread part=" + std::to_string(i), SPREAD, 0, 0, 0, 0, i);
  for (unsigned i = 0; i < 25; ++i)
    add("big chunks part=" + std::to_string(i), BIG, 0, 0, 0, 0, i);
  if (deep) {
    small_family(3, 2, 0, 0);
    small_family(2, 4, 0, 0);
  }
  return r;
}
void body(mc::Chooser &c, const mc::Item &i) {
  Space s;
  s.fam = Family(i.extra[0]);
  s.n = unsigned(i.extra[1]);
  s.p = unsigned(i.extra[2]);
  s.schema = unsigned(i.extra[3]);
  s.flags = unsigned(i.extra[4]);
  switch (s.fam) {
  case SMALL:
    return small(c, s, unsigned(i.a));
  case HEADER:
    return header(c, unsigned(i.a));
  case LENGTHS:
    return lengths(c, unsigned(i.a));
  case GENUS:
    return genera(c, unsigned(i.a));
  case CHUNKS:
    return chunks(c, s, unsigned(i.a));
  case CLAIMS:
    return claims(c, unsigned(i.a));
  case SIZES:
    return sizes(c);
  case MANY:
    return many(c, unsigned(i.a));
  case SPREAD:
    return spread(c, unsigned(i.a));
  case BIG:
    return big(c, unsigned(i.a));
  default:
    return;
  }
}
} // namespace

int main(int argc, char **argv) {
  mc::counter_name(0) = "images";
  mc::counter_name(1) = "accepted_images";
  mc::Harness h;
  h.items = items_list;
  h.run = [](const mc::Item &i) {
    accepted_here = images_here = 0;
    mc::what("%s", i.name.c_str());
    mc::dfs([&](mc::Chooser &c) { body(c, i); });
    mc::count(0, images_here);
    mc::count(1, accepted_here);
    mc::add(mc::shared()->outcomes, accepted_here);
    mc::add(mc::shared()->traces, images_here);
    if (accepted_here && mc::sampling())
      mc::sample(i.name + ": " + std::to_string(images_here) + " images, " +
                 std::to_string(accepted_here) + " accepted");
  };
  h.replay = [](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { body(c, i); });
  };
  return mc::main_(argc, argv, h);
}
