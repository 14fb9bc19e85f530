// P12: the dictionary of a schema.
//
// Stateless enumeration of all the histories of definitions up to a depth on the
// real schema, against a plain list of what has been defined; and enumeration
// of schemas of all the sizes for the searches by an offset or a descriptor.
#include "fields.hpp"
#include "fast_positive/tuples/schema.h"
#include <algorithm>

namespace {
using fptu::genus;
using fptu::schema;
using fptu::token;
using fx::Val;

size_t slot_size(genus g) { return fx::is_stretchy(g) ? 4 : fx::fixed_size(g); }
size_t slot_align(genus g) {
  const size_t n = slot_size(g);
  return n > 4 ? 4 : n;
}

struct Def {
  std::string name;
  bool preplaced = false;
  genus g = fptu::u32;
  bool dn = false, sat = false, coll = false;
  size_t offset = 0; // or id
  bool with_initial = false;
  Val initial;
};

struct Model {
  std::vector<Def> defs;
  size_t end() const {
    size_t n = 0;
    for (auto &d : defs)
      if (d.preplaced)
        n = std::max(n, d.offset + slot_size(d.g));
    return n;
  }
  unsigned next_id(genus g) const {
    unsigned n = 0;
    for (auto &d : defs)
      if (!d.preplaced && d.g == g)
        n = std::max(n, unsigned(d.offset) + 1);
    return n;
  }
  const Def *by_name(const std::string &n) const {
    for (auto &d : defs)
      if (d.name == n)
        return &d;
    return nullptr;
  }
};

token make(const Def &d) {
  return d.preplaced ? token(ptrdiff_t(d.offset), d.g, d.dn, d.sat)
                     : token(d.g, unsigned(d.offset), d.coll, d.dn, d.sat);
}
bool is(const token &t, const Def &d) {
  if (!t.is_valid() || t.is_preplaced() != d.preplaced || t.type() != d.g ||
      t.is_discernible_null() != d.dn || t.is_saturated() != d.sat)
    return false;
  if (d.preplaced)
    return t.preplaced_offset() == ptrdiff_t(d.offset) &&
           t.preplaced_size() == slot_size(d.g) && !t.is_collection();
  return t.id() == d.offset && t.is_collection() == d.coll;
}

Val initial_of(const Def &d) {
  if (d.with_initial)
    return d.initial;
  if (fx::is_stretchy(d.g))
    return Val(4, '\0');
  return d.dn ? fx::denil(d.g) : Val(slot_size(d.g), '\0');
}

const char *LONG42 = "0123456789abcdefghijABCDEFGHIJ0123456789xy";

// the lookups by a name and by a token
void check_names(const schema &s, const Model &m) {
  using opt = schema::boolean_option;
  for (auto &d : m.defs) {
    const fptu::string_view n(d.name.data(), d.name.size());
    const token t = s.get_token(n);
    MC_CHECK(is(t, d), "the token of \"%s\" differs from the definition",
             d.name.c_str());
    MC_CHECK(s.get_token_nothrow(n) == t && s[n] == t && s[d.name] == t,
             "the ways of getting the token of \"%s\" disagree",
             d.name.c_str());
    for (opt dn : {opt::option_default, opt::option_enforce_false,
                   opt::option_enforce_true})
      for (opt sat : {opt::option_default, opt::option_enforce_false,
                      opt::option_enforce_true}) {
        Def e = d;
        if (dn != opt::option_default)
          e.dn = dn == opt::option_enforce_true;
        if (sat != opt::option_default)
          e.sat = sat == opt::option_enforce_true;
        if (int(dn) != int(sat) && dn != opt::option_enforce_true)
          continue;
        const token x = s.get_token(n, dn, sat);
        MC_CHECK(is(x, e), "the token of \"%s\" with the options %d, %d",
                 d.name.c_str(), int(dn), int(sat));
        const fptu::string_view back = s.get_name(x);
        MC_CHECK(std::string(back.data(), back.size()) == d.name,
                 "the name of the token of \"%s\" is \"%.*s\"", d.name.c_str(),
                 int(back.size()), back.data());
        MC_CHECK(s.get_name_nothrow(x) == back && s[x] == back,
                 "the ways of getting the name of \"%s\" disagree",
                 d.name.c_str());
      }
  }
  for (const std::string &n :
       {std::string("nobody"), std::string(), std::string("a\0z", 3),
        std::string("A"), std::string(LONG42) + "z", std::string(LONG42, 41)}) {
    if (m.by_name(n))
      continue;
    const fptu::string_view v(n.data(), n.size());
    MC_CHECK(!s.get_token_nothrow(v).is_valid(), "a token for the absent "
             "name \"%s\"", n.c_str());
    if (n != "nobody")
      continue;
    bool thrown = false;
    try {
      s.get_token(v);
    } catch (const fptu::schema_no_such_field &) {
      thrown = true;
    }
    MC_CHECK(thrown, "no exception for the absent name \"%s\"", n.c_str());
  }
}

// the absent tokens and the descriptors
void check_ids(const schema &s, const Model &m,
               const std::vector<genus> &genera, unsigned ids, bool names) {
  for (genus g : genera)
    for (unsigned id = 0; id < ids; ++id) {
      const Def *found = nullptr;
      for (auto &d : m.defs)
        if (!d.preplaced && d.g == g && d.offset == id)
          found = &d;
      // the descriptor is in the high half
      const uint32_t f = (uint32_t(g) << 11 | id) << 16;
      const token t = s.by_loose(
          reinterpret_cast<const fptu::details::field_loose *>(&f));
      MC_CHECK(found ? is(t, *found) : !t.is_valid(),
               "by_loose(%s, %u) is %s", fx::gname(g), id,
               !t.is_valid() ? "absent" : found ? "another" : "present");
      if (!names)
        continue;
      for (unsigned k = 0; k < 8; ++k) {
        const token x(g, id, k & 1, k & 2, k & 4);
        const fptu::string_view n = s.get_name_nothrow(x);
        MC_CHECK(found ? found->name == std::string(n.data(), n.size())
                       : n.nil(),
                 "the name of the loose token (%s, %u) with the flags %u",
                 fx::gname(g), id, k);
      }
    }
}

void check_offsets(const schema &s, const Model &m) {
  MC_CHECK(s.preplaced_bytes() == m.end(), "preplaced_bytes %zu instead of %zu",
           s.preplaced_bytes(), m.end());
  MC_CHECK(s.preplaced_units() == (m.end() + 3) / 4, "preplaced_units");
  size_t np = 0, ns = 0;
  std::vector<const Def *> at;
  for (auto &d : m.defs)
    if (d.preplaced) {
      ++np;
      ns += fx::is_stretchy(d.g);
      at.push_back(&d);
    }
  std::sort(at.begin(), at.end(), [](const Def *a, const Def *b) {
    return a->offset < b->offset;
  });
  MC_CHECK(s.number_of_preplaced() == np && s.have_preplaced() == (np > 0),
           "number_of_preplaced %zu instead of %zu", s.number_of_preplaced(),
           np);
  MC_CHECK(s.number_of_stretchy_preplaced() == ns &&
               s.have_stretchy_preplaced() == (ns > 0),
           "number_of_stretchy_preplaced %zu instead of %zu",
           s.number_of_stretchy_preplaced(), ns);
  for (ptrdiff_t o = -2; o <= ptrdiff_t(m.end()) + 2; ++o) {
    const Def *here = nullptr, *next = nullptr, *prev = nullptr;
    for (const Def *d : at) {
      const ptrdiff_t x = ptrdiff_t(d->offset);
      if (x == o)
        here = d;
      if (x > o && !next)
        next = d;
      if (x < o)
        prev = d;
    }
    token t = s.by_offset(o);
    MC_CHECK(here ? is(t, *here) : !t.is_valid(), "by_offset(%td)", o);
    // the arguments of the others are offsets inside the preplaced area
    if (o >= 0 && o < ptrdiff_t(m.end())) {
      t = s.next_by_offset(o);
      MC_CHECK(next ? is(t, *next) : !t.is_valid(), "next_by_offset(%td)", o);
    }
    if (o > 0 && o <= ptrdiff_t(m.end())) {
      t = s.prev_by_offset(o);
      MC_CHECK(prev ? is(t, *prev) : !t.is_valid(), "prev_by_offset(%td)", o);
    }
  }
  const char *image = static_cast<const char *>(s.preplaced_init_image());
  for (const Def *d : at)
    MC_CHECK(Val(image + d->offset, slot_size(d->g)) == initial_of(*d),
             "the initial value of \"%s\"", d->name.c_str());
}

void check_tokens(const schema &s, const Model &m) {
  MC_CHECK(s.tokens().size() == m.defs.size(), "%zu tokens instead of %zu",
           s.tokens().size(), m.defs.size());
  std::vector<bool> seen(m.defs.size());
  for (size_t i = 0; i < s.tokens().size(); ++i) {
    const token &t = s.tokens()[i];
    if (i)
      MC_CHECK(s.tokens()[i - 1] < t, "the tokens are out of order");
    size_t k = 0;
    while (k < m.defs.size() && !(!seen[k] && is(t, m.defs[k])))
      ++k;
    MC_CHECK(k < m.defs.size(), "an unknown token in the list");
    seen[k] = true;
  }
}

void check_tuple(const schema &s, const Model &m) {
  fptu::tuple_rw_fixed t(4, 64, &s);
  for (int round = 0; round < 2; ++round) {
    for (auto &d : m.defs) {
      const token k = make(d);
      bool absent;
      Val want = fx::is_stretchy(d.g) || !d.preplaced ? fx::empty_value(d.g)
                                                       : initial_of(d);
      if (!d.preplaced || fx::is_stretchy(d.g))
        absent = d.dn;
      else
        absent = d.dn && want == fx::denil(d.g);
      if (d.coll)
        continue;
      Val got;
      bool thrown = false;
      try {
        got = fx::get(t, k);
      } catch (const fptu::field_absent &) {
        thrown = true;
      }
      MC_CHECK(thrown == absent, "\"%s\" of a new tuple is %s",
               d.name.c_str(), thrown ? "absent" : "present");
      MC_CHECK(thrown || fx::canon(d.g, got) == fx::canon(d.g, want),
               "\"%s\" of a new tuple differs from the initial value",
               d.name.c_str());
    }
    t.reset();
  }
}

void check_all(const schema &s, const Model &m) {
  check_tokens(s, m);
  check_offsets(s, m);
  check_names(s, m);
  std::vector<genus> g = {fptu::text, fptu::u32, fptu::i8};
  check_ids(s, m, g, 8, true);
  for (ptrdiff_t o = 0; o <= ptrdiff_t(m.end()); ++o)
    for (genus x : {fptu::text, fptu::u8, fptu::u32, fptu::i64}) {
      const Def *found = nullptr;
      for (auto &d : m.defs)
        if (d.preplaced && d.g == x && ptrdiff_t(d.offset) == o)
          found = &d;
      for (unsigned k = 0; k < 4; ++k) {
        const fptu::string_view n =
            s.get_name_nothrow(token(o, x, k & 1, k & 2));
        MC_CHECK(found ? found->name == std::string(n.data(), n.size())
                       : n.nil(),
                 "the name of the preplaced token (%s at %td)", fx::gname(x), o);
      }
    }
  bool aligned = true;
  for (auto &d : m.defs)
    if (d.preplaced && d.offset % slot_align(d.g))
      aligned = false;
  if (aligned)
    check_tuple(s, m);
}

//--------------------------------------------------------------------- histories
enum Kind { PREPLACED, LOOSE, IMPORT, RENOMINATE };
enum Name { FRESH, SAME, TOO_LONG };
struct Op {
  Kind kind;
  Def d;
  Name name;
  std::string str() const {
    char b[160];
    snprintf(b, sizeof b, "%s %s%s%s%s%s @%zu%s",
             kind == PREPLACED ? "define_preplaced"
             : kind == LOOSE   ? "define_loose"
             : kind == IMPORT  ? "import"
                               : "import with renomination",
             d.preplaced ? "preplaced " : "", fx::gname(d.g),
             d.dn ? " dn" : "", d.coll ? " collection" : "",
             d.with_initial ? " with a value" : "", d.offset,
             name == SAME       ? " under a used name"
             : name == TOO_LONG ? " under a too long name"
                                : "");
    return b;
  }
};
Val some_value(genus g) {
  Val v(slot_size(g), '\0');
  for (size_t i = 0; i < v.size(); ++i)
    v[i] = char(0x11 + i);
  return v;
}
Op op(Kind k, bool preplaced, genus g, size_t offset, unsigned flags,
      Name n = FRESH) {
  Op o;
  o.kind = k;
  o.d.preplaced = preplaced;
  o.d.g = g;
  o.d.offset = offset;
  o.d.dn = flags & 1;
  o.d.coll = flags & 2;
  o.d.with_initial = flags & 4;
  o.d.sat = flags & 8;
  if (o.d.with_initial)
    o.d.initial = some_value(g);
  o.name = n;
  return o;
}
const std::vector<Op> &ops() {
  static std::vector<Op> r;
  if (!r.empty())
    return r;
  using namespace fptu;
  // define
  for (genus g : {u8, u16, i32, i64, bin96})
    r.push_back(op(PREPLACED, true, g, 0, g == u8 || g == bin96 ? 4 : 0));
  r.push_back(op(PREPLACED, true, i8, 0, 1));
  r.push_back(op(PREPLACED, true, text, 0, 0));
  r.push_back(op(PREPLACED, true, u32, 0, 4 + 8));
  for (genus g : {u32, text}) {
    r.push_back(op(LOOSE, false, g, 0, 0));
    r.push_back(op(LOOSE, false, g, 0, 2));
  }
  r.push_back(op(LOOSE, false, u32, 0, 1));
  r.push_back(op(LOOSE, false, i8, 0, 3 + 8));
  // at a given place
  for (size_t o : {0, 4, 8, 12})
    r.push_back(op(IMPORT, true, u32, o, 4));
  for (size_t o : {0, 8})
    r.push_back(op(IMPORT, true, i64, o, 1));
  for (size_t o : {1, 3})
    r.push_back(op(IMPORT, true, u8, o, o == 1 ? 4 : 0));
  r.push_back(op(IMPORT, true, text, 4, 0));
  r.push_back(op(IMPORT, true, bin96, 4, 4));
  for (size_t o : {0, 1, 5})
    r.push_back(op(IMPORT, false, u32, o, o == 1 ? 2 : 1));
  r.push_back(op(IMPORT, false, text, 2, 0));
  r.push_back(op(RENOMINATE, true, u32, 100, 4));
  r.push_back(op(RENOMINATE, true, text, 40, 1));
  r.push_back(op(RENOMINATE, false, u32, 700, 2));
  // refusals
  r.push_back(op(PREPLACED, true, u32, 0, 0, SAME));
  r.push_back(op(LOOSE, false, u32, 0, 0, SAME));
  r.push_back(op(PREPLACED, true, u32, 0, 0, TOO_LONG));
  r.push_back(op(LOOSE, false, text, 0, 0, TOO_LONG));
  r.push_back(op(IMPORT, true, u32, 20, 0, SAME));
  return r;
}
// the binary, empty and longest names are all right
std::string fresh(const Model &m) {
  switch (m.defs.size()) {
  case 0:
    return "a";
  case 1:
    return std::string();
  case 2:
    return std::string("a\0b", 3);
  case 3:
    return LONG42;
  default:
    return "n" + std::to_string(m.defs.size());
  }
}

bool apply(schema &s, Model &m, const Op &o) {
  Def d = o.d;
  switch (o.name) {
  case FRESH:
    d.name = fresh(m);
    break;
  case SAME:
    d.name = m.defs.empty() ? fresh(m) : m.defs.front().name;
    break;
  case TOO_LONG:
    d.name = std::string(LONG42) + "z";
    break;
  }
  const bool renum = o.kind != IMPORT;
  if (renum)
    d.offset = d.preplaced ? (m.end() + slot_align(d.g) - 1) / slot_align(d.g) *
                                 slot_align(d.g)
                           : m.next_id(d.g);
  bool refuse = m.by_name(d.name) != nullptr;
  for (auto &e : m.defs) {
    if (e.preplaced != d.preplaced)
      continue;
    if (!d.preplaced)
      refuse |= e.g == d.g && e.offset == d.offset;
    else
      refuse |= d.offset < e.offset + slot_size(e.g) &&
                e.offset < d.offset + slot_size(d.g);
  }
  const bool bad_name = d.name.size() > 42;
  mc::what("%s", o.str().c_str());
  int got = 0;
  token t;
  std::string name = d.name;
  const void *initial = d.with_initial ? d.initial.data() : nullptr;
  try {
    switch (o.kind) {
    case PREPLACED:
      t = initial ? s.define_preplaced(std::move(name), d.g, d.dn, d.sat,
                                       initial)
                  : s.define_field(true, std::move(name), d.g, d.dn, d.sat);
      break;
    case LOOSE:
      t = d.coll ? s.define_collection(std::move(name), d.g, d.dn, d.sat)
                 : s.define_loose(std::move(name), d.g, false, d.dn, d.sat);
      break;
    case IMPORT:
      t = s.import_definition(std::move(name), make(d), initial, false);
      break;
    case RENOMINATE:
      t = s.import_definition(std::move(name), make(o.d), initial, true);
      break;
    }
  } catch (const fptu::schema_definition_error &) {
    got = 1;
  } catch (const std::invalid_argument &) {
    got = 2;
  }
  if (bad_name)
    MC_CHECK(got == 2, "%s: too long name is %s", o.str().c_str(),
             got ? "an error in definition" : "accepted");
  else if (refuse)
    MC_CHECK(got == 1, "%s: a conflicting definition is %s", o.str().c_str(),
             got ? "an invalid argument" : "accepted");
  else {
    MC_CHECK(!got, "%s: is refused", o.str().c_str());
    MC_CHECK(is(t, d), "%s: a wrong token is returned", o.str().c_str());
    m.defs.push_back(d);
  }
  return !got;
}

void history(mc::Chooser &c, unsigned first, unsigned depth) {
  auto s = schema::create();
  Model m;
  const auto &all = ops();
  bool go = apply(*s, m, all[first]);
  for (unsigned n = 1; n < depth; ++n) {
    // a refusal leaves the schema as it was (check_all() makes sure of that), so
    // histories with a refusal inside repeat the ones without it
    if (!go && !mc::opt().thorough())
      break;
    const unsigned k = c.choose(unsigned(all.size()) + 1);
    if (!k)
      break;
    go = apply(*s, m, all[k - 1]);
    mc::step(1);
  }
  mc::tick();
  check_all(*s, m);
  mc::add(mc::shared()->outcomes);
}

//-------------------------------------------------------------------------- wide
// many fields: the searches by offset and by descriptor
void wide(mc::Chooser &c, unsigned n) {
  const unsigned pattern = c.choose(4);
  const unsigned other = c.choose(5);
  auto s = schema::create();
  Model m;
  auto add = [&](const Op &o) { apply(*s, m, o); };
  static const genus P[4][3] = {{fptu::u32, fptu::u32, fptu::u32},
                                {fptu::u8, fptu::u16, fptu::text},
                                {fptu::u8, fptu::u8, fptu::i64},
                                {fptu::bin96, fptu::i8, fptu::text}};
  // interleaved with up to four fields of the other kind
  for (unsigned i = 0; i < n; ++i) {
    add(op(PREPLACED, true, P[pattern][i % 3], 0, i & 1 ? 0 : 1));
    if (i < other)
      add(op(LOOSE, false, fptu::u32, 0, 2));
  }
  check_tokens(*s, m);
  check_offsets(*s, m);
  check_ids(*s, m, {fptu::u32}, 8, false);
  mc::step(n);
  mc::tick();
  // loose ones: in all the orders of a rotation, with gaps
  auto s2 = schema::create();
  Model m2;
  static const genus L[4][2] = {{fptu::u32, fptu::u32},
                                {fptu::text, fptu::u32},
                                {fptu::u32, fptu::ipnet},
                                {fptu::text, fptu::ipnet}};
  for (unsigned i = 0; i < n; ++i) {
    const unsigned j = (i * 7 + other) % n;
    const unsigned id = pattern & 1 ? j : j * 2 + 1;
    // keep them unique when both types are the same
    apply(*s2, m2, op(IMPORT, false, L[pattern][i & 1], id, j & 3));
    if (i < other)
      apply(*s2, m2, op(PREPLACED, true, fptu::u16, 0, 0));
  }
  check_tokens(*s2, m2);
  check_ids(*s2, m2,
            {fptu::text, fptu::varbin, fptu::u32, fptu::f32, fptu::mac,
             fptu::ip, fptu::ipnet},
            n * 2 + 3, false);
  check_offsets(*s2, m2);
  mc::step(n);
  mc::add(mc::shared()->outcomes, 2);
}

// the limits of identifiers and of the preplaced area
void limits(mc::Chooser &c) {
  const unsigned what = c.choose(6);
  auto s = schema::create();
  if (what < 3) {
    const genus g = what == 0 ? fptu::text : what == 1 ? fptu::u32 : fptu::ipnet;
    const unsigned limit = 1024;
    for (unsigned i = 0; i < limit; ++i) {
      const token t = s->define_loose("f" + std::to_string(i), g, i & 1, i & 2);
      MC_CHECK(t.id() == i && t.type() == g && t.is_loose(), "id %u", i);
      if (i % 64 == 0)
        mc::tick();
    }
    for (int i = 0; i < 3; ++i) {
      bool refused = false;
      try {
        s->define_loose("extra", g);
      } catch (const fptu::schema_definition_error &) {
        refused = true;
      }
      MC_CHECK(refused, "%u loose fields of a type", limit + 1);
    }
    MC_CHECK(s->tokens().size() == limit, "a refused field has been added");
    const token other = s->define_loose("other", fptu::i8);
    MC_CHECK(other.id() == 0, "an identifier of another type");
    for (unsigned i = 0; i < limit; ++i)
      MC_CHECK((*s)["f" + std::to_string(i)].id() == i, "f%u", i);
  } else {
    // up to the last offset
    const genus g = what == 3 ? fptu::u32 : what == 4 ? fptu::bin512 : fptu::u8;
    const size_t limit = 16381;
    size_t n = 0;
    for (;; ++n) {
      const size_t at = n * slot_size(g);
      bool refused = false;
      token t;
      try {
        t = s->define_preplaced("p" + std::to_string(n), g);
      } catch (const fptu::schema_definition_error &) {
        refused = true;
      }
      MC_CHECK(refused == (at > limit), "a field at %zu is %s", at,
               refused ? "refused" : "accepted");
      if (refused)
        break;
      MC_CHECK(t.is_preplaced() && t.preplaced_offset() == ptrdiff_t(at),
               "offset %td instead of %zu", t.preplaced_offset(), at);
      if (n % 64 == 0)
        mc::tick();
    }
    MC_CHECK(s->number_of_preplaced() == n &&
                 s->preplaced_bytes() == n * slot_size(g),
             "a refused field has been added");
    for (size_t i = 0; i < n; ++i)
      MC_CHECK((*s)["p" + std::to_string(i)] ==
                   s->by_offset(ptrdiff_t(i * slot_size(g))),
               "p%zu", i);
  }
  mc::step(1000);
  mc::add(mc::shared()->outcomes);
}
} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    for (unsigned i = 0; i < ops().size(); ++i) {
      mc::Item it;
      it.name = "history-" + std::to_string(i);
      it.a = i;
      it.b = 0;
      r.push_back(it);
    }
    for (unsigned n = 0; n <= (mc::opt().thorough() ? 130u : 70u); ++n) {
      mc::Item it;
      it.name = "wide-" + std::to_string(n);
      it.a = n;
      it.b = 1;
      r.push_back(it);
    }
    mc::Item it;
    it.name = "limits";
    it.b = 2;
    r.push_back(it);
    return r;
  };
  auto run = [](mc::Chooser &c, const mc::Item &i) {
    if (i.b == 0)
      history(c, unsigned(i.a), mc::opt().thorough() ? 5 : 4);
    else if (i.b == 1)
      wide(c, unsigned(i.a));
    else
      limits(c);
  };
  h.run = [=](const mc::Item &i) {
    mc::dfs([&](mc::Chooser &c) { run(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(i.name + ": " + mc::slot()->what);
  };
  h.replay = [=](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { run(c, i); });
  };
  return mc::main_(argc, argv, h);
}
