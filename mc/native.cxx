// P18: native structures over the preplaced area, static tokens.
//
// The same field is reached by a static token, by the equal dynamic one, by
// accessors of both kinds and by the C++ structure mapped on the payload.  All
// the histories of updates by any of these ways are explored on the real tuple
// up to a fixpoint, against a plain list of values.
#include "fields.hpp"
#include "fast_positive/tuples/schema.h"

namespace {
using fptu::genus;
using fptu::token;
using fx::Rc;
using fx::Val;

enum class Color : int16_t { red = -1, green = 300 };

struct Small {
  bool flag;
  int8_t a;
  uint8_t b;
  int16_t c;
  uint16_t d;
  Color e;
};
struct Words {
  int32_t a;
  uint32_t b;
  float f;
  int64_t c;
  uint64_t d;
  double g;
  fptu::datetime_t t;
};
struct Blobs {
  uint8_t lead;
  fptu::binary96_t b96;
  fptu::uuid_t uuid;
  fptu::binary128_t b128;
  fptu::binary160_t b160;
  fptu::binary192_t b192;
  fptu::mac_address_t mac;
  fptu::ip_address_t ip;
};
struct Large {
  fptu::binary224_t b224;
  fptu::binary256_t b256;
  fptu::binary320_t b320;
  fptu::binary384_t b384;
  fptu::binary512_t b512;
  uint8_t trail;
};
struct Texts {
  uint8_t lead;
  fptu::preplaced_string text;
  fptu::preplaced_varbin bin;
  uint16_t mid;
  fptu::preplaced_nested nested;
};
struct Props {
  uint16_t lead;
  fptu::preplaced_property one;
  fptu::preplaced_property two;
  fptu::preplaced_string text;
};
// the example of the documentation
struct Foo {
  bool Bar;
  fptu::preplaced_string String;
  fptu::preplaced_varbin Varbin;
  fptu::preplaced_nested NestedTuple;
  fptu::preplaced_property Property;
};
// up to the last of the possible offsets
struct Wide {
  uint32_t a;
  char pad1[4300];
  fptu::preplaced_string text;
  char pad2[4000];
  int64_t b;
  char pad3[8060];
  uint8_t y, z;
};
#pragma pack(push, 1)
struct Packed {
  char x;
  int Bar;
  double real;
  uint16_t half;
  int64_t wide;
  fptu::datetime_t when;
  uint8_t trail;
};
#pragma pack(pop)

template <class S, class F, F S::*M, size_t O, bool DN = false,
          bool SAT = false>
using T = fptu::details::token_native<S, F, M, O, DN, SAT>;
#define TOKEN_OPT(S, F, DN, SAT)                                               \
  T<S, decltype(S::F), &S::F, offsetof(S, F), DN, SAT>

//------------------------------------------- the value inside of the structure
template <class F> Val plain(const F &v) { return fx::raw(v); }
inline Val plain(const fptu::preplaced_string &v) {
  const auto s = v.value();
  return Val(s.data(), s.size());
}
inline Val plain(const fptu::preplaced_varbin &v) {
  const fptu::string_view s = v.value();
  return Val(s.data(), s.size());
}
inline Val plain(const fptu::preplaced_nested &v) {
  return fx::nested_val(v.value());
}
inline Val plain(const fptu::preplaced_property &v) {
  const auto p = v.value();
  Val r(1, char(p.second));
  r.append(p.first.data(), p.first.size());
  return r;
}
inline Val quiet(const fptu::preplaced_string &v) {
  const auto s = v.value_nothrow();
  return Val(s.data(), s.size());
}
inline Val quiet(const fptu::preplaced_varbin &v) {
  const fptu::string_view s = v.value_nothrow();
  return Val(s.data(), s.size());
}
inline Val quiet(const fptu::preplaced_nested &v) {
  return fx::nested_val(v.value_nothrow());
}
inline Val quiet(const fptu::preplaced_property &v) {
  const auto p = v.value_nothrow();
  Val r(1, char(p.second));
  r.append(p.first.data(), p.first.size());
  return r;
}
template <class F> Val quiet(const F &v) { return fx::raw(v); }

// what the conversions on reading give
template <class A> std::string conversions(const A &a) {
  std::string r;
  char b[64];
  auto put = [&](const char *n, auto f) {
    const Rc rc = fx::guarded([&] { f(b); });
    r += std::string(n) + "=" + (rc == Rc::ok ? b : fx::rc_name(rc)) + " ";
  };
  put("integer", [&](char *p) { sprintf(p, "%lld", (long long)a.get_integer()); });
  put("unsigned",
      [&](char *p) { sprintf(p, "%llu", (unsigned long long)a.get_unsigned()); });
  put("float", [&](char *p) { sprintf(p, "%a", a.get_float()); });
  put("number",
      [&](char *p) { sprintf(p, "%a", a.get_number_as_ieee754double()); });
  put("bool", [&](char *p) { sprintf(p, "%d", a.get_bool()); });
  put("enum", [&](char *p) { sprintf(p, "%d", a.get_enum()); });
  return r;
}

//------------------------------------------------------------------ one field
using Rw = fptu::tuple_rw_fixed;
using Auto = fptu::tuple_rw_managed;
// accessors of a writable tuple are not available for a constant one
inline Rw &mutable_(const Rw &t) { return const_cast<Rw &>(t); }
struct Field {
  std::string name;
  token dyn;
  genus g;
  size_t offset, size;
  bool dn, sat;
  std::vector<Val> dom;
  // by the static token
  std::function<void(Rw &, const Val &)> set, aset;
  std::function<bool(Rw &)> erase;
  std::function<void(Auto &, const Val &)> grow_set;
  std::function<bool(Auto &)> grow_erase;
  std::function<Val(const Rw &)> get, aget;
  std::function<Val(const fptu::tuple_ro_weak &)> weak_get, weak_aget;
  std::function<Val(const fptu::tuple_ro_managed &)> managed_get;
  std::function<Val(const Auto &)> grow_get;
  std::function<bool(const Rw &)> present;
  std::function<bool(const fptu::tuple_ro_weak &)> weak_present;
  std::function<std::string(const Rw &)> convert;
  std::function<Rc(Rw &, int)> set_number;
  // by the structure
  std::function<Val(const void *)> native, native_quiet;
  std::function<bool(const void *)> nil;
};

// conversions on writing, the same list for both kinds of tokens
const int NUMBERS = 14;
template <class X, class K> void write_number(X &t, const K &k, int n) {
  switch (n) {
  case 0:
    return t.set_integer(k, int64_t(-1));
  case 1:
    return t.set_integer(k, int64_t(200));
  case 2:
    return t.set_unsigned(k, uint64_t(70000));
  case 3:
    return t.set_unsigned(k, uint64_t(INT64_MAX) + 1);
  case 4:
    return t.set_float(k, 1.5);
  case 5:
    return t.set_float(k, -129.0);
  case 6:
    return t.set_number(k, int32_t(127));
  case 7:
    return t.set_number(k, uint32_t(1) << 31);
  case 8:
    return t.set_number(k, int64_t(INT64_MIN) + 1);
  case 9:
    return t.set_number(k, double(255));
  case 10:
    return t.set_number(k, float(-32768.0f));
  case 11:
    return t.set_bool(k, true);
  case 12:
    return t.set_enum(k, short(-2));
  default:
    return t.set_number(k, 1e300);
  }
}

template <class S, class F, F S::*M, size_t O, bool DN, bool SAT>
Field make(const char *name, T<S, F, M, O, DN, SAT>, std::vector<Val> dom) {
  using K = T<S, F, M, O, DN, SAT>;
  Field f;
  f.name = name;
  f.dyn = token(K());
  f.g = K::static_genus;
  f.offset = O;
  f.size = sizeof(F);
  f.dn = DN;
  f.sat = SAT;
  f.dom = dom;
  f.set = [](Rw &t, const Val &v) { fx::set(t, K(), v); };
  f.aset = [](Rw &t, const Val &v) {
    auto a = t[K()];
    fx::aset(a, v);
  };
  f.erase = [](Rw &t) { return t.erase(K()); };
  f.grow_set = [](Auto &t, const Val &v) { fx::set(t, K(), v); };
  f.grow_erase = [](Auto &t) { return t.erase(K()); };
  f.get = [](const Rw &t) { return fx::get(t, K()); };
  f.aget = [](const Rw &t) { return fx::aget(mutable_(t)[K()]); };
  f.weak_get = [](const fptu::tuple_ro_weak &t) { return fx::get(t, K()); };
  f.weak_aget = [](const fptu::tuple_ro_weak &t) { return fx::aget(t[K()]); };
  f.managed_get = [](const fptu::tuple_ro_managed &t) {
    return fx::get(t, K());
  };
  f.grow_get = [](const Auto &t) { return fx::get(t, K()); };
  f.present = [](const Rw &t) {
    const bool r = t.is_present(K());
    MC_CHECK(r == bool(mutable_(t)[K()].exist()),
             "is_present() and exist() of a static token disagree");
    return r;
  };
  f.weak_present = [](const fptu::tuple_ro_weak &t) {
    const bool r = t.is_present(K());
    MC_CHECK(r == bool(t[K()].exist()),
             "is_present() and exist() of a static token disagree");
    return r;
  };
  f.convert = [](const Rw &t) { return conversions(mutable_(t)[K()]); };
  f.set_number = [](Rw &t, int n) {
    return fx::guarded([&] { write_number(t, K(), n); });
  };
  f.native = [](const void *p) {
    if constexpr (std::is_base_of<fptu::details::preplaced_stretchy_value,
                                  F>::value)
      return plain(static_cast<const S *>(p)->*M);
    else { // the tuple is aligned only by the unit
      F v;
      memcpy(&v, static_cast<const char *>(p) + O, sizeof v);
      return plain(v);
    }
  };
  f.native_quiet = [](const void *p) {
    if constexpr (std::is_base_of<fptu::details::preplaced_stretchy_value,
                                  F>::value)
      return quiet(static_cast<const S *>(p)->*M);
    else {
      F v;
      memcpy(&v, static_cast<const char *>(p) + O, sizeof v);
      return quiet(v);
    }
  };
  f.nil = [](const void *p) {
    if constexpr (std::is_base_of<fptu::details::preplaced_stretchy_value,
                                  F>::value)
      return (static_cast<const S *>(p)->*M).nil();
    else
      return false;
  };
  return f;
}

//--------------------------------------------------------------- the layouts
template <class T_> std::vector<Val> dom(std::initializer_list<T_> l) {
  std::vector<Val> r;
  for (auto &v : l)
    r.push_back(fx::raw(v));
  return r;
}
template <class T_> std::vector<Val> blob(unsigned seed) {
  Val a(sizeof(T_), char(0)), b(sizeof(T_), char(0));
  for (size_t i = 0; i < sizeof(T_); ++i) {
    a[i] = char(seed + i * 7 + 1);
    b[i] = char(0xE0 - seed - i * 3);
  }
  return {a, b};
}
Val nested_image() {
  static const Val image = [] {
    Rw t(2, 32, nullptr);
    t.set_u32(token(fptu::u32, 7), 0x12345678);
    const auto w = t.take_weak_asis();
    return Val(static_cast<const char *>(w.data()), w.size());
  }();
  return image;
}
Val prop(int8_t id, const char *text) { return Val(1, char(id)) + text; }

struct Layout {
  const char *name;
  size_t size;
  std::vector<Field> fields;
  bool loose = false; // a loose text beside the structure
};
#define FIELD(S, F, DN, SAT, ...)                                              \
  make(#F, TOKEN_OPT(S, F, DN, SAT)(), std::vector<Val> __VA_ARGS__)

std::vector<Layout> layouts() {
  std::vector<Layout> r;
  const Val t0("a"), t1("hello, world"), t2(300, 'z');
  const Val n0 = nested_image();
  r.push_back({"small", sizeof(Small),
               {FIELD(Small, flag, false, false, (dom<bool>({true}))),
                FIELD(Small, a, false, false, (dom<int8_t>({-128, 5}))),
                FIELD(Small, b, false, false, (dom<uint8_t>({255}))),
                FIELD(Small, c, true, false, (dom<int16_t>({-32767, 0}))),
                FIELD(Small, d, false, true, (dom<uint16_t>({65535}))),
                FIELD(Small, e, false, false, (dom<int16_t>({-1, 300})))}});
  r.push_back({"words", sizeof(Words),
               {FIELD(Words, a, true, false, (dom<int32_t>({-1, 0}))),
                FIELD(Words, b, false, false, (dom<uint32_t>({UINT32_MAX}))),
                FIELD(Words, f, false, true, (dom<float>({1.5f}))),
                FIELD(Words, c, false, false, (dom<int64_t>({INT64_MIN}))),
                FIELD(Words, d, false, true, (dom<uint64_t>({UINT64_MAX}))),
                FIELD(Words, g, true, false, (dom<double>({-0.5, 0}))),
                FIELD(Words, t, false, false,
                      (dom<uint64_t>({0x1122334455667788u})))}});
  r.push_back({"blobs", sizeof(Blobs),
               {FIELD(Blobs, lead, false, false, (dom<uint8_t>({1}))),
                FIELD(Blobs, b96, false, false, (blob<fptu::binary96_t>(1))),
                FIELD(Blobs, uuid, false, false, (blob<fptu::uuid_t>(2))),
                FIELD(Blobs, b128, true, false, (blob<fptu::binary128_t>(3))),
                FIELD(Blobs, b160, false, false, (blob<fptu::binary160_t>(4))),
                FIELD(Blobs, b192, true, false, (blob<fptu::binary192_t>(5))),
                FIELD(Blobs, mac, false, false,
                      (dom<uint64_t>({0x0000a1b2c3d4e5f6u}))),
                FIELD(Blobs, ip, false, false,
                      (blob<fptu::ip_address_t>(6)))}});
  r.push_back({"large", sizeof(Large),
               {FIELD(Large, b224, false, false, (blob<fptu::binary224_t>(1))),
                FIELD(Large, b256, true, false, (blob<fptu::binary256_t>(2))),
                FIELD(Large, b320, false, false, (blob<fptu::binary320_t>(3))),
                FIELD(Large, b384, false, false, (blob<fptu::binary384_t>(4))),
                FIELD(Large, b512, false, false, (blob<fptu::binary512_t>(5))),
                FIELD(Large, trail, false, false, (dom<uint8_t>({1})))}});
  r.push_back({"texts", sizeof(Texts),
               {FIELD(Texts, lead, false, false, (dom<uint8_t>({9}))),
                FIELD(Texts, text, false, false, ({t0, t1, t2})),
                FIELD(Texts, bin, true, false, ({Val(), t1})),
                FIELD(Texts, mid, false, false, (dom<uint16_t>({0xA5A5}))),
                FIELD(Texts, nested, false, false, ({n0}))}});
  r.push_back({"props", sizeof(Props),
               {FIELD(Props, lead, true, false, (dom<uint16_t>({7}))),
                FIELD(Props, one, false, false,
                      ({prop(1, ""), prop(-2, "abcdef")})),
                FIELD(Props, two, true, false, ({prop(0, ""), prop(3, "x")})),
                FIELD(Props, text, true, false, ({Val(), t1}))},
               true});
  r.push_back({"documented", sizeof(Foo),
               {FIELD(Foo, Bar, false, false, (dom<bool>({true}))),
                FIELD(Foo, String, false, false, ({t1})),
                FIELD(Foo, Varbin, false, false, ({t1})),
                FIELD(Foo, NestedTuple, false, false, ({n0})),
                FIELD(Foo, Property, false, false, ({prop(9, "abcd")}))},
               true});
  r.push_back({"packed", sizeof(Packed),
               {FIELD(Packed, Bar, false, false, (dom<int32_t>({-1, 7}))),
                FIELD(Packed, real, true, false, (dom<double>({1e-300, 0}))),
                FIELD(Packed, half, false, false, (dom<uint16_t>({0xFFFF}))),
                FIELD(Packed, wide, true, true, (dom<int64_t>({-2, 0}))),
                FIELD(Packed, when, false, false,
                      (dom<uint64_t>({0xFFEEDDCC00000001u}))),
                FIELD(Packed, trail, false, false, (dom<uint8_t>({1})))}});
  static_assert(offsetof(Wide, z) == fptu::details::max_preplaced_offset, "");
  r.push_back({"wide", sizeof(Wide),
               {FIELD(Wide, a, false, false, (dom<uint32_t>({0x01020304}))),
                FIELD(Wide, text, false, false, ({t1})),
                FIELD(Wide, b, true, false, (dom<int64_t>({-2}))),
                FIELD(Wide, z, false, false, (dom<uint8_t>({77})))}});
  return r;
}
const Layout &layout(size_t i) {
  static const std::vector<Layout> all = layouts();
  return all[i];
}

std::unique_ptr<fptu::schema> schema_of(const Layout &l) {
  auto s = fptu::schema::create();
  for (auto &f : l.fields) {
    const token same(ptrdiff_t(f.offset), f.g, f.dn, f.sat);
    MC_CHECK(f.dyn == same && same == f.dyn && !(f.dyn != same) &&
                 token::is_same(f.dyn, same),
             "%s.%s: the static token is not the same as the dynamic one",
             l.name, f.name.c_str());
    MC_CHECK(f.dyn.is_preplaced() && f.dyn.type() == f.g &&
                 size_t(f.dyn.preplaced_offset()) == f.offset &&
                 f.dyn.preplaced_size() == f.size &&
                 f.dyn.is_discernible_null() == f.dn &&
                 f.dyn.is_saturated() == f.sat,
             "%s.%s: attributes of the static token", l.name, f.name.c_str());
    token t;
    try {
      t = s->import_definition(std::string(f.name), f.dyn);
    } catch (const std::exception &e) {
      mc::fail("%s.%s: the schema refuses the field of a structure: %s",
               l.name, f.name.c_str(), e.what());
    }
    MC_CHECK(t == f.dyn, "%s.%s: imported as another token", l.name,
             f.name.c_str());
  }
  return s;
}

// what a field shows: -1 is absence
Val initial_value(const Field &f) {
  return fx::is_stretchy(f.g) ? fx::empty_value(f.g)
         : f.dn               ? fx::denil(f.g)
                              : fx::empty_value(f.g);
}

//-------------------------------------------------------------------- history
struct Op {
  enum K {
    SET,
    ACCESSOR,
    DYNAMIC,
    ERASE,
    ERASE_DYNAMIC,
    LOOSE_SET,
    LOOSE_ERASE,
    OPTIMIZE,
    RESET
  } k;
  int f = 0, v = 0;
};

struct Sys {
  const Layout &l;
  std::unique_ptr<fptu::schema> schema;
  token loose;
  std::unique_ptr<Rw> t;
  std::vector<Op> ops;
  // the value of each field, as it was written
  struct Cell {
    bool present;
    Val v;
  };
  std::vector<Cell> model, model0;
  char *mem;
  size_t mem_bytes;

  Sys(const Layout &layout) : l(layout) {
    schema = schema_of(l);
    loose = schema->define_loose("loose", fptu::text);
    MC_CHECK(schema->preplaced_bytes() <= l.size &&
                 schema->preplaced_bytes() >=
                     l.fields.back().offset + l.fields.back().size,
             "%s: size of the preplaced area", l.name);
    t.reset(new Rw(2, 400, schema.get()));
    const auto &ct = *t;
    mem = reinterpret_cast<char *>(
        const_cast<fptu::details::tuple_rw *>(ct.get_impl()));
    mem_bytes = fptu::details::tuple_rw::pure_tuple_size() + t->capacity();
    for (auto &f : l.fields)
      model.push_back({false, initial_value(f)});
    model.push_back({false, Val()}); // the loose field
    model0 = model;
    for (int i = 0; i < int(l.fields.size()); ++i) {
      for (int v = 0; v < int(l.fields[size_t(i)].dom.size()); ++v)
        for (auto k : {Op::SET, Op::ACCESSOR, Op::DYNAMIC})
          ops.push_back({k, i, v});
      ops.push_back({Op::ERASE, i});
      ops.push_back({Op::ERASE_DYNAMIC, i});
    }
    if (l.loose) {
      ops.push_back({Op::LOOSE_SET, int(l.fields.size()), 0});
      ops.push_back({Op::LOOSE_SET, int(l.fields.size()), 1});
      ops.push_back({Op::LOOSE_ERASE, int(l.fields.size())});
    }
    ops.push_back({Op::OPTIMIZE});
    ops.push_back({Op::RESET});
  }
  size_t nops() const { return ops.size(); }
  bool enabled(size_t) const { return true; }
  std::string title() const { return l.name; }
  std::string op_name(size_t i) const {
    static const char *n[] = {"set<static>",   "accessor<static>",
                              "set(dynamic)",  "erase<static>",
                              "erase(dynamic)", "set(loose)",
                              "erase(loose)",  "optimize",
                              "reset"};
    const Op &o = ops[i];
    std::string s = n[o.k];
    if (o.k < Op::LOOSE_SET)
      s += " " + l.fields[size_t(o.f)].name;
    if (o.k <= Op::DYNAMIC)
      s += " #" + std::to_string(o.v);
    return s;
  }
  static void put(std::string &s, uint32_t n) {
    s.append(reinterpret_cast<const char *>(&n), 4);
  }
  std::string model_bytes() const {
    std::string s;
    for (auto &c : model) {
      put(s, c.present);
      put(s, uint32_t(c.v.size()));
      s += c.v;
    }
    return s;
  }
  std::string save() const {
    return std::string(mem, mem_bytes) + model_bytes();
  }
  void restore(const std::string &s) {
    memcpy(mem, s.data(), mem_bytes);
    const char *p = s.data() + mem_bytes;
    for (auto &c : model) {
      uint32_t n;
      memcpy(&n, p, 4);
      c.present = n != 0;
      memcpy(&n, p + 4, 4);
      c.v.assign(p + 8, n);
      p += 8 + n;
    }
  }
  std::string key() const {
    const auto w = t->take_weak_asis();
    std::string k(static_cast<const char *>(w.data()), w.size());
    put(k, uint32_t(t->tail_space_units()));
    put(k, uint32_t(t->junk_units()));
    put(k, uint32_t(t->loose_count()));
    return k + model_bytes();
  }

  void apply(size_t i) {
    const Op &o = ops[i];
    const bool pre = o.k < Op::LOOSE_SET;
    const Field *f = pre ? &l.fields[size_t(o.f)] : nullptr;
    Cell *c = o.k < Op::OPTIMIZE ? &model[size_t(o.f)] : nullptr;
    bool hit = false;
    Val v;
    const Rc rc = fx::guarded([&] {
      switch (o.k) {
      case Op::SET:
        f->set(*t, v = f->dom[size_t(o.v)]);
        break;
      case Op::ACCESSOR:
        f->aset(*t, v = f->dom[size_t(o.v)]);
        break;
      case Op::DYNAMIC:
        fx::set(*t, f->dyn, v = f->dom[size_t(o.v)]);
        break;
      case Op::ERASE:
        hit = f->erase(*t);
        break;
      case Op::ERASE_DYNAMIC:
        hit = t->erase(f->dyn);
        break;
      case Op::LOOSE_SET:
        v = o.v ? "a rather long value of the loose field" : "b";
        t->set_string(loose, fx::sv(v));
        break;
      case Op::LOOSE_ERASE:
        hit = t->erase(loose);
        break;
      case Op::OPTIMIZE:
        t->take_weak_optimized();
        break;
      case Op::RESET:
        t->reset();
        break;
      }
    });
    // a junk may take away the room, so the refusal is legal for the rest
    if (rc == Rc::space &&
        (o.k == Op::LOOSE_SET || (pre && fx::is_stretchy(f->g))))
      return;
    MC_CHECK(rc == Rc::ok, "%s.%s: %s", l.name, op_name(i).c_str(),
             fx::rc_name(rc));
    switch (o.k) {
    case Op::SET:
    case Op::ACCESSOR:
    case Op::DYNAMIC:
    case Op::LOOSE_SET:
      *c = {true, v};
      break;
    case Op::ERASE:
    case Op::ERASE_DYNAMIC:
      MC_CHECK(hit == shown(*f, *c), "%s.%s: returns %d", l.name,
               op_name(i).c_str(), hit);
      *c = {false, initial_value(*f)};
      break;
    case Op::LOOSE_ERASE:
      MC_CHECK(hit == c->present, "erase of the loose field returns %d", hit);
      *c = {false, Val()};
      break;
    case Op::OPTIMIZE:
      break;
    case Op::RESET:
      model = model0;
      break;
    }
  }
  // a place of a fixed size without a discernible null is never absent
  static bool shown(const Field &f, const Cell &c) {
    if (fx::is_stretchy(f.g))
      return c.present && (f.dn || !fx::is_empty(f.g, c.v));
    return !f.dn || c.v != fx::denil(f.g);
  }

  template <class G> void same(const Field &f, const Cell &c, const char *way,
                               G &&get) {
    const bool there = shown(f, c);
    Val v;
    const Rc rc = fx::guarded([&] { v = get(); });
    if (!there && f.dn) {
      MC_CHECK(rc == Rc::absent, "%s.%s: %s of the absent field: %s", l.name,
               f.name.c_str(), way, fx::rc_name(rc));
      return;
    }
    MC_CHECK(rc == Rc::ok, "%s.%s: %s: %s", l.name, f.name.c_str(), way,
             fx::rc_name(rc));
    const Val want = there ? c.v : fx::empty_value(f.g);
    MC_CHECK(v == want, "%s.%s: %s gives %s instead of %s", l.name,
             f.name.c_str(), way, mc::hex(v).substr(0, 80).c_str(),
             mc::hex(want).substr(0, 80).c_str());
  }
  void structure(const void *p, const char *which) {
    for (size_t i = 0; i < l.fields.size(); ++i) {
      const Field &f = l.fields[i];
      const Cell &c = model[i];
      if (fx::is_stretchy(f.g)) {
        const bool there = shown(f, c);
        MC_CHECK(f.nil(p) == !there, "%s.%s: nil() inside of %s is %d", l.name,
                 f.name.c_str(), which, f.nil(p));
        const Val q = f.native_quiet(p);
        MC_CHECK(q == (there ? c.v : fx::empty_value(f.g)),
                 "%s.%s: value_nothrow() inside of %s is %s", l.name,
                 f.name.c_str(), which, mc::hex(q).substr(0, 80).c_str());
        Val v;
        const Rc rc = fx::guarded([&] { v = f.native(p); });
        MC_CHECK(rc == (there ? Rc::ok : Rc::absent) && (!there || v == c.v),
                 "%s.%s: value() inside of %s: %s %s", l.name, f.name.c_str(),
                 which, fx::rc_name(rc), mc::hex(v).substr(0, 80).c_str());
      } else {
        const Val v = f.native(p);
        MC_CHECK(v == c.v, "%s.%s: the member of %s is %s instead of %s",
                 l.name, f.name.c_str(), which,
                 mc::hex(v).substr(0, 80).c_str(),
                 mc::hex(c.v).substr(0, 80).c_str());
      }
    }
  }
  void check_initial() { check_state(); }
  void check_state() {
    const Rw &ct = *t;
    const auto asis = t->take_weak_asis();
    // exactly of its size, so that overruns are seen
    const size_t bytes = asis.size();
    std::unique_ptr<char[]> copy(new char[bytes]);
    memcpy(copy.get(), asis.data(), bytes);
    fptu::tuple_ro_weak w;
    const Rc rc = fx::guarded([&] {
      w = fptu::tuple_ro_weak(copy.get(), bytes, schema.get(),
                              fptu::enforce_validation);
    });
    MC_CHECK(rc == Rc::ok, "%s: the serialized tuple is refused", l.name);
    auto m = fptu::tuple_ro_managed::clone(asis, schema.get());
    auto o = Rw::clone(*t);
    o.take_weak_optimized();
    auto grown = Auto::clone(*t);
    const Rw &co = o;
    for (size_t i = 0; i < l.fields.size(); ++i) {
      const Field &f = l.fields[i];
      const Cell &c = model[i];
      same(f, c, "get<static>", [&] { return f.get(ct); });
      same(f, c, "get(dynamic)", [&] { return fx::get(ct, f.dyn); });
      same(f, c, "accessor<static>", [&] { return f.aget(ct); });
      same(f, c, "get<static> of the image", [&] { return f.weak_get(w); });
      same(f, c, "accessor<static> of the image",
           [&] { return f.weak_aget(w); });
      same(f, c, "get<static> of the managed", [&] { return f.managed_get(m); });
      same(f, c, "get<static> of the optimized", [&] { return f.get(co); });
      same(f, c, "get<static> of the growing",
           [&] { return f.grow_get(grown); });
      MC_CHECK(f.present(ct) == shown(f, c) &&
                   ct.is_present(f.dyn) == shown(f, c) &&
                   f.weak_present(w) == shown(f, c),
               "%s.%s: presence", l.name, f.name.c_str());
      const std::string a = f.convert(ct), b = conversions((*t)[f.dyn]);
      MC_CHECK(a == b,
               "%s.%s: conversions by the static token give %s and by the "
               "dynamic one %s",
               l.name, f.name.c_str(), a.c_str(), b.c_str());
    }
    structure(asis.payload(), "the writable tuple");
    structure(w.payload(), "the image");
    structure(m.payload(), "the managed tuple");
    structure(o.take_weak_asis().payload(), "the optimized tuple");
    if (l.loose) {
      const auto v = ct.get_string(loose);
      MC_CHECK(fptu::string_view(model.back().v.data(),
                                 model.back().v.size()) ==
                       fptu::string_view(v.data() ? v.data() : "", v.size()),
               "%s: the loose field beside is spoiled", l.name);
    }
    numbers();
  }
  // writing with conversions: on copies, by both kinds of tokens
  void numbers() {
    for (size_t i = 0; i < l.fields.size(); ++i) {
      const Field &f = l.fields[i];
      if (fx::is_stretchy(f.g))
        continue;
      for (int n = 0; n < NUMBERS; ++n) {
        const std::string before = save();
        const Rc a = f.set_number(*t, n);
        const std::string x = image();
        restore(before);
        const Rc b = fx::guarded([&] { write_number(*t, f.dyn, n); });
        const std::string y = image();
        restore(before);
        MC_CHECK(a == b && x == y,
                 "%s.%s: write with a conversion #%d by the static token: %s "
                 "and by the dynamic one: %s; results are %s",
                 l.name, f.name.c_str(), n, fx::rc_name(a), fx::rc_name(b),
                 x == y ? "equal" : "different");
      }
    }
  }
  std::string image() const {
    const auto w = t->take_weak_asis();
    return std::string(static_cast<const char *>(w.data()), w.size());
  }
};

//---------------------------------------------------------- growing tuple
// all the histories of a length: the static setters of a self-growing tuple
void growing(mc::Chooser &c, const Layout &l) {
  auto schema = schema_of(l);
  Auto t(0, 0, schema.get());
  std::vector<Val> model(l.fields.size());
  std::vector<bool> present(l.fields.size());
  for (size_t i = 0; i < l.fields.size(); ++i)
    model[i] = initial_value(l.fields[i]);
  std::string trace;
  const unsigned depth = mc::opt().thorough() ? 4 : 3;
  for (unsigned d = 0; d < depth; ++d) {
    const size_t i = c.choose(unsigned(l.fields.size()));
    const Field &f = l.fields[i];
    const unsigned v = c.choose(unsigned(f.dom.size()) + 1);
    mc::step(v);
    trace += (v ? " set " : " erase ") + f.name;
    mc::what("%s:%s", l.name, trace.c_str());
    const Rc rc = fx::guarded([&] {
      if (v) {
        f.grow_set(t, f.dom[v - 1]);
        model[i] = f.dom[v - 1];
        present[i] = true;
      } else {
        const bool was = t.is_present(f.dyn);
        MC_CHECK(f.grow_erase(t) == was, "%s:%s: result of erase", l.name,
                 trace.c_str());
        model[i] = initial_value(f);
        present[i] = false;
      }
    });
    MC_CHECK(rc == Rc::ok, "%s:%s: %s", l.name, trace.c_str(),
             fx::rc_name(rc));
  }
  for (size_t i = 0; i < l.fields.size(); ++i) {
    const Field &f = l.fields[i];
    const Sys::Cell cell{present[i], model[i]};
    const bool there = Sys::shown(f, cell);
    for (int dynamic = 0; dynamic < 2; ++dynamic) {
      Val v;
      const Rc rc = fx::guarded(
          [&] { v = dynamic ? fx::get(t, f.dyn) : f.grow_get(t); });
      if (!there && f.dn)
        MC_CHECK(rc == Rc::absent, "%s:%s: %s is not absent", l.name,
                 trace.c_str(), f.name.c_str());
      else
        MC_CHECK(rc == Rc::ok && v == (there ? model[i] : fx::empty_value(f.g)),
                 "%s:%s: %s is %s", l.name, trace.c_str(), f.name.c_str(),
                 mc::hex(v).substr(0, 80).c_str());
    }
    const auto w = t.take_weak_asis();
    if (!fx::is_stretchy(f.g))
      MC_CHECK(f.native(w.payload()) == model[i], "%s:%s: the member %s",
               l.name, trace.c_str(), f.name.c_str());
    else
      MC_CHECK(f.native_quiet(w.payload()) ==
                   (there ? model[i] : fx::empty_value(f.g)),
               "%s:%s: the member %s", l.name, trace.c_str(), f.name.c_str());
  }
}

//------------------------------------------------- any place of any type
// A field of a type at an offset between two bytes of neighbours and beside
// of another text: as the schema accepts it, everything have to work.
Val sample_of(genus g, unsigned n) {
  switch (g) {
  case fptu::text:
  case fptu::varbin:
    return n ? Val("some longer text") : Val("t");
  case fptu::nested:
    return nested_image();
  case fptu::property:
    return n ? prop(5, "property") : prop(-1, "");
  case fptu::mac:
    return fx::raw(uint64_t(n ? 0x0000010203040506u : 0x0000fffefdfcfbfau));
  case fptu::f32:
    return fx::raw(n ? 0.5f : -3.0f);
  case fptu::f64:
    return fx::raw(n ? 0.5 : -3.0);
  case fptu::d64:
    return fx::raw(uint64_t(n ? 0x0123456789abcdefu : 0x00ff00ff00ff00ffu));
  default: {
    Val v(fx::fixed_size(g), '\0');
    for (size_t i = 0; i < v.size(); ++i)
      v[i] = char(n ? 0x11 + i : 0x7f - i);
    return v;
  }
  }
}
void place(mc::Chooser &c) {
  const genus g = genus(c.choose(31));
  const size_t offset = c.choose(13);
  const bool dn = c.choose(2);
  const bool tail = c.choose(2); // the field is the last one of the schema
  if (!fx::is_stretchy(g) && !fx::fixed_size(g))
    return;
  mc::what("%s at the offset %zu", fx::gname(g), offset);
  const size_t size = fptu::details::preplaced_bytes(g);
  auto s = fptu::schema::create();
  token k = token(ptrdiff_t(offset), g, dn), left, right, text;
  if (offset)
    left = s->import_definition("left", token(ptrdiff_t(offset) - 1, fptu::u8));
  try {
    k = s->import_definition("field", k);
  } catch (const fptu::schema_definition_error &) {
    // only the unit-aligned ones are addressable
    MC_CHECK(fx::is_stretchy(g) && offset % 4,
             "%s at the offset %zu is refused by the schema", fx::gname(g),
             offset);
    mc::add(mc::shared()->outcomes);
    return;
  }
  if (!tail) {
    right = s->import_definition(
        "right", token(ptrdiff_t(offset + size), fptu::u8));
    text = s->define_preplaced("text", fptu::text);
  }
  Rw t(4, 200, s.get());
  auto check = [&](const char *when, const Val *v) {
    const Rc rc = fx::guarded([&] {
      if (v)
        MC_CHECK(fx::get(t, k) == *v, "%s at %zu, %s: the value is %s",
                 fx::gname(g), offset, when, mc::hex(fx::get(t, k)).c_str());
      MC_CHECK(t.is_present(k) == (v != nullptr), "%s at %zu, %s: presence",
               fx::gname(g), offset, when);
      if (offset)
        MC_CHECK(t.get_u8(left) == 0xA5, "%s at %zu, %s: the left neighbour",
                 fx::gname(g), offset, when);
      if (!tail) {
        MC_CHECK(t.get_u8(right) == 0x5A, "%s at %zu, %s: the right neighbour",
                 fx::gname(g), offset, when);
        MC_CHECK(t.get_string(text) == fptu::string_view("neighbour"),
                 "%s at %zu, %s: the text", fx::gname(g), offset, when);
      }
      const auto w = t.take_weak_asis();
      std::unique_ptr<char[]> copy(new char[w.size()]);
      memcpy(copy.get(), w.data(), w.size());
      fptu::tuple_ro_weak r(copy.get(), w.size(), s.get(),
                            fptu::enforce_validation);
      if (v)
        MC_CHECK(fx::get(r, k) == *v, "%s at %zu, %s: in the image",
                 fx::gname(g), offset, when);
      Rw o = Rw::clone(t);
      o.take_weak_optimized();
      if (v)
        MC_CHECK(fx::get(o, k) == *v, "%s at %zu, %s: after optimization",
                 fx::gname(g), offset, when);
    });
    MC_CHECK(rc == Rc::ok, "%s at %zu, %s: %s", fx::gname(g), offset, when,
             fx::rc_name(rc));
  };
  if (offset)
    t.set_u8(left, 0xA5);
  if (!tail) {
    t.set_u8(right, 0x5A);
    t.set_string(text, fptu::string_view("neighbour"));
  }
  // a place of a fixed size without a discernible null is never absent
  const Val zero = fx::empty_value(g);
  const Val *const nothing = fx::is_stretchy(g) || dn ? nullptr : &zero;
  check("initially", nothing);
  const Val a = sample_of(g, 0), b = sample_of(g, 1);
  for (const Val *v : {&a, &b, &a}) {
    const Rc rc = fx::guarded([&] { fx::set(t, k, *v); });
    MC_CHECK(rc == Rc::ok, "set %s at %zu: %s", fx::gname(g), offset,
             fx::rc_name(rc));
    check("after set", v);
    mc::step(1);
  }
  if (!tail) {
    t.set_string(text, fptu::string_view("temporary longer neighbour"));
    t.set_string(text, fptu::string_view("neighbour"));
    check("after an update beside", &a);
  }
  MC_CHECK(t.erase(k), "erase of %s at %zu", fx::gname(g), offset);
  check("after erase", nothing);
  fx::set(t, k, b);
  check("after set again", &b);
  mc::add(mc::shared()->outcomes);
}

// a structure used in the plainest way, see native_plain.cxx
enum { HISTORY, GROWING, PLACE, PLAIN };
} // namespace
std::string native_plain(const std::vector<unsigned> &ops, bool growing);
unsigned native_plain_ops();
namespace {
void plain_use(mc::Chooser &c, bool growing) {
  std::vector<unsigned> ops;
  for (unsigned d = 0; d < (mc::opt().thorough() ? 5u : 4u); ++d)
    ops.push_back(c.choose(native_plain_ops()));
  mc::step(ops.size());
  const std::string trouble = native_plain(ops, growing);
  MC_CHECK(trouble.empty(), "%s", trouble.c_str());
}
void body(mc::Chooser &c, const mc::Item &i) {
  if (i.a == GROWING)
    growing(c, layout(i.b));
  else if (i.a == PLACE)
    place(c);
  else
    plain_use(c, i.b != 0);
}
} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    const size_t n = layouts().size();
    for (unsigned k : {HISTORY, GROWING})
      for (size_t i = 0; i < n; ++i) {
        mc::Item it;
        it.name = std::string(k ? "growing-" : "history-") + layout(i).name;
        it.a = k;
        it.b = unsigned(i);
        r.push_back(it);
      }
    mc::Item it;
    it.name = "places";
    it.a = PLACE;
    r.push_back(it);
    for (unsigned k = 0; k < 2; ++k) {
      it.name = k ? "plain-growing" : "plain";
      it.a = PLAIN;
      it.b = k;
      r.push_back(it);
    }
    return r;
  };
  h.run = [](const mc::Item &i) {
    if (i.a == HISTORY) {
      Sys sys(layout(i.b));
      mc::BfsLimits lim;
      lim.max_states = 2000000;
      // the ones with texts have too many arrangements for a fixpoint
      for (auto &f : layout(i.b).fields)
        if (fx::is_stretchy(f.g))
          lim.depth = mc::opt().thorough() ? 7 : 4;
      mc::bfs(sys, lim);
      return;
    }
    mc::dfs([&](mc::Chooser &c) { body(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(i.name + ": " + mc::slot()->what);
  };
  h.replay = [](const mc::Item &i, const std::vector<uint32_t> &path) {
    if (i.a == HISTORY) {
      Sys sys(layout(i.b));
      mc::replay_path(sys, path);
      return;
    }
    mc::dfs_replay(path, [&](mc::Chooser &c) { body(c, i); });
  };
  h.describe_space = [] {
    return std::string("9 structures, their static and dynamic tokens, "
                       "accessors and members");
  };
  return mc::main_(argc, argv, h);
}
