// Type-directed adapters between canonical byte-string values and the public
// libfptu C++ API.  Only public, documented entry points are used.
#pragma once
#include "fast_positive/tuples.h"
#include "mc.hpp"
#include <string>

namespace fx {
using fptu::genus;
using Val = std::string; // canonical bytes of a value

template <class T> inline Val raw(const T &v) {
  return Val(reinterpret_cast<const char *>(&v), sizeof(T));
}
template <class T> inline T unraw(const Val &v) {
  T t;
  if (v.size() != sizeof(T))
    mc::fail("harness: value size %zu instead of %zu", v.size(), sizeof(T));
  memcpy(&t, v.data(), sizeof(T));
  return t;
}

// all the decimal representations of zero are the same value
inline Val canon(genus g, Val v) {
  if (g == fptu::d64 && unraw<fptu::decimal64>(v) == fptu::decimal64(0))
    return Val(8, '\0');
  return v;
}

inline bool is_stretchy(genus g) { return g <= fptu::property; }
inline bool is_inplaced(genus g) {
  return g == fptu::i8 || g == fptu::u8 || g == fptu::i16 || g == fptu::u16;
}
inline size_t fixed_size(genus g) {
  switch (g) {
  case fptu::i8:
  case fptu::u8:
    return 1;
  case fptu::i16:
  case fptu::u16:
    return 2;
  case fptu::i32:
  case fptu::u32:
  case fptu::f32:
  case fptu::t32:
    return 4;
  case fptu::i64:
  case fptu::u64:
  case fptu::f64:
  case fptu::d64:
  case fptu::t64:
  case fptu::mac:
    return 8;
  case fptu::bin96:
    return 12;
  case fptu::bin128:
  case fptu::ip:
    return 16;
  case fptu::bin160:
    return 20;
  case fptu::bin192:
    return 24;
  case fptu::bin224:
    return 28;
  case fptu::bin256:
    return 32;
  case fptu::bin320:
    return 40;
  case fptu::bin384:
    return 48;
  case fptu::bin512:
    return 64;
  case fptu::ipnet:
    return 17;
  default:
    return 0;
  }
}
inline const char *gname(genus g) {
  static const char *n[] = {
      "text",   "varbin", "nested", "property", "i8",     "u8",     "i16",
      "u16",    "i32",    "u32",    "f32",      "t32",    "i64",    "u64",
      "f64",    "d64",    "t64",    "bin96",    "bin128", "bin160", "bin192",
      "bin224", "bin256", "bin320", "bin384",   "bin512", "app64",  "app128",
      "mac",    "ip",     "ipnet",  "hole"};
  return n[unsigned(g) & 31];
}

// payload units a value of this genus occupies outside of its descriptor,
// written from the documented layout (tiny/long strings, {id,len} properties,
// whole-unit binary data)
inline size_t payload_units(genus g, const Val &v) {
  switch (g) {
  case fptu::text:
    return v.size() <= 253 ? (1 + v.size() + 3) / 4 : (3 + v.size() + 3) / 4;
  case fptu::varbin:
    return 1 + (v.size() + 3) / 4;
  case fptu::nested:
    return v.empty() ? 1 : v.size() / 4;
  case fptu::property:
    return (2 + (v.size() - 1) + 3) / 4;
  default:
    if (is_inplaced(g))
      return 0;
    return (fixed_size(g) + 3) / 4;
  }
}

// natural empty value
inline Val empty_value(genus g) {
  if (g == fptu::text || g == fptu::varbin || g == fptu::nested)
    return Val();
  if (g == fptu::property)
    return Val(1, '\0');
  return Val(fixed_size(g), '\0');
}
inline bool is_empty(genus g, const Val &v) { return v == empty_value(g); }

// designated null for preplaced fixed-size fields
inline Val denil(genus g) {
  switch (g) {
  case fptu::i8:
    return raw(int8_t(INT8_MIN));
  case fptu::i16:
    return raw(int16_t(INT16_MIN));
  case fptu::i32:
    return raw(int32_t(INT32_MIN));
  case fptu::i64:
    return raw(int64_t(INT64_MIN));
  case fptu::f32:
    return Val(4, '\xff');
  case fptu::f64:
  case fptu::d64:
    return Val(8, '\xff');
  default:
    return Val(fixed_size(g), '\0');
  }
}

inline fptu::string_view sv(const Val &v, size_t skip = 0) {
  return fptu::string_view(v.data() + skip, v.size() - skip);
}

struct Img : std::string {}; // tuple image, 4-byte aligned storage helper
inline fptu::tuple_ro_weak weak_of(const Val &image,
                                   std::vector<uint32_t> &storage) {
  if (image.empty())
    return fptu::tuple_ro_weak();
  storage.assign((image.size() + 3) / 4, 0);
  memcpy(storage.data(), image.data(), image.size());
  return fptu::tuple_ro_weak(storage.data(), image.size(), nullptr,
                             fptu::enforce_skip_validation);
}

// X(genus, c++ type, suffix)
#define FX_POD_TYPES(X)                                                        \
  X(fptu::i8, int8_t, i8)                                                      \
  X(fptu::u8, uint8_t, u8)                                                     \
  X(fptu::i16, int16_t, i16)                                                   \
  X(fptu::u16, uint16_t, u16)                                                  \
  X(fptu::i32, int32_t, i32)                                                   \
  X(fptu::u32, uint32_t, u32)                                                  \
  X(fptu::f32, float, f32)                                                     \
  X(fptu::i64, int64_t, i64)                                                   \
  X(fptu::u64, uint64_t, u64)                                                  \
  X(fptu::f64, double, f64)                                                    \
  X(fptu::d64, fptu::decimal64, decimal)                                       \
  X(fptu::bin96, fptu::binary96_t, bin96)                                      \
  X(fptu::bin128, fptu::binary128_t, bin128)                                   \
  X(fptu::bin160, fptu::binary160_t, bin160)                                   \
  X(fptu::bin192, fptu::binary192_t, bin192)                                   \
  X(fptu::bin224, fptu::binary224_t, bin224)                                   \
  X(fptu::bin256, fptu::binary256_t, bin256)                                   \
  X(fptu::bin320, fptu::binary320_t, bin320)                                   \
  X(fptu::bin384, fptu::binary384_t, bin384)                                   \
  X(fptu::bin512, fptu::binary512_t, bin512)                                   \
  X(fptu::mac, fptu::mac_address_t, mac_address)                               \
  X(fptu::ip, fptu::ip_address_t, ip_address)                                  \
  X(fptu::ipnet, fptu::ip_net_t, ip_net)

// canonical value of a t32 field is 4 bytes of utc seconds, of a t64 field the
// 8 bytes of fixed point
inline fptu::datetime_t dt_from(genus g, const Val &v) {
  return g == fptu::t32 ? fptu::datetime_t::from_seconds(unraw<uint32_t>(v))
                        : fptu::datetime_t::from_fixedpoint_32dot32(
                              unraw<uint64_t>(v));
}
inline Val dt_to(genus g, const fptu::datetime_t &t) {
  return g == fptu::t32 ? raw(uint32_t(t.fixedpoint_32dot32() >> 32))
                        : raw(uint64_t(t.fixedpoint_32dot32()));
}

inline Val nested_val(const fptu::tuple_ro_weak &w) {
  return w ? Val(static_cast<const char *>(w.data()), w.size()) : Val();
}

// ---- reading -------------------------------------------------------------
// T: any object with get_xxx(token), K: a dynamic or static token
template <class T, class K> Val get(const T &t, const K &k) {
  switch (k.type()) {
  case fptu::text: {
    auto s = t.get_string(k);
    return Val(s.data(), s.size());
  }
  case fptu::varbin: {
    auto s = t.get_varbinary(k);
    return Val(s.data(), s.size());
  }
  case fptu::property: {
    auto p = t.get_property(k);
    Val r(1, char(p.second));
    r.append(p.first.data(), p.first.size());
    return r;
  }
  case fptu::nested:
    return nested_val(t.get_nested_weak(k));
  case fptu::t32:
  case fptu::t64:
    return dt_to(k.type(), t.get_datetime(k));
#define X(G, T_, N)                                                            \
  case G: {                                                                    \
    const T_ v = t.get_##N(k);                                                 \
    return canon(G, raw(v));                                                   \
  }
    FX_POD_TYPES(X)
#undef X
  default:
    mc::fail("harness: get of unsupported genus %u", unsigned(k.type()));
  }
}

// A: accessor_ro<token> or accessor_rw<token>
template <class A> Val aget(const A &a) {
  switch (a.type()) {
  case fptu::text: {
    auto s = a.get_string();
    return Val(s.data(), s.size());
  }
  case fptu::varbin: {
    auto s = a.get_varbinary();
    return Val(s.data(), s.size());
  }
  case fptu::property: {
    auto p = a.get_property();
    Val r(1, char(p.second));
    r.append(p.first.data(), p.first.size());
    return r;
  }
  case fptu::nested: {
    const fptu::details::tuple_ro *n = a.get_nested();
    return n ? Val(static_cast<const char *>(n->data()), n->size()) : Val();
  }
  case fptu::t32:
  case fptu::t64:
    return dt_to(a.type(), a.get_datetime());
#define X(G, T_, N)                                                            \
  case G: {                                                                    \
    const T_ v = a.get_##N();                                                  \
    return canon(G, raw(v));                                                   \
  }
    FX_POD_TYPES(X)
#undef X
  default:
    mc::fail("harness: aget of unsupported genus %u", unsigned(a.type()));
  }
}

// ---- writing -------------------------------------------------------------
template <class T, class K> void set(T &t, const K &k, const Val &v) {
  std::vector<uint32_t> st;
  switch (k.type()) {
  case fptu::text:
    return t.set_string(k, sv(v));
  case fptu::varbin:
    return t.set_varbinary(k, sv(v));
  case fptu::property:
    return t.set_property(k, fptu::property_pair(sv(v, 1), int8_t(v[0])));
  case fptu::nested:
    return t.set_nested(k, weak_of(v, st));
  case fptu::t32:
  case fptu::t64:
    return t.set_datetime(k, dt_from(k.type(), v));
#define X(G, T_, N)                                                            \
  case G:                                                                      \
    return t.set_##N(k, unraw<T_>(v));
    FX_POD_TYPES(X)
#undef X
  default:
    mc::fail("harness: set of unsupported genus %u", unsigned(k.type()));
  }
}

template <class T> void insert(T &t, const fptu::token &k, const Val &v) {
  std::vector<uint32_t> st;
  switch (k.type()) {
  case fptu::text:
    t.insert_string(k, sv(v));
    return;
  case fptu::varbin:
    t.insert_varbinary(k, sv(v));
    return;
  case fptu::property:
    t.insert_property(k, fptu::property_pair(sv(v, 1), int8_t(v[0])));
    return;
  case fptu::nested:
    t.insert_nested(k, weak_of(v, st));
    return;
  case fptu::t32:
  case fptu::t64:
    t.insert_datetime(k, dt_from(k.type(), v));
    return;
#define X(G, T_, N)                                                            \
  case G:                                                                      \
    t.insert_##N(k, unraw<T_>(v));                                             \
    return;
    FX_POD_TYPES(X)
#undef X
  default:
    mc::fail("harness: insert of unsupported genus %u", unsigned(k.type()));
  }
}

// accessor_rw
template <class A> void aset(A &a, const Val &v) {
  std::vector<uint32_t> st;
  switch (a.type()) {
  case fptu::text:
    return a.set_string(sv(v));
  case fptu::varbin:
    return a.set_varbinary(sv(v));
  case fptu::property:
    return a.set_property(fptu::property_pair(sv(v, 1), int8_t(v[0])));
  case fptu::nested:
    return a.set_nested(weak_of(v, st).get_impl());
  case fptu::t32:
  case fptu::t64:
    return a.set_datetime(dt_from(a.type(), v));
#define X(G, T_, N)                                                            \
  case G:                                                                      \
    return a.set_##N(unraw<T_>(v));
    FX_POD_TYPES(X)
#undef X
  default:
    mc::fail("harness: aset of unsupported genus %u", unsigned(a.type()));
  }
}

enum class Rc { ok, absent, space, mismatch, range, too_long, coll, other };
inline const char *rc_name(Rc r) {
  static const char *n[] = {"ok",    "field_absent",   "insufficient_space",
                            "type_mismatch", "value_range", "value_too_long",
                            "collection_required/unallowed", "other exception"};
  return n[int(r)];
}
template <class F> Rc guarded(F &&f, std::string *msg = nullptr) {
  try {
    f();
    return Rc::ok;
  } catch (const fptu::field_absent &) {
    return Rc::absent;
  } catch (const fptu::insufficient_space &) {
    return Rc::space;
  } catch (const fptu::type_mismatch &) {
    return Rc::mismatch;
  } catch (const fptu::value_out_of_range &) {
    return Rc::range;
  } catch (const fptu::value_too_long &) {
    return Rc::too_long;
  } catch (const fptu::collection_required &) {
    return Rc::coll;
  } catch (const fptu::collection_unallowed &) {
    return Rc::coll;
  } catch (const std::exception &e) {
    if (msg)
      *msg = e.what();
    return Rc::other;
  }
}
} // namespace fx
