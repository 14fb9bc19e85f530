// P10: histories of handles (shared read-only and exclusive writable) over
// managed buffers, with failing allocations, against a reference model.
#include "mc.hpp"

#include "fast_positive/tuples.h"
#include "fast_positive/tuples/1Hippeus/buffer.h"
#include <new>
#include <sanitizer/asan_interface.h>

using fptu::tuple_ro_managed;
using fptu::tuple_ro_weak;
using fptu::tuple_rw_fixed;
using fptu::tuple_rw_managed;
using hippeus::buffer;

namespace {

//---------------------------------------------------------------- allocators
enum { SLOTS = 10, SLOT = 3072, MAXR = 3, MAXW = 2 };
struct Meta {
  uint8_t live, owner;
  uint16_t pad;
  uint32_t bytes;
};
alignas(64) char pool[SLOTS][SLOT];
Meta meta[SLOTS];
int fail_in; // the n-th allocation from now fails, 0: none
bool failed;
unsigned borrowed;

hippeus_buffer_t *borrow(hippeus_allot_t *a, size_t wanna, bool, hippeus_actor_t);
void repay(hippeus_allot_t *a, hippeus_buffer_t *b, hippeus_actor_t);
bool valid(const hippeus_allot_t *, bool, bool) { return true; }
hippeus_allot_t allots[2] = {{SLOT, 0, borrow, repay, valid},
                             {SLOT, 0, borrow, repay, valid}};
hippeus::buffer_tag tag(unsigned i) {
  return hippeus::buffer_tag(&allots[i], false);
}

hippeus_buffer_t *borrow(hippeus_allot_t *a, size_t wanna, bool,
                         hippeus_actor_t) {
  ++borrowed;
  if (fail_in && --fail_in == 0) {
    failed = true;
    throw std::bad_alloc();
  }
  const size_t bytes = wanna + hippeus::buffer_solid::space_overhead();
  if (bytes > SLOT)
    mc::harness_error("slot of the allocator is too small: %zu", bytes);
  for (unsigned i = 0; i < SLOTS; ++i)
    if (!meta[i].live) {
      ASAN_UNPOISON_MEMORY_REGION(pool[i], bytes);
      memset(pool[i], 0xCD, bytes);
      meta[i] = {1, uint8_t(a - allots), 0, uint32_t(bytes)};
      return new (pool[i])
          hippeus::buffer_solid(tag(unsigned(a - allots)), bytes);
    }
  mc::harness_error("out of slots of the allocator");
}
int slot_of(const void *p) {
  const char *c = static_cast<const char *>(p);
  if (c < pool[0] || c >= pool[0] + sizeof pool)
    return -1;
  return int((c - pool[0]) / SLOT);
}
void repay(hippeus_allot_t *a, hippeus_buffer_t *b, hippeus_actor_t) {
  const int i = slot_of(b);
  MC_CHECK(i >= 0 && reinterpret_cast<char *>(b) == pool[i],
           "something which is not a buffer is returned to the allocator");
  MC_CHECK(meta[i].live, "a buffer is freed twice");
  MC_CHECK(a == &allots[meta[i].owner],
           "a buffer is returned to an allocator of another one");
  meta[i].live = 0;
  ASAN_POISON_MEMORY_REGION(pool[i], SLOT);
}

//--------------------------------------------------------------------- model
// fields: A is u32, N is nested, P is preplaced u32 of the schema
const fptu::token &tkA() {
  static const fptu::token t(fptu::u32, 1, false);
  return t;
}
const fptu::token &tkN() {
  static const fptu::token t(fptu::nested, 2, false);
  return t;
}
fptu::schema *the_schema() {
  static std::unique_ptr<fptu::schema> s = [] {
    auto p = fptu::schema::create();
    p->define_preplaced("P", fptu::u32);
    p->define_loose("A", fptu::u32);
    p->define_loose("N", fptu::nested);
    return p;
  }();
  return s.get();
}
// no content of the explored histories conforms to this one
fptu::schema *alien_schema() {
  static std::unique_ptr<fptu::schema> s = [] {
    auto p = fptu::schema::create();
    for (const char *n : {"P", "Q", "R", "S", "T", "U", "V", "W"})
      p->define_preplaced(n, fptu::bin256);
    p->define_loose("A", fptu::u32);
    p->define_loose("N", fptu::nested);
    return p;
  }();
  return s.get();
}
fptu::token tkP() { return the_schema()->get_token("P"); }
fptu::token tkAs() { return the_schema()->get_token("A"); }
fptu::token tkNs() { return the_schema()->get_token("N"); }

struct Content {
  uint8_t valid = 0;   // a tuple is there
  uint8_t schema = 0;  // the schema known for the writable form
  uint8_t preplaced = 0; // has preplaced fields
  uint8_t a = 0, n = 0, p = 0;
  uint8_t alias = 0; // a part of a writable tuple, its content is not promised
  uint8_t holes = 0;
};
bool operator==(const Content &x, const Content &y) {
  return !memcmp(&x, &y, sizeof x);
}

const std::string &nested_bytes() {
  static const std::string s = [] {
    tuple_rw_fixed t(4, 64, nullptr);
    t.set_u32(tkA(), 7);
    auto w = t.take_weak_asis();
    return std::string(static_cast<const char *>(w.data()), w.size());
  }();
  return s;
}

enum Kind {
  R_COPY, R_MOVE, R_CTOR_COPY, R_CTOR_MOVE, R_PURGE, R_SWAP, R_CLONE,
  R_CLONE_WEAK, R_BYTES, R_NESTED, R_NESTED_EXPL, R_FROM_W_CLONE,
  R_FROM_W_OPT, R_FROM_W_MOVE, R_FROM_W_CTOR, R_FROM_W_NESTED, R_CLONE_W,
  W_NEW, W_PURGE, W_MOVE, W_SWAP, W_FROM_R, W_FROM_R_CTOR, W_FROM_R_MANAGED,
  W_CLONE_R, W_CLONE_WEAK, W_CLONE_W, W_BYTES, W_SET_A, W_ERASE_A, W_SET_N,
  W_ERASE_N, W_SET_P, W_COMPACT
};
const char *const kind_name[] = {
    "r=copy", "r=move", "r(copy)", "r(move)", "r.purge", "r.swap", "r=clone",
    "r=clone-weak", "r=bytes", "r=nested", "r=nested-of-master",
    "r=w.take_managed_clone_asis", "r=w.take_managed_clone_optimized",
    "r=move(w)", "r=w.move_to_ro", "r=w.nested", "r=clone(w)", "w=new",
    "w.purge", "w=move(w)", "w.swap", "w=move(r)", "w(move(r))",
    "w=rw_managed(move(r))", "w=clone(r)", "w=clone-weak(r)", "w=clone(w)",
    "w=bytes(r)", "w.A=", "w.erase A", "w.N=", "w.erase N", "w.P=",
    "w.compactify"};

struct Op {
  Kind k;
  uint8_t i, j, x, y, fault;
};

struct Sys {
  unsigned nr, nw, flavor;
  alignas(tuple_ro_managed) char rmem[MAXR][sizeof(tuple_ro_managed)];
  alignas(tuple_rw_managed) char wmem[MAXW][sizeof(tuple_rw_managed)];
  Content mr[MAXR], mw[MAXW];
  std::vector<Op> ops;

  tuple_ro_managed &R(unsigned i) {
    return *reinterpret_cast<tuple_ro_managed *>(rmem[i]);
  }
  tuple_rw_fixed &W(unsigned i) {
    return *reinterpret_cast<tuple_rw_fixed *>(wmem[i]);
  }

  Sys(unsigned nr_, unsigned nw_, unsigned flavor_)
      : nr(nr_), nw(nw_), flavor(flavor_) {
    the_schema();
    alien_schema();
    nested_bytes();
    // the tuples made implicitly must use our allocator too
    fptu::defaults::setup(fptu::tiny, nullptr, tag(0));
    memset(meta, 0, sizeof meta);
    ASAN_POISON_MEMORY_REGION(pool, sizeof pool);
    for (unsigned i = 0; i < MAXR; ++i)
      new (rmem[i]) tuple_ro_managed();
    for (unsigned i = 0; i < MAXW; ++i) {
      new (wmem[i]) tuple_rw_fixed(2, 32, nullptr, tag(0));
      W(i).purge();
    }
    const unsigned schemas = flavor & 1 ? 2 : 1;
    const unsigned tags = flavor & 2 ? 2 : 1;
    auto add = [&](Kind k, unsigned i, unsigned j, unsigned x = 0,
                   unsigned y = 0, unsigned allocations = 0) {
      for (unsigned f = 0; f <= allocations; ++f)
        ops.push_back({k, uint8_t(i), uint8_t(j), uint8_t(x), uint8_t(y),
                       uint8_t(f)});
    };
    for (unsigned i = 0; i < nr; ++i) {
      add(R_PURGE, i, 0);
      for (unsigned j = 0; j < nr; ++j) {
        add(R_COPY, i, j);
        add(R_MOVE, i, j);
        add(R_CTOR_COPY, i, j);
        if (i != j)
          add(R_CTOR_MOVE, i, j);
        if (i <= j)
          add(R_SWAP, i, j);
        // including an alien schema, which must be refused
        for (unsigned s = 0; s < (schemas > 1 ? 3u : 1u); ++s)
          for (unsigned t = 0; t < tags; ++t) {
            add(R_CLONE, i, j, s, t, 1);
            add(R_CLONE_WEAK, i, j, s, t, 1);
            add(R_BYTES, i, j, s, t, 1);
          }
        add(R_NESTED, i, j);
        add(R_NESTED_EXPL, i, j);
      }
      for (unsigned j = 0; j < nw; ++j) {
        for (unsigned t = 0; t < tags; ++t) {
          add(R_FROM_W_CLONE, i, j, 0, t, 1);
          add(R_FROM_W_CLONE, i, j, 1, t, 1);
          add(R_FROM_W_OPT, i, j, 0, t, 1);
          add(R_CLONE_W, i, j, 0, t, 1);
        }
        add(R_FROM_W_MOVE, i, j);
        add(R_FROM_W_CTOR, i, j);
        add(R_FROM_W_NESTED, i, j);
      }
    }
    for (unsigned i = 0; i < nw; ++i) {
      for (unsigned s = 0; s < schemas; ++s)
        for (unsigned t = 0; t < tags; ++t)
          add(W_NEW, i, 0, s, t, 1);
      add(W_PURGE, i, 0);
      for (unsigned j = 0; j < nw; ++j) {
        add(W_MOVE, i, j);
        if (i <= j)
          add(W_SWAP, i, j);
        for (unsigned t = 0; t < tags; ++t)
          add(W_CLONE_W, i, j, 0, t, 1);
      }
      for (unsigned j = 0; j < nr; ++j) {
        add(W_FROM_R, i, j, 0, 0, 1);
        add(W_FROM_R_CTOR, i, j, 0, 0, 1);
        add(W_FROM_R_MANAGED, i, j);
        for (unsigned s = 0; s < schemas; ++s)
          for (unsigned t = 0; t < tags; ++t) {
            add(W_CLONE_R, i, j, s, t, 1);
            add(W_CLONE_WEAK, i, j, s, t, 1);
            add(W_BYTES, i, j, s, t, 1);
          }
      }
      add(W_SET_A, i, 0, 1);
      add(W_SET_A, i, 0, 2);
      add(W_ERASE_A, i, 0);
      add(W_SET_N, i, 0);
      add(W_ERASE_N, i, 0);
      add(W_COMPACT, i, 0);
      if (schemas > 1)
        add(W_SET_P, i, 0, 3);
    }
  }

  std::string title() {
    return "r" + std::to_string(nr) + "w" + std::to_string(nw) + "f" +
           std::to_string(flavor);
  }
  std::string op_name(size_t n) {
    const Op &o = ops[n];
    char b[128];
    snprintf(b, sizeof b, "%s %u<-%u x%u tag%u%s", kind_name[o.k], o.i, o.j,
             o.x, o.y, o.fault ? " failing allocation" : "");
    return b;
  }
  size_t nops() { return ops.size(); }
  bool enabled(size_t n) {
    const Op &o = ops[n];
    switch (o.k) {
    // these need a tuple by the contract (an empty handle is dereferenced)
    case R_FROM_W_CLONE:
    case R_FROM_W_OPT:
    case R_FROM_W_NESTED:
    case R_CLONE_W:
    case R_FROM_W_MOVE:
    case R_FROM_W_CTOR:
      return mw[o.j].valid;
    case W_SET_A:
    case W_ERASE_A:
    case W_SET_N:
    case W_ERASE_N:
    case W_COMPACT:
      return mw[o.i].valid;
    case W_SET_P:
      return mw[o.i].valid && mw[o.i].preplaced;
    case R_NESTED:
    case R_NESTED_EXPL:
      return mr[o.j].valid && !mr[o.j].alias;
    case R_BYTES:
    case W_BYTES:
      return mr[o.j].valid && !mr[o.j].alias;
    case W_FROM_R_MANAGED: // noexcept: the source has to be a tuple
      return mr[o.j].valid && !mr[o.j].alias;
    case R_CLONE:
    case R_CLONE_WEAK:
    case W_CLONE_R:
    case W_CLONE_WEAK:
    case W_FROM_R:
    case W_FROM_R_CTOR:
      return !mr[o.j].alias;
    default:
      return true;
    }
  }

  std::string save() {
    std::string s;
    s.append(reinterpret_cast<char *>(rmem), sizeof rmem);
    s.append(reinterpret_cast<char *>(wmem), sizeof wmem);
    s.append(reinterpret_cast<char *>(mr), sizeof mr);
    s.append(reinterpret_cast<char *>(mw), sizeof mw);
    s.append(reinterpret_cast<char *>(meta), sizeof meta);
    for (unsigned i = 0; i < SLOTS; ++i)
      if (meta[i].live)
        s.append(pool[i], meta[i].bytes);
    return s;
  }
  void restore(const std::string &s) {
    const char *p = s.data();
    auto get = [&](void *to, size_t n) {
      memcpy(to, p, n);
      p += n;
    };
    get(rmem, sizeof rmem);
    get(wmem, sizeof wmem);
    get(mr, sizeof mr);
    get(mw, sizeof mw);
    get(meta, sizeof meta);
    for (unsigned i = 0; i < SLOTS; ++i) {
      ASAN_POISON_MEMORY_REGION(pool[i], SLOT);
      if (meta[i].live) {
        ASAN_UNPOISON_MEMORY_REGION(pool[i], meta[i].bytes);
        get(pool[i], meta[i].bytes);
      }
    }
  }
  // names of buffers in the order of handles, contents and layouts
  std::string key() {
    std::string s;
    int names[SLOTS], next = 0;
    memset(names, -1, sizeof names);
    auto name = [&](const void *b) {
      const int i = b ? slot_of(b) : -1;
      if (i < 0)
        return int8_t(-1);
      if (names[i] < 0) {
        names[i] = next++;
        s += 'B';
        s.append(reinterpret_cast<char *>(&meta[i].owner), 1);
        s.append(reinterpret_cast<char *>(&meta[i].bytes), 4);
        const buffer *bb = reinterpret_cast<const buffer *>(pool[i]);
        const int32_t ref = bb->ref_counter;
        s.append(reinterpret_cast<const char *>(&ref), 4);
      }
      return int8_t(names[i]);
    };
    for (unsigned i = 0; i < nr; ++i) {
      const auto b = R(i).get_buffer();
      s += char(name(b));
      s.append(reinterpret_cast<char *>(&mr[i]), sizeof(Content));
      if (b) {
        const uint16_t off =
            uint16_t(reinterpret_cast<const char *>(R(i).get_impl()) -
                     reinterpret_cast<const char *>(b));
        s.append(reinterpret_cast<const char *>(&off), 2);
        if (!mr[i].alias)
          s.append(static_cast<const char *>(R(i).data()), R(i).size());
      }
    }
    for (unsigned i = 0; i < nw; ++i) {
      const auto b = W(i) ? W(i).get_buffer() : nullptr;
      s += char(name(b));
      s.append(reinterpret_cast<char *>(&mw[i]), sizeof(Content));
      if (b) {
        const uint16_t q[] = {uint16_t(W(i).head_space()),
                              uint16_t(W(i).tail_space_units()),
                              uint16_t(W(i).junk_units()),
                              uint16_t(W(i).loose_count()),
                              uint16_t(W(i).capacity())};
        s.append(reinterpret_cast<const char *>(q), sizeof q);
        const auto w = W(i).take_weak_asis();
        s.append(static_cast<const char *>(w.data()), w.size());
      }
    }
    return s;
  }

  template <class T> Content read(const T &t, const Content &like) {
    Content c = like; // takes what is not observable
    c.valid = 1;
    c.preplaced = t.have_preplaced();
    c.p = c.preplaced ? uint8_t(t.get_u32(tkP())) : 0;
    const fptu::token a = c.preplaced ? tkAs() : tkA();
    const fptu::token n = c.preplaced ? tkNs() : tkN();
    c.a = t.is_present(a) ? uint8_t(t.get_u32(a)) : 0;
    c.n = 0;
    if (t.is_present(n)) {
      c.n = 1;
      auto w = t.get_nested_weak(n);
      MC_CHECK(w && w.size() == nested_bytes().size() &&
                   !memcmp(w.data(), nested_bytes().data(), w.size()),
               "the nested tuple differs from the stored one");
    }
    return c;
  }
  static std::string show(const Content &c) {
    char b[96];
    snprintf(b, sizeof b, "{%s A=%u N=%u P=%u preplaced=%u schema=%u}",
             c.valid ? "tuple" : "empty", c.a, c.n, c.p, c.preplaced,
             c.schema);
    return b;
  }

  void check_all(const char *when) {
    int refs[SLOTS] = {};
    for (unsigned i = 0; i < nr; ++i) {
      const auto b = R(i).get_buffer();
      MC_CHECK(bool(R(i)) == bool(mr[i].valid),
               "%s: read-only handle %u is %s but expected %s", when, i,
               R(i) ? "a tuple" : "empty", mr[i].valid ? "a tuple" : "empty");
      MC_CHECK(bool(b) == bool(mr[i].valid),
               "%s: read-only handle %u: a tuple without a buffer or vice "
               "versa",
               when, i);
      if (!b)
        continue;
      const int s = slot_of(b);
      MC_CHECK(s >= 0 && meta[s].live,
               "%s: read-only handle %u refers to a freed buffer", when, i);
      ++refs[s];
      if (mr[i].alias)
        continue;
      const char *bad = R(i).take_weak().validate(
          mr[i].preplaced ? the_schema() : nullptr, false);
      MC_CHECK(!bad, "%s: tuple of the read-only handle %u: %s", when, i, bad);
      const Content c = read(R(i), mr[i]);
      MC_CHECK(c == mr[i], "%s: read-only handle %u holds %s but expected %s",
               when, i, show(c).c_str(), show(mr[i]).c_str());
      const fptu::schema *ps = R(i).peek_schema();
      MC_CHECK(!ps || (mr[i].preplaced && ps == the_schema()),
               "%s: wrong schema of read-only handle %u", when, i);
    }
    for (unsigned i = 0; i < nw; ++i) {
      MC_CHECK(bool(W(i)) == bool(mw[i].valid),
               "%s: writable handle %u is %s but expected %s", when, i,
               W(i) ? "a tuple" : "empty", mw[i].valid ? "a tuple" : "empty");
      if (!W(i))
        continue;
      const int s = slot_of(W(i).get_buffer());
      MC_CHECK(s >= 0 && meta[s].live,
               "%s: writable handle %u refers to a freed buffer", when, i);
      ++refs[s];
      const Content c = read(W(i), mw[i]);
      MC_CHECK(c == mw[i], "%s: writable handle %u holds %s but expected %s",
               when, i, show(c).c_str(), show(mw[i]).c_str());
      MC_CHECK((W(i).schema() != nullptr) == bool(mw[i].schema),
               "%s: writable handle %u: schema is %s", when, i,
               W(i).schema() ? "attached" : "lost");
      const char *bad = W(i).validate();
      MC_CHECK(!bad, "%s: writable handle %u: %s", when, i, bad);
    }
    for (unsigned i = 0; i < SLOTS; ++i) {
      MC_CHECK(!meta[i].live || refs[i], "%s: a buffer is leaked", when);
      if (!meta[i].live)
        continue;
      const buffer *b = reinterpret_cast<const buffer *>(pool[i]);
      MC_CHECK(b->ref_counter == refs[i],
               "%s: counter of references is %d but the buffer has %d holders",
               when, int(b->ref_counter), refs[i]);
      MC_CHECK(b->check(), "%s: guards of a buffer are damaged", when);
      MC_CHECK(b->is_alterable() == (refs[i] == 1),
               "%s: a shared buffer is considered alterable (or vice versa)",
               when);
    }
  }
  void check_initial() {
    memset(reinterpret_cast<char *>(mr), 0, sizeof mr);
    memset(reinterpret_cast<char *>(mw), 0, sizeof mw);
    check_all("initially");
  }
  void check_state() {
    mc::add(mc::shared()->checks);
    check_all("state");
    // all handles go away in the direct and in the reverse order
    const std::string s = save();
    for (int order = 0; order < 2; ++order) {
      for (unsigned x = 0; x < nr + nw; ++x) {
        const unsigned y = order ? nr + nw - 1 - x : x;
        if (y < nr) {
          R(y).~tuple_ro_managed();
          new (&R(y)) tuple_ro_managed();
          mr[y] = Content();
        } else {
          W(y - nr).purge();
          mw[y - nr] = Content();
        }
        check_all("handles are being destroyed");
      }
      for (unsigned i = 0; i < SLOTS; ++i)
        MC_CHECK(!meta[i].live, "a buffer outlived all the handles");
      restore(s);
    }
  }

  static const fptu::schema *sch(unsigned x) {
    return x == 2 ? alien_schema() : x ? the_schema() : nullptr;
  }

  void apply(size_t n) {
    const Op o = ops[n];
    mc::what("%s", op_name(n).c_str());
    Content er[MAXR], ew[MAXW]; // expected
    memcpy(static_cast<void *>(er), mr, sizeof er);
    memcpy(static_cast<void *>(ew), mw, sizeof ew);
    const unsigned i = o.i, j = o.j;
    const auto tg = tag(o.y);
    bool refuse = false; // must be refused
    bool may_refuse = false;
    bool self_move = false;
    const Content none = Content();
    fail_in = o.fault;
    failed = false;
    borrowed = 0;
    // a copy which forgets the schema of the writable form unless given
    auto copied = [&](const Content &src, unsigned schema) {
      Content c = src;
      c.schema = uint8_t(schema);
      c.alias = 0;
      return c;
    };
    try {
      switch (o.k) {
      case R_COPY:
        er[i] = mr[j];
        R(i) = static_cast<const tuple_ro_managed &>(R(j));
        break;
      case R_MOVE:
        if (i == j) {
          self_move = true;
        } else {
          er[i] = mr[j];
          er[j] = none;
        }
        R(i) = std::move(R(j));
        break;
      case R_CTOR_COPY: {
        er[i] = mr[j];
        tuple_ro_managed tmp(R(j));
        check_extra(R(j), tmp);
        R(i).swap(tmp);
      } break;
      case R_CTOR_MOVE: {
        er[i] = mr[j];
        er[j] = none;
        tuple_ro_managed tmp(std::move(R(j)));
        R(i) = std::move(tmp);
      } break;
      case R_PURGE:
        er[i] = none;
        R(i).purge();
        break;
      case R_SWAP:
        er[i] = mr[j];
        er[j] = mr[i];
        R(i).swap(R(j));
        break;
      case R_CLONE:
        if (!mr[j].valid) {
          refuse = o.x;
          er[i] = none;
        } else if (o.x == 2 || (o.x && !mr[j].preplaced))
          refuse = true;
        else {
          const bool share = meta[slot_of(R(j).get_buffer())].owner == o.y &&
                             (!o.x || mr[j].schema == o.x);
          er[i] = share ? mr[j] : copied(mr[j], o.x);
        }
        R(i) = tuple_ro_managed::clone(R(j), sch(o.x), tg);
        break;
      case R_CLONE_WEAK:
        if (!mr[j].valid) {
          refuse = o.x;
          er[i] = none;
        } else if (o.x == 2 || (o.x && !mr[j].preplaced))
          refuse = true;
        else
          er[i] = copied(mr[j], o.x);
        R(i) = tuple_ro_managed::clone(R(j).take_weak(), sch(o.x), tg);
        break;
      case R_BYTES:
        refuse = o.x == 2 || bool(o.x) != bool(mr[j].preplaced);
        er[i] = copied(mr[j], o.x);
        R(i) = tuple_ro_managed(R(j).data(), R(j).size(), sch(o.x), tg);
        break;
      case R_NESTED:
      case R_NESTED_EXPL: {
        const fptu::token t = mr[j].preplaced ? tkNs() : tkN();
        er[i] = none;
        if (mr[j].n) {
          er[i].valid = 1;
          er[i].a = 7;
        }
        if (o.k == R_NESTED)
          R(i) = R(j).get_nested_managed(t);
        else
          R(i) = tuple_ro_managed(R(j).get_nested_weak(t), R(j));
      } break;
      case R_FROM_W_CLONE:
      case R_CLONE_W:
      case R_FROM_W_OPT: {
        er[i] = mw[j];
        if (o.x && !mw[j].a && !mw[j].n && !mw[j].preplaced && !mw[j].holes)
          er[i] = none;
        if (o.k == R_FROM_W_OPT) {
          R(i) = W(j).take_managed_clone_optimized(o.x, tg).first;
          er[i].holes = ew[j].holes = 0;
        } else if (o.k == R_CLONE_W)
          R(i) = tuple_ro_managed::clone(W(j), tg);
        else
          R(i) = W(j).take_managed_clone_asis(o.x, tg);
      } break;
      case R_FROM_W_MOVE:
        er[i] = mw[j];
        ew[j] = none;
        R(i) = std::move(W(j));
        break;
      case R_FROM_W_CTOR:
        er[i] = mw[j];
        ew[j] = none;
        er[i].holes = 0;
        R(i) = W(j).move_to_ro();
        break;
      case R_FROM_W_NESTED:
        er[i] = none;
        if (mw[j].n) {
          er[i].valid = 1;
          er[i].alias = 1;
        }
        R(i) = W(j).get_nested_managed(mw[j].preplaced ? tkNs() : tkN());
        break;
      case W_NEW: {
        ew[i] = none;
        ew[i].valid = 1;
        ew[i].schema = ew[i].preplaced = o.x;
        tuple_rw_fixed t(3, 64, sch(o.x), tg);
        W(i) = std::move(t);
      } break;
      case W_PURGE:
        ew[i] = none;
        W(i).purge();
        break;
      case W_MOVE:
        if (i != j) {
          ew[i] = mw[j];
          ew[j] = none;
        }
        W(i) = std::move(W(j));
        break;
      case W_SWAP:
        ew[i] = mw[j];
        ew[j] = mw[i];
        W(i).swap(W(j));
        break;
      case W_FROM_R:
      case W_FROM_R_CTOR:
      case W_FROM_R_MANAGED: {
        refuse = !mr[j].valid;
        er[j] = none;
        const bool same_basis = R(j).peek_schema() != nullptr;
        ew[i] = copied(mr[j], same_basis);
        // without the basis the schema is unknown and data cannot be checked
        may_refuse = mr[j].preplaced && !same_basis;
        if (o.k == W_FROM_R)
          W(i) = std::move(R(j));
        else if (o.k == W_FROM_R_CTOR) {
          tuple_rw_fixed t(std::move(R(j)));
          W(i).swap(t);
        } else {
          if (may_refuse)
            return; // noexcept
          tuple_rw_managed t(std::move(R(j)));
          W(i).swap(t);
        }
      } break;
      case W_CLONE_R:
      case W_CLONE_WEAK: {
        if (!mr[j].valid) {
          ew[i] = none;
          ew[i].valid = 1;
          ew[i].schema = ew[i].preplaced = o.x;
          if (o.k == W_CLONE_WEAK)
            may_refuse = true; // nothing is not a tuple
        } else {
          const bool known = o.k == W_CLONE_R && R(j).peek_schema() != nullptr;
          refuse = bool(o.x) != bool(mr[j].preplaced) &&
                   !(known && !o.x);
          ew[i] = copied(mr[j], o.x || known);
        }
        // the writable form without a schema cannot hold preplaced fields
        if (mr[j].preplaced && !o.x && o.k == W_CLONE_R && refuse) {
          refuse = false;
          may_refuse = true;
        }
        if (o.k == W_CLONE_R)
          W(i) = tuple_rw_fixed::clone(R(j), 2, 32, sch(o.x), tg);
        else
          W(i) = tuple_rw_fixed::clone(R(j).take_weak(), 2, 32, sch(o.x), tg);
      } break;
      case W_CLONE_W:
        refuse = !mw[j].valid;
        ew[i] = mw[j];
        W(i) = tuple_rw_fixed::clone(W(j), tg);
        break;
      case W_BYTES:
        refuse = bool(o.x) != bool(mr[j].preplaced);
        ew[i] = copied(mr[j], o.x);
        W(i) = tuple_rw_fixed(R(j).data(), R(j).size(), 2, 32, sch(o.x), tg);
        break;
      case W_SET_A:
        ew[i].a = o.x;
        may_refuse = true; // no space
        W(i).set_u32(mw[i].preplaced ? tkAs() : tkA(), o.x);
        break;
      case W_ERASE_A:
        ew[i].a = 0;
        W(i).erase(mw[i].preplaced ? tkAs() : tkA());
        break;
      case W_SET_N: {
        ew[i].n = 1;
        may_refuse = true; // no space
        tuple_ro_weak w(nested_bytes().data(), nested_bytes().size(), nullptr);
        W(i).set_nested(mw[i].preplaced ? tkNs() : tkN(), w);
      } break;
      case W_ERASE_N:
        ew[i].n = 0;
        W(i).erase(mw[i].preplaced ? tkNs() : tkN());
        break;
      case W_SET_P:
        ew[i].p = o.x;
        W(i).set_u32(tkP(), o.x);
        break;
      case W_COMPACT:
        W(i).compactify();
        break;
      }
      fail_in = 0;
      if (self_move) {
        // either nothing happens or the handle becomes empty
        if (!R(i))
          er[i] = none;
      }
      MC_CHECK(!failed, "%s: the failure of an allocation is lost",
               op_name(n).c_str());
      MC_CHECK(!refuse, "%s: must be refused", op_name(n).c_str());
      memcpy(static_cast<void *>(mr), er, sizeof er);
      memcpy(static_cast<void *>(mw), ew, sizeof ew);
      mc::count(0);
    } catch (const std::bad_alloc &) {
      fail_in = 0;
      // insufficient_space is a kind of bad_alloc
      MC_CHECK(failed || may_refuse, "%s: out of space", op_name(n).c_str());
      mc::count(failed ? 2 : 1);
    } catch (const std::exception &e) {
      fail_in = 0;
      MC_CHECK(refuse || may_refuse, "%s: unexpectedly refused: %s",
               op_name(n).c_str(), e.what());
      mc::count(1);
    }
    check_all(op_name(n).c_str());
  }
  void check_extra(tuple_ro_managed &a, tuple_ro_managed &b) {
    if (!a)
      return;
    MC_CHECK(a == b && !(a != b), "a copy differs from the original");
    MC_CHECK(!a.get_buffer()->is_alterable(),
             "a buffer of two handles is alterable");
  }
};

} // namespace

int main(int argc, char **argv) {
  mc::counter_name(0) = "operations_done";
  mc::counter_name(1) = "operations_refused";
  mc::counter_name(2) = "allocation_failures_injected";
  mc::Harness h;
  h.items = [] {
    std::vector<mc::Item> r;
    auto add = [&](unsigned nr, unsigned nw, unsigned f, unsigned depth) {
      mc::Item it;
      it.name = "r" + std::to_string(nr) + "w" + std::to_string(nw) + "f" +
                std::to_string(f);
      it.a = nr << 8 | nw << 4 | f;
      it.b = depth;
      r.push_back(it);
    };
    const bool th = mc::opt().thorough();
    const unsigned more = th ? 1 : 0;
    add(3, 1, 0, 6 + more);
    add(2, 2, 0, 6 + more);
    add(2, 1, 3, 5 + more);
    add(2, 1, 1, 6 + more);
    add(2, 1, 2, 6 + more);
    add(2, 1, 0, 7 + 2 * more);
    add(1, 1, 3, 7 + more);
    add(1, 1, 0, 1000);
    return r;
  };
  auto mk = [](const mc::Item &i) {
    return new Sys(unsigned(i.a >> 8), unsigned(i.a >> 4) & 15,
                   unsigned(i.a) & 15);
  };
  h.run = [mk](const mc::Item &i) {
    Sys *s = mk(i);
    mc::BfsLimits l;
    l.depth = unsigned(i.b);
    l.max_states = 3000000;
    mc::bfs(*s, l);
  };
  h.replay = [mk](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::replay_path(*mk(i), path);
  };
  return mc::main_(argc, argv, h);
}
