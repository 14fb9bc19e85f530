// P11: all interleavings (up to a bound of preemptions) of threads which use
// handles of the same managed buffer.  See also race_rt.cxx.
#include "race.hpp"

using fptu::tuple_ro_managed;
using fptu::tuple_ro_weak;
using fptu::tuple_rw_fixed;
using namespace race;

namespace {
//------------------------------------------------------------------ programs
const fptu::token &tkA() {
  static const fptu::token t(fptu::u32, 1, false);
  return t;
}
const fptu::token &tkN() {
  static const fptu::token t(fptu::nested, 2, false);
  return t;
}
const std::string &nested_bytes() {
  static const std::string s = [] {
    tuple_rw_fixed t(4, 64, nullptr);
    t.set_u32(tkA(), 7);
    auto w = t.take_weak_asis();
    return std::string(static_cast<const char *>(w.data()), w.size());
  }();
  return s;
}

enum OpKind {
  DROP, COPY, COPY_SHARED, READ, WRITE, NESTED, CLONE_RW, MOVE, CLONE_RO,
  NOPS
};
const char *const op_names[] = {
    "drop", "b=copy of a", "b=copy of the shared handle", "read",
    "write(move a to rw, update, back to ro)", "b=nested of a, drop a",
    "rw clone of a", "b=move(a)", "b=clone(a)"};

struct Thread {
  tuple_ro_managed a, b;
  uint32_t va, vb; // the expected value of A, 0: empty handle
  bool na, nb;     // has the nested tuple
  uint8_t program[4];
  unsigned len;
};
alignas(Thread) char tmem[MAXT][sizeof(Thread)];
Thread &T(int i) { return *reinterpret_cast<Thread *>(tmem[i]); }
tuple_ro_managed *shared_handle;
const uint32_t INITIAL = 11;

void verify(const tuple_ro_managed &h, uint32_t v, bool n, const char *name) {
  MC_CHECK(bool(h) == (v != 0), "thread %d: handle %s is %s", current, name,
           h ? "not empty" : "empty");
  if (!v)
    return;
  const uint32_t got = h.get_u32(tkA());
  MC_CHECK(got == v, "thread %d: handle %s reads %u instead of %u", current,
           name, got, v);
  MC_CHECK(h.is_present(tkN()) == n, "thread %d: handle %s: nested tuple",
           current, name);
}

void run_op(Thread &t, unsigned k, int tid) {
  switch (k) {
  case DROP:
    t.a.purge();
    t.va = 0;
    t.na = false;
    break;
  case COPY:
    t.b = static_cast<const tuple_ro_managed &>(t.a);
    t.vb = t.va;
    t.nb = t.na;
    break;
  case COPY_SHARED:
    if (shared_handle) {
      t.b = static_cast<const tuple_ro_managed &>(*shared_handle);
      t.vb = INITIAL;
      t.nb = true;
    }
    break;
  case READ:
    verify(t.a, t.va, t.na, "a");
    break;
  case WRITE:
    if (t.va) {
      tuple_rw_fixed w(std::move(t.a));
      MC_CHECK(!t.a, "thread %d: the handle moved from is not empty", tid);
      MC_CHECK(w.get_u32(tkA()) == t.va,
               "thread %d: the writable tuple reads %u instead of %u", tid,
               w.get_u32(tkA()), t.va);
      t.va = 100u + unsigned(tid);
      w.set_u32(tkA(), t.va);
      t.a = w.move_to_ro(true);
    }
    break;
  case NESTED:
    if (t.va) {
      t.b = t.a.get_nested_managed(tkN());
      t.vb = t.na ? 7 : 0;
      t.nb = false;
      t.a.purge();
      t.va = 0;
      t.na = false;
    }
    break;
  case CLONE_RW:
    if (t.va) {
      tuple_rw_fixed w = tuple_rw_fixed::clone(t.a, 1, 16, nullptr, tag());
      w.set_u32(tkA(), 200);
      verify(t.a, t.va, t.na, "a");
    }
    break;
  case MOVE:
    t.b = std::move(t.a);
    t.vb = t.va;
    t.nb = t.na;
    t.va = 0;
    t.na = false;
    break;
  case CLONE_RO:
    t.b = tuple_ro_managed::clone(t.a, nullptr, tag());
    t.vb = t.va;
    t.nb = t.na;
    break;
  }
}

void fiber_main(int tid) {
  Thread &t = T(tid);
  for (unsigned i = 0; i < t.len; ++i)
    run_op(t, t.program[i], tid);
  verify(t.b, t.vb, t.nb, "b");
  t.b.purge();
  verify(t.a, t.va, t.na, "a");
  t.a.purge();
}

// one execution; item.a: number of threads, length, options
void body(mc::Chooser &c, const mc::Item &item) {
  nthreads = int(item.a & 15);
  const unsigned len = unsigned(item.a >> 4) & 15;
  const bool with_shared = (item.a >> 8) & 1;
  chooser = &c;
  memset(meta, 0, sizeof meta);
  current = -1;
  {
    tuple_rw_fixed w(3, 64, nullptr, tag());
    w.set_u32(tkA(), INITIAL);
    tuple_ro_weak nested(nested_bytes().data(), nested_bytes().size(),
                         nullptr);
    w.set_nested(tkN(), nested);
    static tuple_ro_managed storage;
    storage = w.move_to_ro(true);
    shared_handle = with_shared ? &storage : nullptr;
    // the programs: of the first thread by the item, of others by choices
    uint64_t code = item.b;
    for (int i = 0; i < nthreads; ++i) {
      Thread &t = *new (&T(i)) Thread();
      t.len = len;
      for (unsigned k = 0; k < len; ++k) {
        if (i == 0) {
          t.program[k] = uint8_t(code % NOPS);
          code /= NOPS;
        } else
          t.program[k] = uint8_t(c.choose(NOPS));
      }
      t.a = static_cast<const tuple_ro_managed &>(storage);
      t.va = INITIAL;
      t.na = true;
      t.vb = 0;
      t.nb = false;
    }
    // symmetric combinations are explored once
    for (int i = 1; i < nthreads; ++i)
      if (memcmp(T(i - 1).program, T(i).program, len) > 0) {
        for (int k = 0; k < nthreads; ++k)
          T(k).~Thread();
        storage.purge();
        return;
      }
    if (!with_shared)
      storage.purge();
    if (mc::sampling() || mc::opt().verbose) {
      std::string s = item.name + ":";
      for (int i = 0; i < nthreads; ++i) {
        s += " thread" + std::to_string(i) + "(";
        for (unsigned k = 0; k < len; ++k)
          s += std::string(k ? "; " : "") + op_names[T(i).program[k]];
        s += ")";
      }
      mc::what("%s", s.c_str());
    }
    preemptions_left = unsigned(item.a >> 12);
    for (int i = 0; i < nthreads; ++i)
      start(i, fiber_main);
    const uint64_t before = points;
    run(int(c.choose(uint32_t(nthreads))));
    mc::step(points - before);
    int live = 0;
    for (auto &m : meta)
      live += m.live;
    MC_CHECK(live == (with_shared ? 1 : 0),
             "%d buffers are alive after all threads have finished", live);
    if (with_shared) {
      MC_CHECK(storage.get_buffer()->ref_counter == 1,
               "counter of references is %d but there is one holder",
               int(storage.get_buffer()->ref_counter));
      verify(storage, INITIAL, true, "shared");
      storage.purge();
    }
    for (auto &m : meta)
      MC_CHECK(!m.live, "a buffer outlived all the handles");
    for (int k = 0; k < nthreads; ++k)
      T(k).~Thread();
  }
}

} // namespace

int main(int argc, char **argv) {
  mc::Harness h;
  h.items = [] {
    fptu::defaults::setup(fptu::tiny, nullptr, tag());
    nested_bytes();
    std::vector<mc::Item> r;
    const bool th = mc::opt().thorough();
    auto add = [&](unsigned threads, unsigned len, unsigned shared,
                   unsigned bound) {
      unsigned programs = 1;
      for (unsigned i = 0; i < len; ++i)
        programs *= NOPS;
      for (unsigned p = 0; p < programs; ++p) {
        if (!shared) {
          bool useless = false;
          for (unsigned i = 0, x = p; i < len; ++i, x /= NOPS)
            useless |= x % NOPS == COPY_SHARED;
          if (useless)
            continue;
        }
        mc::Item it;
        it.name = std::to_string(threads) + "threads-" + std::to_string(len) +
                  "ops-" + (shared ? "shared-" : "") + "bound" +
                  std::to_string(bound) + "-" + std::to_string(p);
        it.a = threads | len << 4 | shared << 8 | bound << 12;
        it.b = p;
        r.push_back(it);
      }
    };
    add(2, 1, 0, th ? 4 : 3);
    add(2, 1, 1, th ? 4 : 3);
    add(2, 2, 0, th ? 3 : 2);
    add(2, 2, 1, th ? 2 : 1);
    add(3, 1, 0, 2);
    add(3, 1, 1, th ? 2 : 1);
    return r;
  };
  h.run = [](const mc::Item &i) {
    mc::dfs([&](mc::Chooser &c) { body(c, i); });
    mc::add(mc::shared()->traces);
    if (mc::sampling())
      mc::sample(mc::slot()->what);
  };
  h.replay = [](const mc::Item &i, const std::vector<uint32_t> &path) {
    mc::dfs_replay(path, [&](mc::Chooser &c) { body(c, i); });
  };
  return mc::main_(argc, argv, h);
}
