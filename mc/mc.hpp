// Small explicit-state / exhaustive-enumeration engine.
//
// A harness provides a list of work items (configurations or chunks of an
// enumerated space).  The parent process forks workers; every worker publishes
// the step it is about to execute in a shared-memory slot, so that a crash, a
// sanitizer abort or a hang is attributed to one exact operation path.
#pragma once
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

enum {
  MAX_PATH = 4096,
  MAX_CNT = 24,
  MAX_SAMPLES = 8,
  EXIT_VIOLATION = 77,
  EXIT_HARNESS = 78
};

struct Slot {
  volatile uint64_t progress;
  volatile int64_t item;
  volatile uint32_t path_len;
  volatile uint32_t path[MAX_PATH];
  char what[512];  // description of the step being executed
  char msg[4096];  // violation message
};

struct Shared {
  volatile int64_t next_item;
  volatile int32_t stop;
  volatile uint64_t states, transitions, executions, checks, outcomes;
  volatile uint64_t capped, cut_depth;
  volatile uint64_t cnt[MAX_CNT];
  volatile uint64_t traces; // traces re-executed on the implementation
  volatile uint32_t nsamples;
  char samples[MAX_SAMPLES][1024];
};

struct Item {
  std::string name;
  uint64_t a = 0, b = 0; // harness specific
  std::vector<uint64_t> extra;
  bool hidden = false; // only for replaying of a recorded finding
};

struct Options {
  std::string prop = "P00", tier = "quick", out, replay;
  int jobs = 8;
  double deadline = 540;
  bool verbose = false, list = false;
  long only = -1;
  bool thorough() const { return tier == "thorough"; }
};

inline Options &opt() {
  static Options o;
  return o;
}
inline Slot *&slot() {
  static Slot *s = nullptr;
  return s;
}
inline Shared *&shared() {
  static Shared *s = nullptr;
  return s;
}
inline const char *&counter_name(int i) {
  static const char *names[MAX_CNT];
  return names[i];
}
inline double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
inline double &t_start() {
  static double t = now();
  return t;
}
inline bool time_is_up() { return now() - t_start() > opt().deadline; }
inline bool stopping() { return shared()->stop || time_is_up(); }

inline void tick() { slot()->progress = slot()->progress + 1; }
inline void add(volatile uint64_t &c, uint64_t n = 1) {
  __atomic_fetch_add(const_cast<uint64_t *>(&c), n, __ATOMIC_RELAXED);
}
inline void count(int i, uint64_t n = 1) { add(shared()->cnt[i], n); }

inline void set_path(const std::vector<uint32_t> &p) {
  uint32_t n = uint32_t(p.size() > MAX_PATH ? size_t(MAX_PATH) : p.size());
  for (uint32_t i = 0; i < n; ++i)
    slot()->path[i] = p[i];
  slot()->path_len = n;
  tick();
}
inline void path_push(uint32_t v) {
  uint32_t n = slot()->path_len;
  if (n < MAX_PATH) {
    slot()->path[n] = v;
    slot()->path_len = n + 1;
  }
  tick();
}
inline void path_pop() {
  if (slot()->path_len)
    slot()->path_len = slot()->path_len - 1;
}
inline void what(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(slot()->what, sizeof(slot()->what), fmt, ap);
  va_end(ap);
}

[[noreturn]] inline void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(slot()->msg, sizeof(slot()->msg), fmt, ap);
  va_end(ap);
  fflush(stdout);
  fflush(stderr);
  _exit(EXIT_VIOLATION);
}

// an inconsistency of the harness itself, never reported as a violation
[[noreturn]] inline void harness_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(slot()->msg, sizeof(slot()->msg), fmt, ap);
  va_end(ap);
  fflush(stdout);
  _exit(EXIT_HARNESS);
}
inline bool sampling() { return shared()->nsamples < MAX_SAMPLES; }
inline void sample(const std::string &s) {
  uint32_t n = __atomic_fetch_add(
      const_cast<uint32_t *>(&shared()->nsamples), 1, __ATOMIC_RELAXED);
  if (n < MAX_SAMPLES)
    snprintf(shared()->samples[n], sizeof(shared()->samples[n]), "%s",
             s.c_str());
}

#define MC_CHECK(cond, ...)                                                    \
  do {                                                                         \
    if (__builtin_expect(!(cond), 0))                                          \
      ::mc::fail(__VA_ARGS__);                                                 \
  } while (0)

inline std::string hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  const uint8_t *b = static_cast<const uint8_t *>(p);
  if (n > 96) {
    r = hex(p, 96);
    char t[32];
    snprintf(t, sizeof t, "...[%zu]", n);
    return r + t;
  }
  for (size_t i = 0; i < n; ++i) {
    r += d[b[i] >> 4];
    r += d[b[i] & 15];
  }
  return r;
}
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }

struct H128 {
  uint64_t a, b;
  bool operator==(const H128 &o) const { return a == o.a && b == o.b; }
};
struct H128h {
  size_t operator()(const H128 &h) const { return size_t(h.a); }
};
inline uint64_t mix64(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
inline H128 hash128(const std::string &s) {
  uint64_t a = 0x9E3779B97F4A7C15ULL ^ s.size(), b = 0xC2B2AE3D27D4EB4FULL;
  const char *p = s.data();
  size_t n = s.size();
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, p, 8);
    a = mix64(a ^ w) * 0x9E3779B97F4A7C15ULL + b;
    b = mix64(b + w * 0xD6E8FEB86659FD93ULL) ^ (a >> 17);
    p += 8;
    n -= 8;
  }
  uint64_t w = 0;
  memcpy(&w, p, n);
  w |= uint64_t(n) << 56;
  a = mix64(a ^ w);
  b = mix64(b + w + a);
  return {a, b};
}

//----------------------------------------------------------------------------
// Explicit-state breadth-first search over a system of real code + model.
//
// Sys must provide:
//   std::string save();                 snapshot of impl + model
//   void restore(const std::string&);
//   std::string key();                  canonical state identity
//   size_t nops();
//   bool enabled(size_t op);
//   void apply(size_t op);              executes op, checks its outcome
//   void check_state();                 checks of the reached state
//   void describe(size_t op, char*buf, size_t n);
struct BfsLimits {
  unsigned depth = 1000;
  uint64_t max_states = 300000;
};
struct BfsResult {
  uint64_t states = 0, transitions = 0;
  unsigned depth = 0;
  bool fixpoint = false, capped = false;
};

template <class Sys> BfsResult bfs(Sys &sys, const BfsLimits &lim) {
  BfsResult r;
  struct Node {
    uint32_t parent;
    uint32_t op;
    H128 hash;
  };
  std::vector<Node> nodes;
  std::unordered_set<H128, H128h> seen;
  std::vector<std::pair<uint32_t, std::string>> frontier, next;
  set_path({});
  sys.check_initial();
  nodes.push_back({0, 0, hash128(sys.key())});
  seen.insert(nodes[0].hash);
  const std::string initial = sys.save();
  frontier.emplace_back(0u, initial);
  r.states = 1;
  std::vector<uint32_t> path;
  uint64_t pub_states = 0, pub_trans = 0;
  auto publish = [&]() {
    add(shared()->states, r.states - pub_states);
    add(shared()->transitions, r.transitions - pub_trans);
    pub_states = r.states;
    pub_trans = r.transitions;
  };
  // the longest discovered histories are executed once more from the initial
  // state, without snapshots: each must lead to the very same state
  auto validate = [&]() {
    const size_t n = nodes.size(), want = n < 24 ? n : 24;
    for (size_t i = 0; i < want; ++i) {
      const size_t at = n - 1 - i;
      path.clear();
      for (uint32_t x = uint32_t(at); x; x = nodes[x].parent)
        path.push_back(nodes[x].op);
      std::vector<uint32_t> fwd(path.rbegin(), path.rend());
      set_path(fwd);
      sys.restore(initial);
      for (uint32_t op : fwd)
        sys.apply(op);
      if (!(hash128(sys.key()) == nodes[at].hash))
        harness_error("re-executed history leads to another state");
      add(shared()->traces);
      if (i == 0 && sampling()) {
        std::string t = sys.title() + ":";
        for (uint32_t op : fwd)
          t += " " + sys.op_name(op) + ";";
        sample(t);
      }
    }
  };
  for (unsigned depth = 0; !frontier.empty(); ++depth) {
    if (depth >= lim.depth) {
      add(shared()->cut_depth);
      publish();
      validate();
      return r;
    }
    next.clear();
    for (auto &f : frontier) {
      if (r.capped)
        break;
      path.clear();
      for (uint32_t n = f.first; n; n = nodes[n].parent)
        path.push_back(nodes[n].op);
      std::vector<uint32_t> fwd(path.rbegin(), path.rend());
      set_path(fwd);
      sys.restore(f.second);
      for (size_t op = 0, n = sys.nops(); op < n; ++op) {
        if (!sys.enabled(op))
          continue;
        path_push(uint32_t(op));
        sys.apply(op);
        ++r.transitions;
        const H128 h = hash128(sys.key());
        if (seen.insert(h).second) {
          // every check is a function of the state, so once per state
          sys.check_state();
          ++r.states;
          nodes.push_back({f.first, uint32_t(op), h});
          next.emplace_back(uint32_t(nodes.size() - 1), sys.save());
          if (r.states >= lim.max_states)
            r.capped = true;
        }
        path_pop();
        sys.restore(f.second);
      }
      std::string().swap(f.second);
      if ((r.transitions & 1023) < 40) {
        publish();
        if (stopping())
          r.capped = true;
      }
    }
    r.depth = depth + 1;
    publish();
    if (r.capped) {
      add(shared()->capped);
      if (!shared()->stop)
        validate();
      return r;
    }
    frontier.swap(next);
  }
  r.fixpoint = true;
  publish();
  validate();
  return r;
}

// re-executes one operation path (used to confirm and to replay a violation)
template <class Sys>
void replay_path(Sys &sys, const std::vector<uint32_t> &path) {
  set_path({});
  sys.check_initial();
  for (uint32_t op : path) {
    if (op >= sys.nops() || !sys.enabled(op)) {
      printf("replay: operation %u is not applicable here\n", op);
      return;
    }
    path_push(op);
    sys.apply(op);
    sys.check_state();
  }
}

//----------------------------------------------------------------------------
// Stateless exploration: the body is executed once for every sequence of
// choices it can make.  A state is a node of the tree of choices, a transition
// is an operation of the real code (counted by the body through mc::step()).
class Chooser {
  std::vector<uint32_t> script_, bound_;
  size_t pos_ = 0, known_ = 0;
  bool replay_ = false;

public:
  uint64_t leaves = 0, nodes = 1;
  explicit Chooser() {}
  explicit Chooser(const std::vector<uint32_t> &path)
      : script_(path), bound_(path.size(), 0), known_(path.size()),
        replay_(true) {}
  uint32_t choose(uint32_t n) {
    if (pos_ < script_.size()) {
      if (replay_ && script_[pos_] >= n) {
        printf("replay: choice %zu is not applicable here\n", pos_);
        fflush(stdout);
        _exit(0);
      }
      bound_[pos_] = n;
      return script_[pos_++];
    }
    script_.push_back(0);
    bound_.push_back(n);
    ++pos_;
    if (!replay_)
      path_push(0);
    return 0;
  }
  // index of the shallowest choice that changed since the previous execution:
  // whatever was built by the choices before it can be reused
  void begin() {
    pos_ = 0;
    if (!replay_)
      set_path(script_);
  }
  bool next() { // false: everything is explored
    ++leaves;
    nodes += script_.size() - known_;
    while (!script_.empty() && script_.back() + 1 >= bound_.back()) {
      script_.pop_back();
      bound_.pop_back();
    }
    if (script_.empty())
      return false;
    ++script_.back();
    known_ = script_.size() - 1;
    return true;
  }
  const std::vector<uint32_t> &script() const { return script_; }
};
inline void step(uint64_t n = 1) { add(shared()->transitions, n); }

struct DfsResult {
  uint64_t leaves = 0, nodes = 0;
  bool complete = false;
};
template <class Body> DfsResult dfs(Body body) {
  Chooser c;
  DfsResult r;
  uint64_t pub_l = 0, pub_n = 0;
  for (;;) {
    c.begin();
    body(c);
    const bool more = c.next();
    if (!more || (c.leaves & 255) == 0) {
      add(shared()->executions, c.leaves - pub_l);
      add(shared()->states, c.nodes - pub_n);
      pub_l = c.leaves;
      pub_n = c.nodes;
      if (more && stopping()) {
        add(shared()->capped);
        break;
      }
    }
    if (!more) {
      r.complete = true;
      break;
    }
  }
  r.leaves = c.leaves;
  r.nodes = c.nodes;
  return r;
}
template <class Body>
void dfs_replay(const std::vector<uint32_t> &path, Body body) {
  Chooser c(path);
  c.begin();
  set_path(path);
  body(c);
}

//----------------------------------------------------------------------------
struct Harness {
  std::function<std::vector<Item>()> items;
  std::function<void(const Item &)> run;
  // replays exactly one operation path (must call fail() when it fails)
  std::function<void(const Item &, const std::vector<uint32_t> &)> replay;
  std::function<std::string()> describe_space;
  unsigned hang_seconds = 60;
};

inline std::string json_escape(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += char(c);
  }
  return r;
}

struct Violation {
  int64_t item;
  std::string item_name, kind, msg, what;
  std::vector<uint32_t> path;
};

inline int main_(int argc, char **argv, Harness h) {
  auto &o = opt();
  t_start();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop")
      o.prop = val();
    else if (a == "--tier")
      o.tier = val();
    else if (a == "--out")
      o.out = val();
    else if (a == "--replay")
      o.replay = val();
    else if (a == "--jobs")
      o.jobs = atoi(val().c_str());
    else if (a == "--deadline")
      o.deadline = atof(val().c_str());
    else if (a == "--only")
      o.only = atol(val().c_str());
    else if (a == "--list")
      o.list = true;
    else if (a == "-v")
      o.verbose = true;
  }
  const size_t maxjobs = 64;
  if (o.jobs < 1)
    o.jobs = 1;
  if (size_t(o.jobs) > maxjobs)
    o.jobs = int(maxjobs);
  void *mem = mmap(nullptr, sizeof(Shared) + sizeof(Slot) * maxjobs + 4096,
                   PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mem == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  shared() = static_cast<Shared *>(mem);
  Slot *slots = reinterpret_cast<Slot *>(static_cast<char *>(mem) +
                                         ((sizeof(Shared) + 63) & ~size_t(63)));
  slot() = &slots[0];

  std::vector<Item> items = h.items();
  if (o.replay.empty())
    for (size_t i = items.size(); i-- > 0;)
      if (items[i].hidden)
        items.erase(items.begin() + long(i));
  if (o.list) {
    for (size_t i = 0; i < items.size(); ++i)
      printf("%zu %s\n", i, items[i].name.c_str());
    return 0;
  }

  if (!o.replay.empty()) {
    // file: first line item name, second line path numbers
    FILE *f = fopen(o.replay.c_str(), "r");
    if (!f) {
      perror("replay file");
      return 3;
    }
    char buf[65536];
    std::string name;
    std::vector<uint32_t> path;
    while (fgets(buf, sizeof buf, f)) {
      if (!strncmp(buf, "item:", 5)) {
        name = buf + 5;
        while (!name.empty() && (name.back() == '\n' || name.back() == ' '))
          name.pop_back();
        while (!name.empty() && name[0] == ' ')
          name.erase(0, 1);
      } else if (!strncmp(buf, "path:", 5)) {
        char *p = buf + 5, *e;
        for (;;) {
          unsigned long v = strtoul(p, &e, 10);
          if (e == p)
            break;
          path.push_back(uint32_t(v));
          p = e;
        }
      }
    }
    fclose(f);
    const Item *it = nullptr;
    for (auto &i : items)
      if (i.name == name)
        it = &i;
    if (!it) {
      fprintf(stderr, "replay: unknown item '%s'\n", name.c_str());
      return 3;
    }
    pid_t pid = fork();
    if (pid == 0) {
      slot() = &slots[0];
      o.verbose = true;
      h.replay(*it, path);
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    double t0 = now();
    for (;;) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid)
        break;
      if (now() - t0 > 2 * h.hang_seconds) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        printf("REPLAY: hang\n");
        return 1;
      }
      usleep(2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      printf("REPLAY: no violation\n");
      return 0;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_VIOLATION) {
      printf("REPLAY: violation: %s\n", slots[0].msg);
      return 1;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HARNESS) {
      printf("REPLAY: harness error: %s\n", slots[0].msg);
      return 3;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      printf("REPLAY: killed\n");
      return 3;
    }
    printf("REPLAY: abnormal termination, status 0x%x while %s\n", st,
           slots[0].what);
    return 1;
  }

  struct W {
    pid_t pid = 0;
    uint64_t progress = 0;
    double since = 0;
  };
  std::vector<W> ws(size_t(o.jobs));
  std::vector<Violation> violations;
  std::vector<std::string> errors;
  std::vector<char> item_done(items.size(), 0);
  const int64_t lo = o.only >= 0 ? o.only : 0;
  const int64_t hi = o.only >= 0 ? o.only + 1 : int64_t(items.size());
  shared()->next_item = lo;
  int64_t items_done = 0;
  volatile int64_t *done_count = static_cast<int64_t *>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
           -1, 0));
  auto spawn = [&](size_t i) {
    slots[i].item = -1;
    slots[i].path_len = 0;
    slots[i].msg[0] = 0;
    slots[i].what[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      slot() = &slots[i];
      for (;;) {
        if (stopping())
          break;
        int64_t n = __atomic_fetch_add(
            const_cast<int64_t *>(&shared()->next_item), 1, __ATOMIC_SEQ_CST);
        if (n >= hi)
          break;
        slots[i].item = n;
        slots[i].path_len = 0;
        double t0 = now();
        h.run(items[size_t(n)]);
        if (o.verbose) {
          fprintf(stderr, "[%ld] %s: %.2fs\n", long(n),
                  items[size_t(n)].name.c_str(), now() - t0);
        }
        __atomic_fetch_add(const_cast<int64_t *>(done_count), 1,
                           __ATOMIC_SEQ_CST);
        slots[i].item = -1;
      }
      fflush(stdout);
      fflush(stderr);
      _exit(0);
    }
    ws[i].pid = pid;
    ws[i].progress = slots[i].progress;
    ws[i].since = now();
  };
  auto grab = [&](size_t i, const char *kind, const std::string &msg) {
    Violation v;
    v.item = slots[i].item;
    v.item_name = v.item >= 0 ? items[size_t(v.item)].name : "?";
    v.kind = kind;
    v.msg = msg;
    v.what = slots[i].what;
    for (uint32_t k = 0; k < slots[i].path_len && k < MAX_PATH; ++k)
      v.path.push_back(uint32_t(slots[i].path[k]));
    violations.push_back(v);
    shared()->stop = 1;
  };
  for (size_t i = 0; i < ws.size(); ++i)
    spawn(i);
  size_t alive = ws.size();
  while (alive) {
    int st = 0;
    pid_t pid = waitpid(-1, &st, WNOHANG);
    if (pid > 0) {
      for (size_t i = 0; i < ws.size(); ++i)
        if (ws[i].pid == pid) {
          ws[i].pid = 0;
          --alive;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            break;
          if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_VIOLATION)
            grab(i, "assert", slots[i].msg);
          else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HARNESS) {
            errors.push_back(std::string("harness: ") + slots[i].msg);
            shared()->stop = 1;
          }
          else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL &&
                   !shared()->stop) {
            errors.push_back("worker was killed (out of memory?) on item " +
                             std::to_string(slots[i].item));
            shared()->stop = 1;
          } else if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
            char t[160];
            snprintf(t, sizeof t,
                     "abnormal termination (status 0x%x%s) while: ", st,
                     WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "");
            grab(i, "crash", std::string(t) + slots[i].what);
          }
          break;
        }
      continue;
    }
    if (pid < 0 && errno == ECHILD)
      break;
    const double t = now();
    for (size_t i = 0; i < ws.size(); ++i) {
      if (!ws[i].pid)
        continue;
      if (slots[i].progress != ws[i].progress) {
        ws[i].progress = slots[i].progress;
        ws[i].since = t;
      } else if (t - ws[i].since > h.hang_seconds) {
        if (!shared()->stop)
          grab(i, "hang", std::string("no progress while: ") + slots[i].what);
        kill(ws[i].pid, SIGKILL);
      }
    }
    usleep(2000);
  }
  items_done = *done_count;

  FILE *f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
  if (!f) {
    perror("out");
    return 3;
  }
  fprintf(f, "{\n");
  fprintf(f, " \"items\": %zu, \"items_done\": %ld,\n", size_t(hi - lo),
          long(items_done));
  fprintf(f, " \"states\": %" PRIu64 ", \"transitions\": %" PRIu64
             ", \"executions\": %" PRIu64 ", \"checks\": %" PRIu64
             ", \"outcomes\": %" PRIu64 ",\n",
          shared()->states, shared()->transitions, shared()->executions,
          shared()->checks, shared()->outcomes);
  fprintf(f, " \"capped\": %" PRIu64 ", \"cut_depth\": %" PRIu64
             ", \"time_up\": %s,\n",
          shared()->capped, shared()->cut_depth,
          time_is_up() ? "true" : "false");
  fprintf(f, " \"space\": \"%s\",\n",
          json_escape(h.describe_space ? h.describe_space() : "").c_str());
  fprintf(f, " \"traces\": %" PRIu64 ",\n \"samples\": [", shared()->traces);
  for (uint32_t i = 0; i < shared()->nsamples && i < MAX_SAMPLES; ++i)
    fprintf(f, "%s\"%s\"", i ? ", " : "",
            json_escape(shared()->samples[i]).c_str());
  fprintf(f, "],\n \"counters\": {");
  bool first = true;
  for (int i = 0; i < MAX_CNT; ++i)
    if (counter_name(i)) {
      fprintf(f, "%s\"%s\": %" PRIu64, first ? "" : ", ", counter_name(i),
              shared()->cnt[i]);
      first = false;
    }
  fprintf(f, "},\n \"errors\": [");
  for (size_t i = 0; i < errors.size(); ++i)
    fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(errors[i]).c_str());
  fprintf(f, "],\n \"violations\": [");
  for (size_t i = 0; i < violations.size(); ++i) {
    auto &v = violations[i];
    fprintf(f,
            "%s\n  {\"item\": \"%s\", \"kind\": \"%s\", \"msg\": \"%s\", "
            "\"what\": \"%s\", \"path\": [",
            i ? "," : "", json_escape(v.item_name).c_str(), v.kind.c_str(),
            json_escape(v.msg).c_str(), json_escape(v.what).c_str());
    for (size_t k = 0; k < v.path.size(); ++k)
      fprintf(f, "%s%u", k ? "," : "", v.path[k]);
    fprintf(f, "]}");
  }
  fprintf(f, "]\n}\n");
  if (f != stdout)
    fclose(f);
  else
    fflush(f);
  return violations.empty() ? (errors.empty() ? 0 : 3) : 1;
}

} // namespace mc
