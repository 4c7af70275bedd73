// Runtime of the model checker: arena allocator, controlled scheduler, replacement for the
// ThreadSanitizer instrumentation callbacks, schedule explorer.  NOT compiled with -fsanitize=thread.
#include "conc.h"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace rt {
// ================================================================================================
// arena
// ================================================================================================
static constexpr uintptr_t ABASE = 0x200000000000ull;
static constexpr size_t ASIZE = 512ull << 20;
static constexpr size_t GR = 16;
struct Block {
  uintptr_t addr;
  uint32_t size;
  uint8_t live;
  int8_t owner; // fiber that allocated it during the concurrent phase; -1: shared
  int8_t freer;
  bool shared;
  bool array; // allocated by new[]
  int8_t born_by; // who allocated it during the concurrent phase (RACE), and at what time of its clock
  uint32_t born_at;
};
static uint32_t *g_shadow; // granule -> block index+1
static Block *g_blocks;
static uint32_t g_nblocks, g_liveblocks;
static size_t g_livebytes;
static uintptr_t g_bump = ABASE;
static constexpr uint32_t MAXBLOCKS = 1u << 20;
bool in_sut = false;
bool poison_freed = false;
bool recycle = false;

static void arena_init() {
  if (g_shadow)
    return;
  void *p = mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ABASE) {
    fprintf(stderr, "arena mmap failed\n");
    _exit(3);
  }
  g_shadow = (uint32_t *)mmap(nullptr, ASIZE / GR * 4, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_blocks = (Block *)mmap(nullptr, sizeof(Block) * MAXBLOCKS, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void arena_reset() {
  arena_init();
  memset(g_shadow, 0, (g_bump - ABASE) / GR * 4 + 64);
  if (g_bump - ABASE > 96ull << 20) // give the pages of an unusually large execution back
    madvise((void *)ABASE, ASIZE, MADV_DONTNEED);
  g_bump = ABASE;
  g_nblocks = g_liveblocks = 0;
  g_livebytes = 0;
}
size_t live_blocks() { return g_liveblocks; }
size_t live_bytes() { return g_livebytes; }
bool in_arena(const void *p) { return (uintptr_t)p - ABASE < ASIZE; }
static inline Block *block_of(uintptr_t a) {
  uint32_t b = g_shadow[(a - ABASE) / GR];
  return b ? &g_blocks[b - 1] : nullptr;
}
bool addr_live(const void *p, size_t n) {
  if (!in_arena(p))
    return true;
  Block *b = block_of((uintptr_t)p);
  return b && b->live && (uintptr_t)p + n <= b->addr + b->size;
}
std::string describe_live(int max) {
  std::string s;
  for (uint32_t i = 0; i < g_nblocks && max; i++)
    if (g_blocks[i].live) {
      s += " block#" + std::to_string(i) + "(" + std::to_string(g_blocks[i].size) + " bytes)";
      max--;
    }
  return s;
}
static int cur_fiber();
static bool conc_active();
static void on_free(Block *b);
static void on_alloc(Block *b);

static void *arena_alloc(size_t n, size_t align, bool array = false) {
  arena_init();
  uintptr_t a = g_bump;
  if (align < 16)
    align = 16;
  a = (a + align - 1) & ~(uintptr_t)(align - 1);
  size_t sz = (n + GR - 1) / GR * GR;
  if (!sz)
    sz = GR;
  if (a + sz + GR > ABASE + ASIZE || g_nblocks >= MAXBLOCKS) {
    fprintf(stderr, "arena exhausted\n");
    fail(PROGRESS, "operation does not stop allocating memory (arena of 512 MB exhausted)");
    _exit(3);
  }
  uint32_t id = g_nblocks++;
  Block &b = g_blocks[id];
  b.addr = a;
  b.size = n;
  b.live = 1;
  b.array = array;
  b.freer = -1;
  b.shared = !conc_active();
  b.owner = conc_active() ? cur_fiber() : -1;
  for (uintptr_t g = a; g < a + sz; g += GR)
    g_shadow[(g - ABASE) / GR] = id + 1;
  g_bump = a + sz + GR; // one granule of red zone
  memset((void *)a, 0xCD, sz);
  g_liveblocks++;
  g_livebytes += n;
  on_alloc(&b);
  return (void *)a;
}
static void arena_free(void *p, bool array, size_t size) {
  Block *b = block_of((uintptr_t)p);
  if (!b || b->addr != (uintptr_t)p) {
    fail(MEM, "free of an address that is not the start of an allocation");
    return;
  }
  if (!b->live) {
    fail(MEM, "double free of block#" + std::to_string(b - g_blocks) + " (" + std::to_string(b->size) + " bytes)");
    return;
  }
  if (b->array != array)
    fail(MEM, std::string("memory allocated by new") + (b->array ? "[]" : "") + " is freed by delete" + (array ? "[]" : "") + " (" + std::to_string(b->size) + " bytes)");
  else if (size && size != b->size)
    fail(MEM, std::to_string(b->size) + " bytes of memory are freed as if they were " + std::to_string(size));
  b->live = 0;
  b->freer = cur_fiber();
  g_liveblocks--;
  g_livebytes -= b->size;
  on_free(b);
  if (poison_freed)
    memset(p, 0xDD, b->size);
  // A run that does not look at memory safety may use the end of the arena again.
  while (recycle && g_nblocks && !g_blocks[g_nblocks - 1].live) {
    Block &t = g_blocks[--g_nblocks];
    memset(&g_shadow[(t.addr - ABASE) / GR], 0, (g_bump - t.addr) / GR * 4);
    g_bump = t.addr;
  }
}

uint64_t heap_hash(const void *root, size_t n) {
  static thread_local std::vector<uint32_t> order;     // block ids in visiting order
  static std::vector<uint32_t> seen;                   // block id -> visit number+1
  static std::vector<uint32_t> touched;
  if (seen.size() < g_nblocks + 1)
    seen.resize(g_nblocks + 1024, 0);
  for (auto t : touched)
    seen[t] = 0;
  touched.clear();
  order.clear();
  uint64_t h = 0x9E3779B97F4A7C15ull, h2 = 0xC2B2AE3D27D4EB4Full;
  auto mix = [&](uint64_t v) {
    h ^= v;
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    h2 = (h2 + v) * 0x9FB21C651E98DF25ull;
    h2 ^= h2 >> 29;
  };
  auto scan = [&](uintptr_t a, size_t sz) {
    size_t w = sz / 8;
    for (size_t i = 0; i < w; i++) {
      uint64_t v;
      memcpy(&v, (void *)(a + i * 8), 8);
      if (v - ABASE < ASIZE) {
        Block *b = block_of(v);
        if (b) {
          uint32_t id = b - g_blocks;
          if (!b->live) {
            mix(0xDEAD);
            mix(v - b->addr);
            continue;
          }
          if (!seen[id]) {
            order.push_back(id);
            touched.push_back(id);
            seen[id] = order.size();
          }
          mix(0xB10C0000ull + seen[id]);
          mix(v - b->addr);
          continue;
        }
      }
      mix(v);
    }
    if (sz % 8) {
      uint64_t v = 0;
      memcpy(&v, (void *)(a + w * 8), sz % 8);
      mix(v);
    }
  };
  Block *rb = in_arena(root) ? block_of((uintptr_t)root) : nullptr;
  if (rb && rb->live) {
    order.push_back(rb - g_blocks);
    touched.push_back(rb - g_blocks);
    seen[rb - g_blocks] = 1;
  } else
    scan((uintptr_t)root, n);
  for (size_t i = 0; i < order.size(); i++) {
    Block &b = g_blocks[order[i]];
    mix(0x51ED0000ull + b.size);
    scan(b.addr, b.size);
  }
  return h ^ (h2 * 3);
}

// ================================================================================================
// shared result area (parent <-> workers)
// ================================================================================================
struct Choice {
  uint8_t n, cur;
  int8_t opt[8];
  uint8_t cost[8];
};
static constexpr int MAXTRACE = 1 << 16;
struct WorkerSlot {
  int program, bound, shard, nsh;
  int viol_kind; // 0 none
  char msg[6000];
  uint32_t ntrace;
  int8_t trace[MAXTRACE];
  uint64_t execs, steps, nodes, pruned, histories, exec_nontrivial;
  char sample[1500];
  int done;
  volatile uint64_t beat; // bumped on every execution
};
struct UnitResult {
  uint8_t status; // 0 not run, 1 complete, 2 truncated by execution limit, 3 truncated by time
  uint8_t hit;    // the preemption bound left something out
  uint64_t execs;
};
struct Shared {
  volatile int next_unit;
  volatile int stop;
  UnitResult res[65536];
  WorkerSlot w[16];
};
static Shared *g_sh;
static WorkerSlot *g_slot;

// ================================================================================================
// scheduler
// ================================================================================================
extern "C" void rt_switch(void **save, void *to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");

enum AccKind : uint8_t { A_READ, A_WRITE, A_INV, A_RESP, A_YIELD, A_LOCK, A_POINT };
struct Acc {
  uintptr_t addr = 0;
  uint32_t size = 0;
  AccKind kind = A_POINT;
};
struct StoreBufEnt {
  uintptr_t addr;
  uint32_t size;
  uint64_t val;
};
enum { MAXF = 6 };
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  Acc pend;
  bool started = false, done = false, asleep = false;
  int spin = 0; // consecutive steps while others are runnable
  const char *nowait = nullptr; // the operation it runs must not wait
  int nowait_steps = 0;
  uintptr_t lastw = 0;
  uint32_t lastwn = 0;
  bool in_sut_saved = false;
  std::vector<StoreBufEnt> sb;
  bool yielded = false;
};
static constexpr size_t STK = 256 << 10;
static Fiber F[MAXF];
static int g_cur = 0;      // running fiber; 0 = main program
static int g_nthr = 0;     // worker fibers are 1..g_nthr
static bool g_running = false; // inside an execution
static bool g_conc = false;    // concurrent phase
static void *g_explorer_sp;
static Program *g_prog;
static int g_bound, g_shard, g_nshards, g_npre;
static bool g_bound_hit; // a preemption was left out only because of the bound
static long g_steps, g_horizon = 60000;
static int g_spinlimit = 3000;
static std::vector<Choice> g_stack;
static size_t g_pos;
static bool g_replaying = false;
static std::vector<int8_t> g_replay;
int g_mask = 0xff;
bool want(int kind) { return g_mask & kind; }
static std::vector<Program *> g_progs;
static int g_nslots = 1;
static uint64_t g_nodes_new;
static bool g_check_mem = true;

enum ExecEnd { E_DONE, E_PRUNED, E_VIOL };
static ExecEnd g_end;

static int cur_fiber() { return g_cur; }
static bool conc_active() { return g_conc; }
int self() { return g_cur; }
void set_nslots(int n) { g_nslots = n; }
int nslots() { return g_nslots; }

[[noreturn]] static void exec_abort(ExecEnd e) {
  g_end = e;
  void *dummy;
  rt_switch(&dummy, g_explorer_sp);
  __builtin_unreachable();
}
static void record_violation(int kind, const std::string &msg) {
  if (g_slot) {
    g_slot->viol_kind = kind;
    snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg.c_str());
    uint32_t n = 0;
    if (g_replaying) {
      for (auto c : g_replay)
        g_slot->trace[n++] = c;
    } else
      for (size_t i = 0; i < g_pos && n < MAXTRACE; i++)
        g_slot->trace[n++] = g_stack[i].cur;
    g_slot->ntrace = n;
  }
}
void (*g_seq_fail)(int kind, const std::string &msg) = nullptr;
long g_seq_yields;
static uint64_t g_masked;
void fail(int kind, const std::string &m) {
  NotSut ns;
  if (g_seq_fail) {
    g_seq_fail(kind, m);
    return;
  }
  if (!(kind & g_mask) && kind != CRASH) {
    g_masked++;
    if (kind == PROGRESS) // cannot continue
      exec_abort(E_PRUNED);
    return;
  }
  record_violation(kind, m);
  if (g_running)
    exec_abort(E_VIOL);
  fprintf(stderr, "failure outside an execution: %s\n", m.c_str());
  _exit(3);
}

static inline bool conflicts(const Acc &p, uintptr_t addr, uint32_t size, bool write) {
  if (p.kind == A_INV || p.kind == A_YIELD || p.kind == A_POINT)
    return false;
  if (p.kind == A_READ && !write)
    return false;
  return p.addr < addr + size && addr < p.addr + p.size;
}
static inline void wake_conflicting(uintptr_t addr, uint32_t size, bool write) {
  for (int i = 1; i <= g_nthr; i++)
    if (F[i].asleep && i != g_cur && conflicts(F[i].pend, addr, size, write))
      F[i].asleep = false;
}


// ---- happens-before of the C++ memory model (runs looking for RACE) -----------------------------
// Vector clocks, joined through release/acquire operations exactly as strong as their memory order says.
static bool g_hb;
using Clk = uint32_t;
struct VC {
  Clk c[MAXF];
  void join(const VC &o) {
    for (int i = 0; i < MAXF; i++)
      c[i] = std::max(c[i], o.c[i]);
  }
};
enum HbKind { PW, PR, AW, AR, FREE }; // plain write, plain read, atomic write, atomic read, deallocation
bool optimistic_reads = false;
struct HbCell { // one word of memory: the latest access of each kind by each thread to each byte
  uintptr_t word;
  uint32_t gen;
  Clk k[4][MAXF][8];
};
struct HbLoc { // an atomic object or mutex: what an acquire of its current value synchronizes with
  uintptr_t addr;
  uint32_t gen;
  int8_t last;
  VC v;
};
static constexpr uint32_t HBN = 1 << 15;
static HbCell *g_hbcell;
static HbLoc *g_hbloc;
static uint32_t g_hbgen, g_hbused;
static VC g_vc[MAXF], g_vacq[MAXF], g_vrel[MAXF];
static void hb_reset() {
  if (!g_hb)
    return;
  if (!g_hbcell) {
    auto mm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    g_hbcell = (HbCell *)mm(sizeof(HbCell) * HBN);
    g_hbloc = (HbLoc *)mm(sizeof(HbLoc) * HBN);
  }
  g_hbgen++;
  g_hbused = 0;
  memset(g_vc, 0, sizeof g_vc);
  memset(g_vacq, 0, sizeof g_vacq);
  memset(g_vrel, 0, sizeof g_vrel);
  for (int i = 0; i < MAXF; i++)
    g_vc[i].c[i] = 1;
}
static inline bool hb_on() { return g_hb && g_conc && in_sut && g_cur > 0; }
template <typename C> static C *hb_find(C *tab, uintptr_t key, uintptr_t C::*field) {
  uint32_t i = (uint32_t)((key >> 3) * 0x9E3779B97F4A7C15ull >> 40) & (HBN - 1);
  for (;; i = (i + 1) & (HBN - 1)) {
    C &c = tab[i];
    if (c.gen != g_hbgen) {
      if (++g_hbused > HBN / 2) {
        fprintf(stderr, "too many memory words in one execution\n");
        _exit(3);
      }
      memset((void *)&c, 0, sizeof c);
      c.gen = g_hbgen;
      c.*field = key;
      return &c;
    }
    if (c.*field == key)
      return &c;
  }
}
static std::string acc_str(const char *what, uintptr_t addr, size_t n);
static void hb_access(uintptr_t addr, size_t n, HbKind kind) {
  static const char *name[] = {"write", "read", "atomic write", "atomic read", "deallocation"};
  auto what = [&](const char *n0) { return "data race: the " + acc_str(n0, addr, n) + " by T" + std::to_string(g_cur) + " is not ordered after "; };
  if (Block *b = block_of(addr); b && b->born_by > 0 && b->born_by != g_cur && b->born_at > g_vc[g_cur].c[(int)b->born_by])
    fail(RACE, what(name[kind]) + "its allocation by T" + std::to_string(b->born_by));
  for (uintptr_t w = addr & ~7ull; w < addr + n; w += 8) {
    HbCell *c = hb_find(g_hbcell, w, &HbCell::word);
    int b0 = w < addr ? addr - w : 0, b1 = std::min<uintptr_t>(8, addr + n - w);
    for (int u = 1; u <= g_nthr; u++) {
      if (u == g_cur)
        continue;
      Clk seen = g_vc[g_cur].c[u];
      for (int k = 0; k < 4; k++) {
        bool r = optimistic_reads && kind != FREE; // plain reads may race with writes, the reader finds out
        bool conflict = kind == FREE || (kind == PW ? !(r && (k == PR || k == AR)) : kind == PR ? !r && (k == PW || k == AW) : kind == AW ? k == PW || (k == PR && !r) : k == PW && !r);
        if (conflict)
          for (int b = b0; b < b1; b++)
            if (c->k[k][u][b] > seen) {
              fail(RACE, what(name[kind]) + "the " + name[k] + " of it by T" + std::to_string(u));
              return;
            }
      }
    }
    for (int b = b0; b < b1 && kind != FREE; b++)
      c->k[kind][g_cur][b] = g_vc[g_cur].c[g_cur];
  }
}
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool is_acq(int mo) { return mo != MO_RELAXED && mo != MO_RELEASE; }
static inline bool is_rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
static void hb_load(uintptr_t a, uint32_t n, int mo) {
  if (!hb_on())
    return;
  HbLoc *l = hb_find(g_hbloc, a, &HbLoc::addr);
  (is_acq(mo) ? g_vc : g_vacq)[g_cur].join(l->v);
  if (in_arena((void *)a))
    hb_access(a, n, AR);
}
// rmw: continues the release sequence, whoever wrote the value before
static void hb_store(uintptr_t a, uint32_t n, int mo, bool rmw) {
  if (!hb_on())
    return;
  if (in_arena((void *)a))
    hb_access(a, n, AW);
  HbLoc *l = hb_find(g_hbloc, a, &HbLoc::addr);
  if (rmw)
    (is_acq(mo) ? g_vc : g_vacq)[g_cur].join(l->v);
  else if (l->last != g_cur)
    memset(&l->v, 0, sizeof l->v);
  l->v.join(g_vrel[g_cur]);
  l->last = rmw ? l->last : g_cur;
  if (is_rel(mo)) {
    if (!rmw)
      l->v = g_vc[g_cur];
    l->v.join(g_vc[g_cur]);
    g_vc[g_cur].c[g_cur]++;
  }
}
static void hb_fence(int mo) {
  if (!hb_on())
    return;
  if (is_acq(mo))
    g_vc[g_cur].join(g_vacq[g_cur]);
  if (is_rel(mo)) {
    g_vrel[g_cur] = g_vc[g_cur];
    g_vc[g_cur].c[g_cur]++;
  }
}
static void hb_lock(void *m) {
  if (hb_on())
    g_vc[g_cur].join(hb_find(g_hbloc, (uintptr_t)m, &HbLoc::addr)->v);
}
static void hb_unlock(void *m) {
  if (!hb_on())
    return;
  hb_find(g_hbloc, (uintptr_t)m, &HbLoc::addr)->v = g_vc[g_cur];
  g_vc[g_cur].c[g_cur]++;
}
static void on_free(Block *b) {
  if (g_conc)
    wake_conflicting(b->addr, b->size, true);
  if (hb_on())
    hb_access(b->addr, b->size, FREE);
}
static void on_alloc(Block *b) {
  b->born_by = hb_on() ? g_cur : 0;
  b->born_at = hb_on() ? g_vc[g_cur].c[g_cur] : 0;
}

// mutexes: the word in the object holds owner+1
struct MutexWord {
  uint64_t w;
};
static inline bool enabled(int i) {
  Fiber &f = F[i];
  if (f.done)
    return false;
  if (f.pend.kind == A_LOCK) {
    if (!addr_live((void *)f.pend.addr, 8))
      return true; // will report when it runs
    return ((MutexWord *)f.pend.addr)->w == 0;
  }
  return true;
}

static void resume_fiber(int to) {
  int from = g_cur;
  if (from == to)
    return;
  F[from].in_sut_saved = in_sut;
  g_cur = to;
  in_sut = F[to].in_sut_saved;
  rt_switch(&F[from].sp, F[to].sp);
  // back in `from`
}

static int decide(int n, const int8_t *opt, const uint8_t *cost) {
  if (n == 1)
    return 0;
  int idx;
  if (g_replaying) {
    idx = g_pos < g_replay.size() ? g_replay[g_pos] : 0;
    g_pos++;
    if (idx >= n)
      idx = 0;
    return idx;
  }
  if (g_pos < g_stack.size()) {
    Choice &c = g_stack[g_pos];
    bool same = c.n == n;
    for (int i = 0; same && i < n; i++)
      same = c.opt[i] == opt[i];
    if (!same) {
      fprintf(stderr, "internal error: nondeterministic replay in program %s (pos %zu)\n", g_prog->name.c_str(), g_pos);
      _exit(3);
    }
    idx = c.cur;
  } else {
    Choice c;
    c.n = n;
    c.cur = 0;
    for (int i = 0; i < n; i++) {
      c.opt[i] = opt[i];
      c.cost[i] = cost[i];
    }
    {
      NotSut ns;
      g_stack.push_back(c);
    }
    g_nodes_new++;
    idx = 0;
  }
  g_pos++;
  return idx;
}
int choose(int n) {
  int8_t o[8];
  uint8_t c[8];
  for (int i = 0; i < n; i++)
    o[i] = i, c[i] = 0;
  return decide(n, o, c);
}

static std::string thread_states() {
  std::string s;
  for (int i = 1; i <= g_nthr; i++) {
    s += " T" + std::to_string(i) + (F[i].done ? "=done" : F[i].pend.kind == A_LOCK ? "=waiting-for-lock" : "=runnable");
  }
  return s;
}

static std::vector<int> *g_schedlog;

static void drain(int t);
// Choose who runs next.  Called by the running fiber (which may be done or blocked or yielding).
static void schedule(bool can_stay, bool yielding) {
  int8_t opt[8];
  uint8_t cost[8];
  int n = 0;
  int me = g_cur;
  bool me_en = can_stay && me > 0 && enabled(me);
  if (me_en && yielding) {
    // free choice among the others; staying is only possible if nobody else can run
    for (int i = 1; i <= g_nthr; i++)
      if (i != me && enabled(i) && !F[i].asleep)
        opt[n] = i, cost[n++] = 0;
    if (n == 0)
      opt[n] = me, cost[n++] = 0;
  } else if (me_en) {
    opt[n] = me, cost[n++] = 0;
    if (g_npre >= g_bound) {
      for (int i = 1; i <= g_nthr; i++)
        g_bound_hit |= i != me && enabled(i) && !F[i].asleep;
    } else if (!(g_npre == 0 && g_nshards > 1 && g_steps % g_nshards != g_shard))
      for (int i = 1; i <= g_nthr; i++)
        if (i != me && enabled(i) && !F[i].asleep)
          opt[n] = i, cost[n++] = 1;
  } else {
    for (int i = 1; i <= g_nthr; i++)
      if (i != me && enabled(i) && !F[i].asleep)
        opt[n] = i, cost[n++] = 0;
    if (n == 0) {
      bool asleep = false, undone = false;
      for (int i = 1; i <= g_nthr; i++) {
        if (!F[i].done) {
          undone = true;
          if (enabled(i))
            asleep = true;
        }
      }
      if (asleep)
        exec_abort(E_PRUNED);
      if (undone) {
        fail(PROGRESS, "deadlock:" + thread_states());
        exec_abort(E_PRUNED);
      }
      resume_fiber(0); // all done: back to the main program
      return;
    }
  }
  int k = decide(n, opt, cost);
  int to = opt[k];
  if (cost[k]) {
    g_npre++;
    F[me].asleep = !g_prog->tso;
  }
  if (to != me) {
    F[me].spin = 0;
    // a buffered store may reach memory now, or only at this thread's next draining instruction
    if (g_prog->tso && me > 0 && !F[me].sb.empty() && choose(2))
      drain(me);
    resume_fiber(to);
  }
}

static void mark_shared(Block *b) {
  // b and everything reachable from it becomes visible to other threads
  if (b->shared)
    return;
  b->shared = true;
  NotSut ns;
  static std::vector<Block *> work;
  size_t base = work.size();
  work.push_back(b);
  while (work.size() > base) {
    Block *x = work.back();
    work.pop_back();
    for (size_t o = 0; o + 8 <= x->size; o += 8) {
      uint64_t v;
      memcpy(&v, (void *)(x->addr + o), 8);
      if (v - ABASE < ASIZE) {
        Block *y = block_of(v);
        if (y && !y->shared) {
          y->shared = true;
          work.push_back(y);
        }
      }
    }
  }
}
static inline void note_written(uintptr_t addr, uint32_t n) {
  // memory at [addr,addr+n) (shared) now has new contents: pointers in it escape
  uintptr_t a = addr & ~7ull, e = addr + n;
  for (; a < e; a += 8) {
    uint64_t v;
    memcpy(&v, (void *)a, 8);
    if (v - ABASE < ASIZE) {
      Block *y = block_of(v);
      if (y && !y->shared)
        mark_shared(y);
    }
  }
}
static inline bool is_shared_loc(uintptr_t a) {
  if (a - ABASE < ASIZE) {
    Block *b = block_of(a);
    if (!b)
      return true;
    if (!b->shared && b->owner != g_cur)
      mark_shared(b);
    return b->shared;
  }
  return false; // stacks and globals: harness state
}
static inline void flush_lastw() {
  Fiber &f = F[g_cur];
  if (f.lastw) {
    uintptr_t a = f.lastw;
    f.lastw = 0;
    if (is_shared_loc(a))
      note_written(a, f.lastwn);
  }
}

static void step_check() {
  if (++g_steps > g_horizon) {
    fail(PROGRESS, g_conc ? "operation does not complete under a fair schedule (step horizon exceeded):" + thread_states()
                          : std::string("an operation started after all threads finished does not complete"));
    exec_abort(E_PRUNED);
  }
}

NoWait::NoWait(const char *what) {
  if (g_conc && g_cur > 0) {
    F[g_cur].nowait = what;
    F[g_cur].nowait_steps = 0;
  }
}
NoWait::~NoWait() {
  if (g_conc && g_cur > 0)
    F[g_cur].nowait = nullptr;
}
static void waits(const char *how) {
  NotSut s;
  std::string what = F[g_cur].nowait;
  F[g_cur].nowait = nullptr;
  fail(NOWAIT, "T" + std::to_string(g_cur) + ": " + what + ", which never waits for other threads, " + how + ";" + thread_states() + "; " + history_str());
}

// scheduling point before an access of the running fiber
static void sched_point(const Acc &a, bool yielding = false) {
  Fiber &f = F[g_cur];
  f.pend = a;
  step_check();
  if (__builtin_expect(f.nowait && ++f.nowait_steps > g_spinlimit, 0))
    waits("does not return before others go on");
  bool stay = true;
  if (!yielding && ++f.spin > g_spinlimit) {
    // fairness: a thread that runs for very long hands over
    f.spin = 0;
    bool others = false;
    for (int i = 1; i <= g_nthr; i++)
      if (i != g_cur && enabled(i) && !F[i].asleep)
        others = true;
    if (others) {
      schedule(true, true);
      goto resumed;
    }
  }
  if (yielding)
    f.spin = 0;
  schedule(stay, yielding);
resumed:
  // about to perform a
  F[g_cur].asleep = false;
  if (a.kind == A_READ || a.kind == A_WRITE || a.kind == A_LOCK)
    wake_conflicting(a.addr, a.size, a.kind != A_READ);
}

static std::string acc_str(const char *what, uintptr_t addr, size_t n) {
  char buf[200];
  Block *b = addr - ABASE < ASIZE ? block_of(addr) : nullptr;
  if (b)
    snprintf(buf, sizeof buf, "%s of %zu bytes at offset %zd of %s block#%zd (%u bytes%s)", what, n, (ssize_t)(addr - b->addr),
             b->live ? "live" : "freed", (ssize_t)(b - g_blocks), b->size, b->live ? "" : (", freed by T" + std::to_string(b->freer)).c_str());
  else
    snprintf(buf, sizeof buf, "%s of %zu bytes at an address that was never allocated", what, n);
  return buf;
}
static bool g_touch;
static size_t g_touch_min;
static uint32_t g_touch_end; // blocks allocated during the observation are not nodes of the tree
static const std::vector<std::pair<uint32_t, uint32_t>> *g_touch_except;
static std::vector<uint32_t> g_touched;
uint32_t blocks_so_far() { return g_nblocks; }
void touch_start(size_t min, const std::vector<std::pair<uint32_t, uint32_t>> &except) {
  g_touched.clear();
  g_touch_min = min;
  g_touch_except = &except;
  g_touch_end = g_nblocks;
  g_touch = true;
}
int touch_stop() {
  g_touch = false;
  return g_touched.size();
}
static inline void mem_check(const char *what, uintptr_t addr, size_t n) {
  if (addr - ABASE < ASIZE) {
    Block *b = block_of(addr);
    if (__builtin_expect(!b || !b->live || addr + n > b->addr + b->size, 0))
      fail(MEM, "invalid " + acc_str(what, addr, n));
    if (__builtin_expect(g_touch, 0) && b && b->size >= g_touch_min) {
      NotSut s;
      uint32_t id = b - g_blocks;
      bool no = id >= g_touch_end || std::find(g_touched.begin(), g_touched.end(), id) != g_touched.end();
      for (auto &r : *g_touch_except)
        no |= id >= r.first && id < r.second;
      if (!no)
        g_touched.push_back(id);
    }
  }
}

// plain access. Called before the access happens.
static inline void plain_access(uintptr_t addr, uint32_t n, bool write) {
  if (!in_sut)
    return;
  if (addr - ABASE >= ASIZE)
    return;
  if (g_conc) {
    flush_lastw();
    if (is_shared_loc(addr)) {
      if (g_prog->plain)
        sched_point({addr, n, write ? A_WRITE : A_READ});
      else
        wake_conflicting(addr, n, write);
    }
    if (write) {
      F[g_cur].lastw = addr;
      F[g_cur].lastwn = n;
    }
  }
  mem_check(write ? "write" : "read", addr, n);
  if (__builtin_expect(hb_on(), 0))
    hb_access(addr, n, write ? PW : PR);
}
static inline void atomic_pre(uintptr_t addr, uint32_t n, bool write) {
  if (g_conc && in_sut) {
    flush_lastw();
    if (is_shared_loc(addr))
      sched_point({addr, n, write ? A_WRITE : A_READ});
  } else if (g_running && in_sut)
    step_check();
  if (in_sut)
    mem_check(write ? "atomic write" : "atomic read", addr, n);
}
static inline void atomic_post(uintptr_t addr, uint32_t n) {
  if (g_conc && in_sut && is_shared_loc(addr))
    note_written(addr, n);
}

void yield_point() {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    if (F[g_cur].nowait)
      waits("goes to sleep");
    sched_point({0, 0, A_YIELD}, !g_prog->stubborn);
  } else if (g_running)
    step_check();
  else if (g_seq_fail && ++g_seq_yields > 200000)
    fail(PROGRESS, "operation does not return (endless retry)");
}
void point() {
  if (g_conc && g_cur > 0) {
    if (!F[g_cur].started) { // starting the thread was the scheduling decision
      F[g_cur].started = true;
      return;
    }
    flush_lastw();
    sched_point({0, 0, A_INV});
  }
}

// ---- mutex ----------------------------------------------------------------------------------
static void drain(int t);
void mutex_ctor(void *m) { ((MutexWord *)m)->w = 0; }
void mutex_dtor(void *m) {
  if (g_running || g_seq_fail)
    if (((MutexWord *)m)->w != 0)
      fail(MEM, "a mutex is destroyed while thread T" + std::to_string(((MutexWord *)m)->w - 1) + " holds it");
}
void mutex_lock(void *m) {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    drain(g_cur);
    if (__builtin_expect(F[g_cur].nowait != nullptr, 0) && ((MutexWord *)m)->w && addr_live(m, 8))
      waits(("waits for a mutex held by T" + std::to_string(((MutexWord *)m)->w - 1)).c_str());
    if (is_shared_loc((uintptr_t)m))
      sched_point({(uintptr_t)m, 8, A_LOCK});
    F[g_cur].pend.kind = A_POINT;
  } else if (g_running)
    step_check();
  if (!in_arena(m)) {
    if (m == nullptr || (uintptr_t)m < 4096) {
      fail(CRASH, "locking a mutex through a null pointer");
    }
  } else
    mem_check("mutex lock", (uintptr_t)m, 8);
  uint64_t &w = ((MutexWord *)m)->w;
  if (w) {
    if (g_conc && g_cur > 0 && !addr_live(m, 8)) {
      w = 0; // freed memory, reported (or masked) above
    } else {
      fail(PROGRESS, w == (uint64_t)g_cur + 1 ? "self deadlock: locking a mutex already held by the same thread"
                                              : "deadlock: locking a mutex held by T" + std::to_string(w - 1) + " which will not release it");
      if (g_running)
        exec_abort(E_PRUNED);
    }
  }
  w = g_cur + 1;
  hb_lock(m);
}
bool mutex_trylock(void *m) {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    drain(g_cur);
    if (is_shared_loc((uintptr_t)m))
      sched_point({(uintptr_t)m, 8, A_WRITE});
  } else if (g_running)
    step_check();
  if (in_arena(m))
    mem_check("mutex try_lock", (uintptr_t)m, 8);
  uint64_t &w = ((MutexWord *)m)->w;
  if (w)
    return false;
  w = g_cur + 1;
  hb_lock(m);
  return true;
}
void mutex_unlock(void *m) {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    drain(g_cur);
    if (is_shared_loc((uintptr_t)m))
      sched_point({(uintptr_t)m, 8, A_WRITE});
  }
  if ((uintptr_t)m < 4096)
    fail(CRASH, "unlocking a mutex through a null pointer");
  if (in_arena(m))
    mem_check("mutex unlock", (uintptr_t)m, 8);
  uint64_t &w = ((MutexWord *)m)->w;
  if (w != (uint64_t)g_cur + 1 && (g_running || g_seq_fail)) {
    if (addr_live(m, 8))
      fail(PROGRESS, w ? "unlocking a mutex held by another thread" : "unlocking a mutex that is not locked");
  }
  hb_unlock(m);
  w = 0;
}
bool mutex_is_locked(void *m) {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    if (is_shared_loc((uintptr_t)m))
      sched_point({(uintptr_t)m, 8, A_READ});
  }
  if (in_arena(m))
    mem_check("mutex is_locked", (uintptr_t)m, 8);
  return ((MutexWord *)m)->w != 0;
}

// ---- store buffers (TSO mode) ------------------------------------------------------------------
static inline void raw_store(uintptr_t a, uint32_t n, uint64_t v) { memcpy((void *)a, &v, n); }
static void drain(int t) {
  if (F[t].sb.empty())
    return;
  for (auto &e : F[t].sb) {
    raw_store(e.addr, e.size, e.val);
    wake_conflicting(e.addr, e.size, true);
    note_written(e.addr, e.size);
  }
  F[t].sb.clear();
}

// ---- history --------------------------------------------------------------------------------------
struct HOp {
  int op, key, val, res, thr;
  uint64_t inv, ret;
};
static HOp g_h[256];
static int g_nh;
static uint64_t g_clock;
uint64_t now() { return ++g_clock; }
int inv(int op, int key, int val) {
  point();
  HOp &h = g_h[g_nh];
  h = {op, key, val, -999, g_cur, ++g_clock, 0};
  return g_nh++;
}
void resp(int i, int res) {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    for (int t = 1; t <= g_nthr; t++)
      if (F[t].asleep && t != g_cur && F[t].pend.kind == A_INV)
        F[t].asleep = false;
  }
  g_h[i].res = res;
  g_h[i].ret = ++g_clock;
}
void resp_scan(int i, const int *keys, const int *vals, int n) {
  if (g_conc && g_cur > 0) {
    flush_lastw();
    for (int t = 1; t <= g_nthr; t++)
      if (F[t].asleep && t != g_cur && F[t].pend.kind == A_INV)
        F[t].asleep = false;
  }
  uint64_t c = ++g_clock;
  HOp h = g_h[i];
  h.op = SEARCH;
  h.ret = c;
  for (int k = 0; k < n; k++) {
    h.key = keys[k];
    h.res = vals[k];
    g_h[k ? g_nh++ : i] = h;
  }
}
static const char *opn[] = {"insert", "upsert", "update", "delete", "search", "other"};
std::string history_str() {
  std::string s;
  for (int i = 0; i < g_nh; i++) {
    HOp &h = g_h[i];
    char b[160];
    snprintf(b, sizeof b, "%s[%llu-%llu]T%d:%s(%d", i ? " " : "", (unsigned long long)h.inv, (unsigned long long)h.ret, h.thr, opn[h.op], h.key);
    s += b;
    if (h.op <= UPDATE)
      s += "," + std::to_string(h.val);
    s += ")=" + (h.res == NONE ? std::string("none") : std::to_string(h.res));
  }
  return s;
}
static int g_keys[256], g_nkeys;
static int keyidx(int k) {
  for (int i = 0; i < g_nkeys; i++)
    if (g_keys[i] == k)
      return i;
  g_keys[g_nkeys] = k;
  return g_nkeys++;
}
static std::unordered_set<uint64_t> g_lin_memo;
static int g_init[64][2], g_ninit;
void init_entry(int key, int val) {
  if (g_ninit < 64)
    g_init[g_ninit][0] = key, g_init[g_ninit++][1] = val;
}
// The operations on one key (keys are independent of each other: linearizability is compositional).
static HOp *g_kop[64];
static int g_nkop;
static bool lin_rec(uint64_t donemask, int old) {
  if (donemask == (g_nkop == 64 ? ~0ull : (1ull << g_nkop) - 1))
    return true;
  uint64_t hh = (donemask * 0x9E3779B97F4A7C15ull ^ (uint64_t)(old + 7)) * 0xff51afd7ed558ccdull;
  hh ^= hh >> 31;
  if (!g_lin_memo.insert(hh).second)
    return false;
  uint64_t minret = ~0ull;
  for (int i = 0; i < g_nkop; i++)
    if (!(donemask >> i & 1))
      minret = std::min(minret, g_kop[i]->ret);
  for (int i = 0; i < g_nkop; i++) {
    if (donemask >> i & 1)
      continue;
    HOp &h = *g_kop[i];
    if (h.inv > minret)
      continue;
    int nw = old;
    bool ok = false;
    switch (h.op) {
    case INSERT:
      ok = h.res == (old == NONE);
      if (old == NONE)
        nw = h.val;
      break;
    case UPSERT:
      ok = h.res == old;
      nw = h.val;
      break;
    case UPDATE:
      ok = h.res == old;
      if (old != NONE)
        nw = h.val;
      break;
    case DELETE:
      ok = h.res == old;
      nw = NONE;
      break;
    case SEARCH:
      ok = h.res == old;
      break;
    default:
      ok = true;
    }
    if (!ok)
      continue;
    if (lin_rec(donemask | 1ull << i, nw))
      return true;
  }
  return false;
}
static std::unordered_set<uint64_t> g_seen_hist;
void check_linearizable(int kind) {
  NotSut ns;
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 33; };
  // order of inv/ret events matters, absolute clock does not: clock counts only history events
  for (int i = 0; i < g_nh; i++) {
    mix(g_h[i].op); mix(g_h[i].key); mix(g_h[i].val); mix(g_h[i].res + 5); mix(g_h[i].inv); mix(g_h[i].ret); mix(g_h[i].thr);
  }
  if (!g_seen_hist.insert(h).second)
    return;
  if (g_slot) {
    g_slot->histories++;
    if (g_slot->histories % 16 == 1)
      snprintf(g_slot->sample, sizeof g_slot->sample, "%s | %s", g_prog->name.c_str(), history_str().c_str());
  }
  g_nkeys = 0;
  for (int i = 0; i < g_nh; i++)
    keyidx(g_h[i].key);
  for (int k = 0; k < g_nkeys; k++) {
    g_nkop = 0;
    for (int i = 0; i < g_nh; i++)
      if (g_h[i].key == g_keys[k] && g_nkop < 64)
        g_kop[g_nkop++] = &g_h[i];
    int st = NONE;
    for (int i = 0; i < g_ninit; i++)
      if (g_init[i][0] == g_keys[k])
        st = g_init[i][1];
    g_lin_memo.clear();
    if (!lin_rec(0, st)) {
      fail(kind, "no sequential order explains the results for key " + std::to_string(g_keys[k]) + (st == NONE ? "" : " (initially " + std::to_string(st) + ")") +
                     ": " + history_str());
      return;
    }
  }
}

// ---- running one execution --------------------------------------------------------------------
static void fiber_body(int i) {
  // first entry: the fiber starts at an invocation point
  try {
    if (i == 0) {
      in_sut = false;
      g_prog->setup();
      flush_lastw();
      in_sut = false;
      if (g_nthr > 0) {
        g_conc = true;
        for (int t = 1; t <= g_nthr; t++)
          F[t].pend = {0, 0, A_INV};
        g_cur = 0;
        schedule(false, false);
        g_conc = false;
      }
      g_steps = 0;
      g_prog->finish();
      in_sut = false;
      exec_abort(E_DONE);
    } else {
      F[i].asleep = false;
      g_prog->thread(i - 1);
      flush_lastw();
      drain(i);
    }
  } catch (const std::exception &e) {
    fail(CRASH, std::string("uncaught exception: ") + e.what());
  } catch (...) {
    fail(CRASH, "uncaught exception");
  }
  F[i].done = true;
  F[i].pend.kind = A_POINT;
  schedule(false, false);
  abort();
}
static void fiber_entry() {
  fiber_body(g_cur);
  abort();
}
static void prep_fiber(int i) {
  Fiber &f = F[i];
  if (!f.stack) {
    f.stack = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(f.stack, 4096, PROT_NONE);
    f.stack += 4096;
  }
  uintptr_t *sp = (uintptr_t *)(f.stack + STK);
  *--sp = 0;                       // keep the stack aligned at function entry
  *--sp = (uintptr_t)&fiber_entry; // return address
  for (int k = 0; k < 6; k++)
    *--sp = 0;
  f.sp = sp;
  f.started = f.done = f.asleep = false;
  f.spin = 0;
  f.nowait = nullptr;
  f.lastw = 0;
  f.in_sut_saved = false;
  f.sb.clear();
  f.pend = Acc();
}
static ExecEnd run_one() {
  arena_reset();
  g_nthr = g_prog->nthreads;
  g_nslots = g_nthr + 1;
  for (int i = 0; i <= g_nthr; i++)
    prep_fiber(i);
  g_cur = 0;
  g_conc = false;
  g_pos = 0;
  g_steps = 0;
  g_npre = 0;
  g_nh = g_ninit = 0;
  g_clock = 0;
  in_sut = false;
  g_end = E_DONE;
  g_hb = (g_mask & RACE) && !g_prog->tso;
  hb_reset();
  g_running = true;
  rt_switch(&g_explorer_sp, F[0].sp);
  g_running = false;
  g_conc = false;
  in_sut = false;
  g_cur = 0;
  g_prog->cleanup();
  return g_end;
}

void add_program(Program *p) { g_progs.push_back(p); }

// ================================================================================================
// driver
// ================================================================================================
static char g_altstack[64 << 10];
static const char *signame(int s) {
  switch (s) {
  case SIGSEGV: return "segmentation fault";
  case SIGABRT: return "abort";
  case SIGBUS: return "bus error";
  case SIGFPE: return "arithmetic fault";
  case SIGILL: return "illegal instruction";
  }
  return "signal";
}
static char g_assertmsg[512];
void (*g_seq_crash)(int sig, const char *msg) = nullptr;
static void on_signal(int s) {
  std::string m = std::string(signame(s)) + (g_assertmsg[0] ? std::string(": ") + g_assertmsg : "");
  if (g_seq_crash) {
    g_seq_crash(s, m.c_str());
    _exit(1);
  }
  if (g_running) {
    record_violation(CRASH, m + " [" + history_str() + "]");
    _exit(1);
  }
  fprintf(stderr, "checker crashed: %s\n", m.c_str());
  _exit(3);
}
void install_handlers() {
  stack_t ss{};
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
    sigaction(s, &sa, nullptr);
}

struct Unit {
  int prog, shard, nsh, bound;
};
static double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static double g_t0;
static double g_deadline;

static int run_unit(const Unit &u, long max_execs) {
  g_prog = g_progs[u.prog];
  g_bound = u.bound;
  g_shard = u.shard;
  g_nshards = u.nsh;
  g_stack.clear();
  g_seen_hist.clear();
  g_slot->program = u.prog;
  g_slot->bound = u.bound;
  g_slot->shard = u.shard;
  g_bound_hit = false;
  long n = 0;
  for (;;) {
    g_nodes_new = 0;
    ExecEnd e = run_one();
    g_slot->beat++;
    g_slot->steps += g_steps;
    g_slot->nodes += g_nodes_new;
    if (e == E_VIOL)
      return -1;
    if (e == E_PRUNED)
      g_slot->pruned++;
    else if (g_npre > 0 || u.shard == 0) {
      g_slot->execs++;
      if (g_npre > 0)
        g_slot->exec_nontrivial++;
    }
    n++;
    g_stack.resize(g_pos < g_stack.size() ? g_pos : g_stack.size());
    while (!g_stack.empty() && g_stack.back().cur + 1 >= g_stack.back().n)
      g_stack.pop_back();
    if (g_stack.empty())
      return 1;
    g_stack.back().cur++;
    if (max_execs && n >= max_execs)
      return 2;
    if ((n & 255) == 0) {
      if (g_sh->stop)
        return 0;
      if (wall() > g_deadline)
        return 3;
    }
  }
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

static const char *argval(int argc, char **argv, const char *name, const char *def) {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], name))
      return argv[i + 1];
  return def;
}

// usage: prog --mask M --tier quick|thorough --out result.json [--time S] [--only SUBSTR] [--replay FILE] [--workers N]
int conc_main(int argc, char **argv) {
  g_t0 = wall();
  g_mask = atoi(argval(argc, argv, "--mask", "255"));
  bool thorough = !strcmp(argval(argc, argv, "--tier", "quick"), "thorough");
  const char *out = argval(argc, argv, "--out", "");
  const char *only = argval(argc, argv, "--only", "");
  const char *replay = argval(argc, argv, "--replay", "");
  const char *ps = getenv("RT_BOUND");
  int nworkers = atoi(argval(argc, argv, "--workers", "8"));
  g_deadline = g_t0 + atof(argval(argc, argv, "--time", thorough ? "3000" : "600"));
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_horizon = atol(argval(argc, argv, "--horizon", "60000"));

  if (*replay) {
    FILE *f = fopen(replay, "r");
    if (!f)
      return 3;
    char line[1 << 20];
    std::string prog;
    int bound = 3, shard = 0, nsh = 1;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "program ", 8)) {
        prog = line + 8;
        while (!prog.empty() && (prog.back() == '\n' || prog.back() == ' '))
          prog.pop_back();
      }
      if (!strncmp(line, "bound ", 6))
        sscanf(line, "bound %d shard %d of %d", &bound, &shard, &nsh);
      if (!strncmp(line, "choices", 7)) {
        char *p = line + 7;
        int v, k;
        while (sscanf(p, "%d%n", &v, &k) == 1) {
          g_replay.push_back(v);
          p += k;
        }
      }
    }
    fclose(f);
    for (auto *p : g_progs)
      if (p->name == prog) {
        g_prog = p;
        g_replaying = true;
        g_bound = bound;
        g_shard = shard;
        g_nshards = nsh;
        g_slot = &g_sh->w[0];
        pid_t pid = fork();
        if (!pid) {
          install_handlers();
          ExecEnd e = run_one();
          _exit(e == E_VIOL ? 1 : 0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (g_slot->viol_kind) {
          printf("replay: VIOLATED kind=%d %s\n", g_slot->viol_kind, g_slot->msg);
          return 1;
        }
        printf("replay: no violation (status %d)\n", st);
        return 0;
      }
    fprintf(stderr, "replay: no such program\n");
    return 3;
  }

  // Round 0 explores every program up to its own preemption bound.  If there is time left, further
  // rounds raise the bounds by one each, except of programs whose schedules were all explored.
  double deepen_until = g_t0 + atof(argval(argc, argv, "--deepen", "0")), base_deadline = g_deadline;
  std::vector<Unit> units;
  std::vector<bool> used(g_progs.size(), false), closed(g_progs.size(), false), base_done(g_progs.size(), false);
  std::vector<int> pb(g_progs.size(), -1);        // largest bound completely explored
  std::vector<uint64_t> pex(g_progs.size(), 0), lastex(g_progs.size(), 0);
  int viol = -1, err = 0;
  auto worker = [&](int w) {
    g_slot = &g_sh->w[w];
    install_handlers();
    for (;;) {
      int i = __sync_fetch_and_add(&g_sh->next_unit, 1);
      if (i >= (int)units.size() || g_sh->stop)
        break;
      Program *p = g_progs[units[i].prog];
      long me = thorough ? p->max_execs_thorough : p->max_execs_quick;
      if (me)
        me = me / units[i].nsh + 1;
      uint64_t before = g_slot->execs;
      g_slot->nsh = units[i].nsh;
      int r = run_unit(units[i], me);
      g_sh->res[i].execs = g_slot->execs - before;
      g_sh->res[i].hit = g_bound_hit;
      if (r == -1) {
        g_sh->stop = 1;
        _exit(1);
      }
      g_sh->res[i].status = r;
    }
    g_slot->done = 1;
    _exit(0);
  };
  for (int round = 0; round < 64; round++) {
    units.clear();
    std::vector<int> order;
    for (size_t p = 0; p < g_progs.size(); p++)
      if (!closed[p] && (!*only || g_progs[p]->name.find(only) != std::string::npos) && (round == 0 || pb[p] >= 0))
        order.push_back(p);
    if (round)
      std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return lastex[a] < lastex[b]; });
    for (int p : order) {
      used[p] = true;
      int B = thorough ? g_progs[p]->max_bound_thorough : g_progs[p]->max_bound_quick;
      if (ps)
        B = atoi(ps);
      B += round;
      int nsh = B ? std::max(g_progs[p]->shards, round && lastex[p] > 2000 ? 8 : 1) : 1;
      for (int s = 0; s < nsh; s++)
        units.push_back({p, s, nsh, B});
    }
    if (!round) // interleave so that the shards of one program spread over the run
      std::stable_sort(units.begin(), units.end(), [](const Unit &a, const Unit &b) { return a.shard < b.shard; });
    if (units.empty())
      break;
    if (units.size() > 65536)
      return 3;
    memset(g_sh->res, 0, sizeof g_sh->res);
    g_sh->next_unit = 0;
    g_sh->stop = 0;
    g_deadline = round ? deepen_until : base_deadline;
    std::vector<pid_t> pids(nworkers);
    for (int w = 0; w < nworkers; w++) {
      fflush(stdout);
      pids[w] = fork();
      if (!pids[w])
        worker(w);
    }
    int left = nworkers;
    std::vector<uint64_t> lastbeat(nworkers, 0);
    std::vector<double> lastt(nworkers, wall());
    std::vector<bool> alive(nworkers, true);
    while (left) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        for (int w = 0; w < nworkers; w++)
          if (pids[w] == p) {
            alive[w] = false;
            left--;
            if (g_sh->w[w].viol_kind) {
              if (viol < 0)
                viol = w;
              g_sh->stop = 1;
            } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
              if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && viol >= 0)) {
                err = 1;
                fprintf(stderr, "worker %d ended abnormally (status %x)\n", w, st);
              }
              g_sh->stop = 1;
            }
          }
        continue;
      }
      // a worker that makes no progress at all (an endless loop without any instrumented access)
      for (int w = 0; w < nworkers; w++)
        if (alive[w]) {
          if (g_sh->w[w].beat != lastbeat[w]) {
            lastbeat[w] = g_sh->w[w].beat;
            lastt[w] = wall();
          } else if (wall() - lastt[w] > 120) {
            kill(pids[w], SIGKILL);
            fprintf(stderr, "worker %d hangs\n", w);
            lastt[w] = wall();
            if (viol < 0 && !g_sh->w[w].viol_kind) {
              g_sh->w[w].viol_kind = PROGRESS;
              snprintf(g_sh->w[w].msg, sizeof g_sh->w[w].msg, "an operation loops for more than 120 s without returning");
            }
          }
        }
      if (viol >= 0)
        for (int w = 0; w < nworkers; w++)
          if (alive[w])
            kill(pids[w], SIGKILL);
      usleep(5000);
    }
    std::vector<uint64_t> ex(g_progs.size(), 0);
    std::vector<bool> done(g_progs.size(), true), hit(g_progs.size(), false);
    for (size_t i = 0; i < units.size(); i++) {
      int p = units[i].prog;
      ex[p] += g_sh->res[i].execs;
      if (g_sh->res[i].hit)
        hit[p] = true;
      if (g_sh->res[i].status != 1)
        done[p] = false;
    }
    for (int p : order) {
      pex[p] = std::max(pex[p], ex[p]);
      lastex[p] = ex[p];
      if (done[p]) {
        pb[p] = units.empty() ? 0 : (ps ? atoi(ps) : thorough ? g_progs[p]->max_bound_thorough : g_progs[p]->max_bound_quick) + round;
        if (round == 0)
          base_done[p] = true;
        if (!hit[p])
          closed[p] = true;
      }
    }
    if (viol >= 0 || err || wall() > deepen_until)
      break;
  }
  uint64_t execs = 0, steps = 0, nodes = 0, pruned = 0, hist = 0, nontriv = 0;
  std::string samples;
  for (int w = 0; w < nworkers; w++) {
    WorkerSlot &s = g_sh->w[w];
    execs += s.execs, steps += s.steps, nodes += s.nodes, pruned += s.pruned, hist += s.histories, nontriv += s.exec_nontrivial;
    if (s.sample[0] && w < 3)
      samples += std::string(samples.empty() ? "" : ",") + "\"" + jesc(s.sample) + "\"";
  }
  bool exhaustive = viol < 0 && !err;
  int maxb = 0, nclosed = 0;
  std::string plist;
  for (size_t p = 0; p < g_progs.size(); p++)
    if (used[p]) {
      if (!base_done[p])
        exhaustive = false;
      maxb = std::max(maxb, pb[p]);
      nclosed += closed[p];
      plist += std::string(plist.empty() ? "" : ",") + "{\"name\":\"" + jesc(g_progs[p]->name) + "\",\"bound\":" + std::to_string(pb[p]) +
               ",\"schedules\":" + std::to_string(pex[p]) + ",\"complete\":" + (base_done[p] ? "true" : "false") + ",\"all_schedules\":" +
               (closed[p] ? "true" : "false") + "}";
    }
  std::string v = "null";
  if (viol >= 0) {
    WorkerSlot &s = g_sh->w[viol];
    std::string tr;
    for (uint32_t i = 0; i < s.ntrace; i++)
      tr += " " + std::to_string((int)s.trace[i]);
    v = "{\"kind\":" + std::to_string(s.viol_kind) + ",\"msg\":\"" + jesc(s.msg) + "\",\"program\":\"" + jesc(g_progs[s.program]->name) +
        "\",\"bound\":" + std::to_string(s.bound) + ",\"shard\":" + std::to_string(s.shard) + ",\"nshards\":" +
        std::to_string(s.nsh) + ",\"choices\":\"" + tr + "\"}";
  }
  std::string js = "{\"engine\":\"conc\",\"executions\":" + std::to_string(execs) + ",\"nontrivial\":" + std::to_string(nontriv) +
                   ",\"pruned\":" + std::to_string(pruned) + ",\"steps\":" + std::to_string(steps) + ",\"nodes\":" + std::to_string(nodes) +
                   ",\"histories\":" + std::to_string(hist) + ",\"max_bound\":" + std::to_string(maxb) + ",\"closed\":" + std::to_string(nclosed) + ",\"exhaustive\":" +
                   (exhaustive ? "true" : "false") + ",\"programs\":[" + plist + "],\"samples\":[" + samples + "],\"wall\":" +
                   std::to_string(wall() - g_t0) + ",\"violation\":" + v + "}\n";
  if (*out) {
    FILE *f = fopen(out, "w");
    fputs(js.c_str(), f);
    fclose(f);
  } else
    fputs(js.c_str(), stdout);
  if (viol >= 0)
    return 1;
  return err ? 3 : 0;
}
} // namespace rt

// ================================================================================================
// interposed library functions
// ================================================================================================
static void *do_new(size_t n, size_t al, bool array) {
  if (rt::in_sut)
    return rt::arena_alloc(n, al, array);
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p)
    abort();
  return p;
}
static void do_delete(void *p, bool array, size_t size = 0) {
  if (!p)
    return;
  if (rt::in_arena(p))
    rt::arena_free(p, array, size);
  else
    free(p);
}
void *operator new(size_t n) { return do_new(n, 16, false); }
void *operator new[](size_t n) { return do_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, true); }
void operator delete(void *p) noexcept { do_delete(p, false); }
void operator delete[](void *p) noexcept { do_delete(p, true); }
void operator delete(void *p, size_t n) noexcept { do_delete(p, false, n); }
void operator delete[](void *p, size_t n) noexcept { do_delete(p, true, n); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, false); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p, true); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { do_delete(p, false, n); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { do_delete(p, true, n); }

extern "C" {
void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  snprintf(rt::g_assertmsg, sizeof rt::g_assertmsg, "assertion '%s' failed (%s:%u)", e, b ? b + 1 : file, line);
  abort();
}
int nanosleep(const timespec *, timespec *) {
  rt::yield_point();
  return 0;
}
int clock_nanosleep(clockid_t, int, const timespec *, timespec *) {
  rt::yield_point();
  return 0;
}
int sched_yield() {
  rt::yield_point();
  return 0;
}
// std::mutex used by the code under test
#define SUTMTX (rt::g_running && rt::in_sut)
static uint64_t *mtxword(pthread_mutex_t *m) { return (uint64_t *)m; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (SUTMTX)
    rt::mutex_lock(mtxword(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (SUTMTX)
    return rt::mutex_trylock(mtxword(m)) ? 0 : EBUSY;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (SUTMTX)
    rt::mutex_unlock(mtxword(m));
  return 0;
}

// ---- ThreadSanitizer callbacks ---------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                     \
  void __tsan_read##n(void *a) { rt::plain_access((uintptr_t)a, n, false); }                                     \
  void __tsan_write##n(void *a) { rt::plain_access((uintptr_t)a, n, true); }                                     \
  void __tsan_unaligned_read##n(void *a) { rt::plain_access((uintptr_t)a, n, false); }                           \
  void __tsan_unaligned_write##n(void *a) { rt::plain_access((uintptr_t)a, n, true); }                           \
  void __tsan_volatile_read##n(void *a) { rt::plain_access((uintptr_t)a, n, false); }                            \
  void __tsan_volatile_write##n(void *a) { rt::plain_access((uintptr_t)a, n, true); }                            \
  void __tsan_unaligned_volatile_read##n(void *a) { rt::plain_access((uintptr_t)a, n, false); }                  \
  void __tsan_unaligned_volatile_write##n(void *a) { rt::plain_access((uintptr_t)a, n, true); }                  \
  void __tsan_read_write##n(void *a) { rt::plain_access((uintptr_t)a, n, true); }                                \
  void __tsan_unaligned_read_write##n(void *a) { rt::plain_access((uintptr_t)a, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) rt::plain_access((uintptr_t)a, n, false); }
void __tsan_write_range(void *a, size_t n) { if (n) rt::plain_access((uintptr_t)a, n, true); }
void __tsan_vptr_update(void **a, void *) { rt::plain_access((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void **a) { rt::plain_access((uintptr_t)a, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n > 8 && rt::g_conc && rt::in_sut && rt::g_prog->plain) { // a word at a time
    char *dd = (char *)d, *ss = (char *)s;
    bool back = dd > ss && dd < ss + n;
    for (size_t o = 0; o < n; o += 8) {
      size_t len = std::min<size_t>(8, n - o), at = back ? n - o - len : o;
      rt::plain_access((uintptr_t)ss + at, len, false);
      uint64_t w;
      memcpy(&w, ss + at, len);
      rt::plain_access((uintptr_t)dd + at, len, true);
      memcpy(dd + at, &w, len);
    }
    return d;
  }
  if (n) {
    rt::plain_access((uintptr_t)s, n, false);
    rt::plain_access((uintptr_t)d, n, true);
  }
  return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) {
  if (n)
    rt::plain_access((uintptr_t)d, n, true);
  return memset(d, c, n);
}

typedef unsigned __int128 u128;
}
namespace rt {
template <typename T> static inline T a_load(const volatile T *a, int mo) {
  atomic_pre((uintptr_t)a, sizeof(T), false);
  hb_load((uintptr_t)a, sizeof(T), mo);
  if (g_conc && in_sut && g_prog->tso) {
    auto &sb = F[g_cur].sb;
    for (size_t i = sb.size(); i-- > 0;)
      if (sb[i].addr == (uintptr_t)a && sb[i].size == sizeof(T))
        return (T)sb[i].val;
  }
  return *a;
}
template <typename T> static inline void a_store(volatile T *a, T v, int mo) {
  atomic_pre((uintptr_t)a, sizeof(T), true);
  hb_store((uintptr_t)a, sizeof(T), mo, false);
  if (g_conc && in_sut && g_prog->tso && g_cur > 0) {
    Fiber &f = F[g_cur];
    if (mo != MO_SEQ_CST) {
      // x86: a plain mov. It may stay in the store buffer until the next draining instruction.
      bool delay = !f.sb.empty() || (is_shared_loc((uintptr_t)a) && choose(2));
      if (delay) {
        NotSut ns;
        f.sb.push_back({(uintptr_t)a, sizeof(T), (uint64_t)v});
        return;
      }
    } else
      drain(g_cur);
  }
  *a = v;
  atomic_post((uintptr_t)a, sizeof(T));
}
static inline void rmw_pre(uintptr_t a, uint32_t n) {
  atomic_pre(a, n, true);
  if (g_conc && in_sut && g_cur > 0)
    drain(g_cur);
}
} // namespace rt
extern "C" {
#define AT(N, T)                                                                                                  \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { return rt::a_load<T>(a, mo); }                        \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { rt::a_store<T>(a, v, mo); }                        \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                                        \
    rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = v; rt::atomic_post((uintptr_t)a, sizeof(T)); return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { rt::rmw_pre((uintptr_t)a, sizeof(T)); rt::hb_store((uintptr_t)a, sizeof(T), mo, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                            \
    rt::rmw_pre((uintptr_t)a, sizeof(T)); T o = *a; if (o == *c) { rt::hb_store((uintptr_t)a, sizeof(T), mo, true); *a = v; rt::atomic_post((uintptr_t)a, sizeof(T)); return 1; } rt::hb_load((uintptr_t)a, sizeof(T), fmo); *c = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) {                          \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, m, f); }                                          \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) {                              \
    __tsan_atomic##N##_compare_exchange_strong(a, &c, v, m, f); return c; }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
AT(128, u128)
void __tsan_atomic_thread_fence(int mo) {
  rt::hb_fence(mo);
  if (mo == rt::MO_SEQ_CST && rt::g_conc && rt::in_sut && rt::g_cur > 0)
    rt::drain(rt::g_cur);
}
void __tsan_atomic_signal_fence(int) {}
}
