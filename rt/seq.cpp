#include "seq.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
namespace rt {
extern void (*g_seq_fail)(int, const std::string &);
extern void (*g_seq_crash)(int, const char *);
extern long g_seq_yields;
void install_handlers();
static SeqModel *g_models_arr[64];
static int g_nmodels;
static std::vector<SeqModel *> g_models;
void add_model(SeqModel *m) { g_models_arr[g_nmodels++] = m; }

constexpr int ROUNDS = 16, UNITS = 32768;
struct SW {
  volatile uint64_t beat;
  uint64_t transitions, paths, checks, maxdepth;
  int viol_kind;
  char msg[4000];
  int model;
  char unit[200];
  int npath;
  int path[4096];
  char sample[1200];
};
struct SShared {
  volatile int next[ROUNDS], stop;
  uint8_t status[ROUNDS][UNITS]; // 1: all sequences up to the round's depth, 2: all reachable states
  uint32_t ustates[UNITS];       // distinct states of the unit, in its deepest search
  SW w[16];
};
static SShared *sh;
static SW *me;
extern int g_mask;
static SeqModel *g_m;
static const SeqUnit *g_u;
static std::vector<int> g_path; // operations after reset, including the current one
static double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void note(int kind, const std::string &msg) {
  me->viol_kind = kind;
  snprintf(me->msg, sizeof me->msg, "%s", msg.c_str());
  me->npath = std::min<int>(g_path.size(), 4096);
  for (int i = 0; i < me->npath; i++)
    me->path[i] = g_path[i];
}
static void on_fail(int kind, const std::string &msg) {
  if (!(kind & g_mask) && kind != CRASH && kind != PROGRESS)
    return;
  note(kind, msg);
  _exit(1);
}
static void on_crash(int, const char *msg) {
  note(CRASH, msg);
  _exit(1);
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s)
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  return o;
}
static std::string opstr(SeqModel *m, const int *p, int n) {
  std::string s;
  for (int i = 0; i < n; i++)
    s += (i ? " " : "") + m->opname(p[i]);
  return s;
}
static void start(SeqModel *m) {
  arena_reset();
  g_path.clear();
  g_seq_yields = 0;
  m->reset();
}
static void step(SeqModel *m, int op) {
  g_path.push_back(op);
  m->apply(op);
}
static bool guarded_run(SeqModel *m, const std::vector<int> &ops) {
  start(m);
  for (int o : ops)
    step(m, o);
  return true;
}
// breadth-first search from the unit's start state
static int run_unit(SeqModel *m, const SeqUnit &u, int shard, int deeper, double deadline, uint32_t &nstates) {
  g_m = m;
  g_u = &u;
  std::unordered_set<uint64_t> seen;
  std::vector<std::vector<uint16_t>> frontier, next;
  // the start state itself, observed after every operation of the prefix by shard 0
  if (shard == 0 && !deeper) {
    for (size_t n = 0; n <= u.prefix.size(); n++) {
      // observation may modify the container: replay each time, but thin out long prefixes
      if (n != u.prefix.size() && n % (u.prefix.size() > 1000 ? 2503 : u.prefix.size() > 24 ? 7 : 1))
        continue;
      start(m);
      for (size_t i = 0; i < n; i++)
        step(m, u.prefix[i]);
      m->observe();
      m->destroy();
      me->paths++;
      me->beat++;
    }
  }
  start(m);
  for (int o : u.prefix)
    step(m, o);
  seen.insert(m->hash());
  m->destroy();
  frontier.push_back({});
  const int depth = u.depth + deeper;
  for (int d = 0; d < depth; d++) {
    next.clear();
    bool fresh = false;
    for (auto &p : frontier) {
      for (size_t ai = 0; ai < u.alphabet.size(); ai++) {
        if (d == 0 && u.shards > 1 && (int)(ai % u.shards) != shard)
          continue;
        int op = u.alphabet[ai];
        start(m);
        for (int o : u.prefix)
          step(m, o);
        for (auto o : p)
          step(m, o);
        if (!m->enabled(op)) {
          m->destroy();
          continue;
        }
        step(m, op);
        me->transitions++;
        me->beat++;
        uint64_t h = m->hash();
        if (seen.insert(h).second) {
          fresh = true;
          if ((uint64_t)d + 1 > me->maxdepth)
            me->maxdepth = d + 1;
          m->observe();
          me->paths++;
          if (d + 1 < depth) {
            next.push_back(p);
            next.back().push_back(op);
          } else if (me->paths % 4096 == 1)
            snprintf(me->sample, sizeof me->sample, "%s/%s: %s", m->name.c_str(), u.name.c_str(),
                     opstr(m, g_path.data(), g_path.size()).c_str());
        }
        m->destroy();
      }
      if (sh->stop)
        return 0;
      if (seen.size() > nstates)
        nstates = seen.size();
      if (wall() > deadline)
        return 3;
    }
    frontier.swap(next);
    if (!fresh)
      return 2;
  }
  return 1;
}
static const char *argval(int argc, char **argv, const char *name, const char *def) {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], name))
      return argv[i + 1];
  return def;
}
int seq_main(int argc, char **argv) {
  double t0 = wall();
  g_models.assign(g_models_arr, g_models_arr + g_nmodels);
  g_mask = atoi(argval(argc, argv, "--mask", "255"));
  recycle = !(g_mask & (MEM | LIFE | SHAPE));
  bool thorough = !strcmp(argval(argc, argv, "--tier", "quick"), "thorough");
  const char *out = argval(argc, argv, "--out", "");
  const char *only = argval(argc, argv, "--only", "");
  const char *replay = argval(argc, argv, "--replay", "");
  int nworkers = atoi(argval(argc, argv, "--workers", "8"));
  double deadline = t0 + atof(argval(argc, argv, "--time", thorough ? "3000" : "600"));
  double deepen = t0 + atof(argval(argc, argv, "--deepen", "0")); // until then, search one operation deeper after each round
  sh = (SShared *)mmap(nullptr, sizeof(SShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  poison_freed = true;
  g_seq_fail = on_fail;
  g_seq_crash = on_crash;
  if (*replay) {
    FILE *f = fopen(replay, "r");
    if (!f)
      return 3;
    static char line[1 << 16];
    std::string prog;
    std::vector<int> ops;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "program ", 8)) {
        prog = line + 8;
        while (!prog.empty() && (prog.back() == '\n' || prog.back() == ' '))
          prog.pop_back();
      }
      if (!strncmp(line, "choices", 7)) {
        char *p = line + 7;
        int v, k;
        while (sscanf(p, "%d%n", &v, &k) == 1) {
          ops.push_back(v);
          p += k;
        }
      }
    }
    fclose(f);
    for (auto *m : g_models)
      if (m->name == prog) {
        me = &sh->w[0];
        pid_t pid = fork();
        if (!pid) {
          install_handlers();
          alarm(120);
          start(m);
          for (int o : ops)
            step(m, o);
          m->observe();
          m->destroy();
          _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        printf("operations: %s\n", opstr(m, ops.data(), ops.size()).c_str());
        if (me->viol_kind || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) {
          printf("replay: VIOLATED kind=%d %s\n", me->viol_kind, me->viol_kind ? me->msg : "does not return");
          return 1;
        }
        printf("replay: no violation\n");
        return 0;
      }
    return 3;
  }
  struct WU {
    int model, unit, shard;
  };
  std::vector<std::vector<SeqUnit>> units;
  std::vector<WU> work;
  for (size_t i = 0; i < g_models.size(); i++) {
    units.push_back(g_models[i]->units(thorough));
    for (size_t j = 0; j < units[i].size(); j++) {
      if (*only && (g_models[i]->name + "/" + units[i][j].name).find(only) == std::string::npos)
        continue;
      for (int s = 0; s < units[i][j].shards; s++)
        work.push_back({(int)i, (int)j, s});
    }
  }
  if (work.size() > UNITS) {
    fprintf(stderr, "too many units\n");
    return 3;
  }
  std::vector<pid_t> pids(nworkers);
  for (int w = 0; w < nworkers; w++) {
    fflush(stdout);
    pids[w] = fork();
    if (!pids[w]) {
      me = &sh->w[w];
      install_handlers();
      for (int r = 0; r < ROUNDS && !sh->stop && (!r || wall() < deepen); r++)
        for (;;) {
          int i = __sync_fetch_and_add(&sh->next[r], 1);
          if (i >= (int)work.size() || sh->stop || (r && wall() > deepen))
            break;
          while (r && !sh->status[r - 1][i] && !sh->stop && wall() < deepen)
            usleep(300);
          if (r && sh->status[r - 1][i] == 2) {
            sh->status[r][i] = 2;
            continue;
          }
          if (r && sh->status[r - 1][i] != 1) // not searched at the previous depth yet
            continue;
          me->model = work[i].model;
          snprintf(me->unit, sizeof me->unit, "%s", units[work[i].model][work[i].unit].name.c_str());
          sh->status[r][i] = run_unit(g_models[work[i].model], units[work[i].model][work[i].unit], work[i].shard, r, r ? std::min(deepen, deadline) : deadline, sh->ustates[i]);
        }
      me->checks = 0;
      for (auto *m : g_models)
        me->checks += m->checks;
      _exit(0);
    }
  }
  int left = nworkers, viol = -1, err = 0;
  std::vector<uint64_t> lb(nworkers, 0);
  std::vector<double> lt(nworkers, wall());
  std::vector<bool> alive(nworkers, true);
  while (left) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < nworkers; w++)
        if (pids[w] == p) {
          alive[w] = false;
          left--;
          if (sh->w[w].viol_kind) {
            if (viol < 0)
              viol = w;
            sh->stop = 1;
          } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (!(WIFSIGNALED(st) && viol >= 0)) {
              err = 1;
              fprintf(stderr, "worker %d ended abnormally (%x)\n", w, st);
            }
            sh->stop = 1;
          }
        }
      continue;
    }
    for (int w = 0; w < nworkers; w++)
      if (alive[w]) {
        if (sh->w[w].beat != lb[w]) {
          lb[w] = sh->w[w].beat;
          lt[w] = wall();
        } else if (wall() - lt[w] > 90) {
          // an operation that does not return: ask the worker for its path
          kill(pids[w], SIGABRT);
          lt[w] = wall();
        }
        if (viol >= 0)
          kill(pids[w], SIGKILL);
      }
    usleep(3000);
  }
  uint64_t states = 0, trans = 0, paths = 0, checks = 0, maxd = 0;
  std::string samples;
  for (int w = 0; w < nworkers; w++) {
    trans += sh->w[w].transitions, paths += sh->w[w].paths, checks += sh->w[w].checks;
    maxd = std::max(maxd, sh->w[w].maxdepth);
    if (w < 3 && sh->w[w].sample[0])
      samples += std::string(samples.empty() ? "" : ",") + "\"" + jesc(sh->w[w].sample) + "\"";
  }
  bool exhaustive = viol < 0 && !err;
  uint64_t done = 0;
  for (size_t i = 0; i < work.size(); i++) {
    states += sh->ustates[i];
    if (sh->status[0][i] == 1 || sh->status[0][i] == 2)
      done++;
    else
      exhaustive = false;
  }
  uint64_t closed = 0;
  std::string rounds; // units finished one, two, ... operations deeper
  for (int r = 0; r < ROUNDS; r++) {
    uint64_t n = 0;
    for (size_t i = 0; i < work.size(); i++)
      n += sh->status[r][i] == 1 || sh->status[r][i] == 2;
    if (!n)
      break;
    rounds += (r ? "," : "") + std::to_string(n);
  }
  for (size_t i = 0; i < work.size(); i++)
    for (int r = 0; r < ROUNDS; r++)
      if (sh->status[r][i] == 2) {
        closed++;
        break;
      }
  std::string v = "null";
  if (viol >= 0) {
    SW &s = sh->w[viol];
    SeqModel *m = g_models[s.model];
    std::string ch;
    for (int i = 0; i < s.npath; i++)
      ch += " " + std::to_string(s.path[i]);
    v = "{\"kind\":" + std::to_string(s.viol_kind) + ",\"msg\":\"" + jesc(s.msg) + "\",\"program\":\"" + jesc(m->name) +
        "\",\"unit\":\"" + jesc(s.unit) + "\",\"bound\":0,\"shard\":0,\"nshards\":1,\"choices\":\"" + ch + "\",\"ops\":\"" +
        jesc(opstr(m, s.path, s.npath)) + "\"}";
  }
  std::string js = "{\"engine\":\"seq\",\"states\":" + std::to_string(states) + ",\"transitions\":" + std::to_string(trans) +
                   ",\"paths\":" + std::to_string(paths) + ",\"checks\":" + std::to_string(checks) + ",\"maxdepth\":" + std::to_string(maxd) +
                   ",\"units\":" + std::to_string(work.size()) + ",\"units_complete\":" + std::to_string(done) +
                   ",\"units_closed\":" + std::to_string(closed) + ",\"rounds\":[" + rounds + "]" +
                   ",\"models\":" + std::to_string(g_models.size()) + ",\"exhaustive\":" + (exhaustive ? "true" : "false") +
                   ",\"samples\":[" + samples + "],\"wall\":" + std::to_string(wall() - t0) + ",\"violation\":" + v + "}\n";
  if (*out) {
    FILE *f = fopen(out, "w");
    fputs(js.c_str(), f);
    fclose(f);
  } else
    fputs(js.c_str(), stdout);
  return viol >= 0 ? 1 : err ? 3 : 0;
}
} // namespace rt
