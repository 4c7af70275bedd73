// All schedules (sequentially consistent and with x86 store buffers) of client programs on the
// real EpochManager.
#include "indexes/utils/EpochManager.h"
#include "dict_conc.h"
#include <memory>
struct Obj {
  long v = 42;
  int id = 0;
};
static constexpr int SLOTS = 3, MAXOBJ = 64;
// Scripts, one letter per action:
//  e enter  x exit  0..2 load the pointer in that slot (only inside a section)  t touch every pointer loaded
//  A..C replace the object of slot 0..2 and retire the old one in a new epoch
//  a..c the same, retiring in the current epoch   M replace slots 0 and 1 and retire both in one call   m same, current epoch
//  K k the same for slot 0, with a reclaimer that retires another object (in a new, the current epoch)
//  r do_reclaim  s switch_epoch  n now()  T set the threshold to 1  U set it to 3  V set it to 0 and -1 (no effect)
//  y Y enter, exit a section of another manager (-DTWINS)  w W retire an object there, do_reclaim there  u switch_epoch there  q destroy and create it
//  D d enter, exit 300 times  h exit 150 times  N retire no object
template <int THR, typename EPOCH> struct EpochProgram : Program {
  using EM = indexes::utils::EpochManager<EPOCH, Obj, THR>;
  struct Shared {
    EM em;
    std::atomic<Obj *> slot[SLOTS];
  };
  Shared *s = nullptr;
  EM *em2 = nullptr; // another manager: nothing done with it may show in the first one
  long retired2 = 0, reclaimed2 = 0;
  int users2 = 0; // threads with a section of em2
  std::vector<std::string> th;
  int nobj = 0;
  int state[MAXOBJ]; // 0 unknown 1 live 2 retired 3 reclaimed
  int pending[8];    // retired by thread and not reclaimed
  int owner[MAXOBJ];
  int insect[8];     // nesting per thread
  uint64_t lastnow = 0;
  bool quiescent_reclaim_checks = false; // sections never overlap: counts are exact
  Obj *fresh() {
    Sut x;
    Obj *o = new Obj;
    NotSut n;
    o->id = nobj++;
    state[o->id] = 1;
    return o;
  }
  void setup() override {
    nobj = 0;
    lastnow = 0;
    memset(state, 0, sizeof state);
    memset(pending, 0, sizeof pending);
    memset(insect, 0, sizeof insect);
    {
      Sut x;
#ifdef TWINS
      em2 = new EM;
#endif
      s = new Shared;
    }
    retired2 = reclaimed2 = users2 = 0;
    for (auto &p : s->slot)
      p.store(fresh());
  }
  void check_now(uint64_t &mylast) {
    uint64_t n;
    {
      Sut x;
      n = s->em.now();
    }
    if (n < mylast)
      fail(PROP, "now() went backwards from " + std::to_string(mylast) + " to " + std::to_string(n));
    mylast = n;
  }
  void reclaimed(Obj *o) {
    NotSut n;
    if (!addr_live(o, sizeof(Obj))) {
      fail(LIFE, "an object that was already reclaimed is reclaimed again");
      return;
    }
    int id = o->id;
    if (state[id] != 2)
      fail(LIFE, "object " + std::to_string(id) + " is reclaimed " + (state[id] == 3 ? "twice" : "without having been retired"));
    state[id] = 3;
    pending[owner[id]]--;
    Sut x;
    delete o;
  }
  void retire(int me, std::vector<Obj *> os, bool newepoch) {
    for (auto o : os) {
      state[o->id] = 2;
      owner[o->id] = me;
      pending[me]++;
    }
    auto f = [this](Obj *o) { reclaimed(o); };
    Sut x;
    if (os.size() == 1) {
      if (newepoch)
        s->em.retire_in_new_epoch(f, os[0]);
      else
        s->em.retire_in_current_epoch(f, os[0]);
    } else {
      gsl::span<Obj *> sp(os.data(), os.size());
      if (newepoch)
        s->em.retire_in_new_epoch(f, sp);
      else
        s->em.retire_in_current_epoch(f, sp);
    }
  }
  // the reclaimer of a retired object may retire what only that object referred to
  void retire_chain(Obj *o, bool newepoch, int depth) {
    int me = self();
    state[o->id] = 2;
    owner[o->id] = me;
    pending[me]++;
    auto f = [this, newepoch, depth](Obj *o) {
      reclaimed(o);
      if (depth) {
        NotSut n;
        retire_chain(fresh(), newepoch, depth - 1);
      }
    };
    Sut x;
    if (newepoch)
      s->em.retire_in_new_epoch(f, o);
    else
      s->em.retire_in_current_epoch(f, o);
  }
  Obj *swap_out(int k) {
    Obj *n = fresh();
    Sut x;
    return s->slot[k].exchange(n);
  }
  void touch(Obj *o) {
    if (!o)
      return;
    long v;
    bool dead;
    {
      Sut x;
      v = o->v; // instrumented: reported when the object has been freed
    }
    if (v != 42 && addr_live(o, sizeof(Obj)))
      fail(MEM, "an object reachable inside a protected section changed its contents");
  }
  static constexpr uint64_t Q = std::numeric_limits<EPOCH>::max();
  uint64_t announced() {
    Sut x;
    return s->em.my_epoch();
  }
  void run(int me, const std::string &sc) {
    Obj *held[8];
    int nh = 0, nest = 0, nest2 = 0;
    uint64_t mylast = 0, ann = Q;
    NoWait w("the epoch manager");
    for (char c : sc) {
      point();
      switch (c) {
      case 'e': {
        Sut x;
        s->em.enter_epoch();
      }
        nest++;
        if (nest == 1) {
          ann = announced();
          check_now(mylast);
          if (ann == Q || ann > mylast)
            fail(PROP, "inside a protected section the announced epoch is " + (ann == Q ? "absent" : std::to_string(ann)) + " while now() is " + std::to_string(mylast));
        } else if (announced() != ann)
          fail(PROP, "entering a nested section changed the announced epoch");
        break;
      case 'x': {
        Sut x;
        s->em.exit_epoch();
      }
        nest--;
        if (nest == 0)
          nh = 0;
        if (announced() != (nest ? ann : Q))
          fail(PROP, nest ? "leaving a nested section withdrew or changed the announced epoch" : "outside any protected section the thread still announces an epoch");
        break;
      case '0': case '1': case '2': {
        Obj *o;
        {
          Sut x;
          o = s->slot[c - '0'].load();
        }
        held[nh++] = o;
        touch(o);
        break;
      }
      case 't':
        for (int i = 0; i < nh; i++)
          touch(held[i]);
        break;
      case 'A': case 'B': case 'C':
        retire(me, {swap_out(c - 'A')}, true);
        break;
      case 'a': case 'b': case 'c':
        retire(me, {swap_out(c - 'a')}, false);
        break;
      case 'K': case 'k':
        retire_chain(swap_out(0), c == 'K', 2);
        break;
      case 'M': case 'm': {
        Obj *p = swap_out(0), *q = swap_out(1);
        retire(me, {p, q}, c == 'M');
        break;
      }
      case 'r': {
        size_t left;
        {
          Sut x;
          left = s->em.do_reclaim();
        }
        if (left != (size_t)pending[me])
          fail(LIFE, "do_reclaim reports " + std::to_string(left) + " objects still waiting, but " + std::to_string(pending[me]) + " retired objects of this thread have not been reclaimed");
        break;
      }
      case 's': {
        uint64_t o;
        {
          Sut x;
          o = s->em.switch_epoch();
        }
        if (o < mylast)
          fail(PROP, "switch_epoch returned " + std::to_string(o) + ", older than now() before, " + std::to_string(mylast));
        uint64_t before = o;
        check_now(mylast);
        if (mylast <= before)
          fail(PROP, "switch_epoch did not start a new epoch");
        break;
      }
      case 'n':
        check_now(mylast);
        break;
#ifdef TWINS
      case 'y':
        users2 += !nest2++;
        {
          Sut x;
          em2->enter_epoch();
        }
        break;
      case 'Y': {
        Sut x;
        em2->exit_epoch();
      }
        users2 -= !--nest2;
        break;
      case 'w': {
        retired2++;
        Sut x;
        em2->retire_in_new_epoch(
            [this](Obj *o) {
              {
                NotSut n;
                if (!addr_live(o, sizeof(Obj)) || o->id != -2)
                  fail(LIFE, "an object that was already reclaimed, or belongs to another manager, is reclaimed");
                reclaimed2++;
              }
              delete o;
            },
            new Obj{42, -2});
        break;
      }
      case 'W': {
        bool alone = users2 == 0 && nest2 == 0;
        size_t left;
        {
          Sut x;
          left = em2->do_reclaim();
        }
        if (th.size() == 1 && alone && left)
          fail(LIFE, "no thread is inside a section of the second manager, but do_reclaim reports " + std::to_string(left) + " objects still waiting there");
        break;
      }
      case 'u': {
        Sut x;
        em2->switch_epoch();
        break;
      }
      case 'q': {
        Sut x;
        delete em2;
        em2 = new EM;
        NotSut n;
        if (retired2 != reclaimed2)
          fail(LIFE, "the second manager is destroyed, but " + std::to_string(retired2 - reclaimed2) + " objects retired there were not reclaimed");
        break;
      }
#endif
      case 'D':
      case 'd':
      case 'h': {
        int times = c == 'h' ? 150 : 300;
        for (int i = 0; i < times; i++) {
          Sut x;
          if (c == 'D')
            s->em.enter_epoch();
          else
            s->em.exit_epoch();
        }
        nest += c == 'D' ? times : -times;
        if (nest == 0)
          nh = 0;
        if (nest == 300)
          ann = announced();
        if (announced() != (nest ? ann : Q) || (nest && ann == Q))
          fail(PROP, "300 nested sections: the announced epoch changed, or is missing or not withdrawn");
        break;
      }
      case 'N': {
        Sut x;
        s->em.retire_in_new_epoch([](Obj *) {}, gsl::span<Obj *>());
        break;
      }
      case 'V': {
        int before, after;
        {
          Sut x;
          before = s->em.get_reclamation_threshold(0);
          s->em.set_reclamation_threshold(0);
          s->em.set_reclamation_threshold(-1);
          after = s->em.get_reclamation_threshold(0);
        }
        if (before != after)
          fail(LIFE, "setting the threshold to 0 or -1 changed it from " + std::to_string(before) + " to " + std::to_string(after));
        break;
      }
      case 'T': {
        Sut x;
        s->em.set_reclamation_threshold(1);
        break;
      }
      case 'U': {
        Sut x;
        s->em.set_reclamation_threshold(3);
        break;
      }
      case 'Z': // only this thread runs: everything it retired (in the past) is reclaimable, the threshold bounds what waits
        if (pending[me] >= 3)
          fail(LIFE, std::to_string(pending[me]) + " retired objects wait although no thread is inside a section and the threshold is lower");
        break;
      }
    }
    while (nest--) {
      Sut x;
      s->em.exit_epoch();
    }
    while (nest2--) {
      Sut x;
      em2->exit_epoch();
    }
  }
  void thread(int t) override { run(t + 1, th[t]); }
  bool skip_all = false;
  void finish() override {
    if (!skip_all) {
      bool chain = name.find_first_of("Kk") != std::string::npos; // a reclaimer's own objects wait for the next reclamation
      for (int i = 0; i < (chain ? 3 : 1); i++) {
        Sut x;
        s->em.reclaim_all();
      }
      for (int i = 0; i < nobj; i++)
        if (state[i] == 2)
          fail(LIFE, "no thread is inside a section, but a full reclamation left object " + std::to_string(i) + " unreclaimed");
    }
    Obj *last[SLOTS];
    {
      Sut x;
      for (int i = 0; i < SLOTS; i++)
        last[i] = s->slot[i].load();
    }
    for (auto o : last)
      if (!addr_live(o, sizeof(Obj)) || state[o->id] != 1)
        fail(LIFE, "an object that was never retired was reclaimed");
    {
      Sut x;
      for (auto o : last)
        delete o;
      delete s;
      delete em2;
      em2 = nullptr;
    }
    if (retired2 != reclaimed2)
      fail(LIFE, std::to_string(retired2) + " objects were retired with the second manager, " + std::to_string(reclaimed2) + " reclaimed when both are destroyed");
    for (int i = 0; i < nobj; i++)
      if (state[i] == 2)
        fail(LIFE, "object " + std::to_string(i) + " was retired but never reclaimed, not even when the manager was destroyed");
    if (live_blocks() != 0)
      fail(LIFE, std::to_string(live_blocks()) + " allocations are never freed:" + describe_live());
  }
};
template <int THR, typename EPOCH = uint64_t> static void add(const std::string &threads, int bq, int bt, int tso = 2, bool skip_all = false) {
  // tso: 0 sequentially consistent only, 1 store buffers only, 2 both
  for (int m = 0; m < 2; m++) {
    if (tso != 2 && tso != m)
      continue;
    auto *p = new EpochProgram<THR, EPOCH>;
    p->th = split_bar(threads);
    p->nthreads = p->th.size();
    p->name = std::string(sizeof(EPOCH) == 8 ? "" : sizeof(EPOCH) == 4 ? "signed 32 bit epochs, " : "16 bit epochs, ") + "threshold " + std::to_string(THR) + ": " + threads + (m ? " (store buffers)" : "") + (skip_all ? " (no final reclamation)" : "");
    p->tso = m;
    p->plain = !m;
    p->max_bound_quick = bq;
    p->max_bound_thorough = bt;
    p->shards = 2;
    p->skip_all = skip_all;
    add_program(p);
  }
}
int main(int argc, char **argv) {
#ifdef TWINS
  // one thread with sections of both managers, whose epochs differ
  for (auto t : {"uuuyse0txYZ", "ye0txYe1tx", "yAZYAZ", "eywxWYe0tx", "yyeexYxYe0tx", "uuuwwweABxZWyABCZYW", "sssywYWe0AxZq", "eqAxZ", "yeYxWe0x", "eyxwWYWAZ", "ABqABZ", "ywwYWywAZYW", "eAywxZYW", "nsnunsn"}) {
    add<1>(t, 0, 0, 0);
    add<2>(t, 0, 0, 0);
  }
  // one thread stays in a section of the second manager, with a newer or an older epoch
  for (auto r : {"ye0tYtx", "uuye0txY", "eyY0tx", "ywe0tx", "e0ytWtYx", "yeY0tx"})
    for (auto w : {"A", "Ar", "asr", "sA", "yAY", "wAr"}) {
      add<1>(std::string(r) + "|" + w, 2, 3);
      add<2>(std::string(r) + "|" + w, 2, 3, 0);
    }
  for (auto t : {"yuYwW|Ar|e0tx", "ye0txY|ywY|Ar", "w|W|Ar", "wYyW|ABr"})
    if (t[1] != 'Y')
      add<1>(t, 2, 3, 0);
  return conc_main(argc, argv);
#endif
  const char *readers[] = {"e0tx", "e0exttx", "eex0ttx", "e0xe0tx", "ee0xtx", "exe0tx", "e0t1tx"};
  const char *writers[] = {"A", "a", "Ar", "asr", "eAxr", "easxr", "AB", "ABr", "Mr", "msr", "Aar", "AsAr", "eAexxr", "AA"};
  for (auto r : readers)
    for (auto w : writers) {
      add<1>(std::string(r) + "|" + w, 3, 4);
      add<2>(std::string(r) + "|" + w, 2, 3);
    }
  // two readers: one may leave while the reclaiming thread looks at both
  for (auto r1 : {"e0tx", "eex0tx"})
    for (auto r2 : {"ex", "e0tx", "exex"})
      for (auto w : {"A", "Ar", "AB", "asr"}) {
        add<1>(std::string(r1) + "|" + r2 + "|" + w, 2, 3, 0);
        add<1>(std::string(r2) + "|" + r1 + "|" + w, 2, 3, 0);
      }
  add<1>("e0tx|ex|A", 2, 3, 1);
  add<1>("ex|e0tx|Ar", 2, 3, 1);
  // several writers
  for (auto t : {"A|B", "Ar|Br", "A|A", "AA|AA", "Ar|ar", "eAx|eAx", "e0txA|e0txA", "e0tAx|e0tAx", "M|M", "asr|asr", "sss|nnn", "snsn|snsn"}) {
    add<1>(t, 3, 4);
    add<2>(t, 2, 3);
    add<100>(t, 2, 3);
    add<100>(t, 2, 3, 0, true);
  }
  for (auto t : {"A|B|e0t1tx", "Ar|Br|e0t1tx", "A|A|e0tx", "eAx|eAx|e0tx"})
    add<1>(t, 2, 3, 0);
  // many objects wait for a reader that stays inside its section
  for (auto t : {"e0tx|AAA", "ex|AAAAAAAA", "ex|MMMMM", "ex|eAAAxrAAAr", "ex|AsAsAsAsr"}) {
    add<1>(t, 1, 2, 0);
    add<3>(t, 1, 2, 0);
  }
  add<1>("ex|AAAAAAAAAAAAAAAAAAAAAAAA", 1, 1, 0);
  add<2>("ex|MAMAMAMAMAMAMAMAMA|AA", 1, 1, 0);
  // one thread: nothing else can hold objects back, so the counts are exact
  for (auto t : {"AZAZAZAZAZAZ", "asasasasZ", "eABCxAZ", "eeAxBxAZ", "ABCAZ", "MMMZ", "ensnxnsn", "ArBrCrArZ"}) {
    add<1>(t, 0, 0, 0);
    add<2>(t, 0, 0, 0);
    add<1>(t, 0, 0, 0, true);
  }
  for (auto t : {"K", "k", "Kr", "ksr", "KKrr", "kskssr", "AKBr", "aksbsr"}) {
    add<1>(t, 0, 0, 0);
    add<2>(t, 0, 0, 0);
    add<3>(t, 0, 0, 0, true);
  }
  add<100>("UAAAZABCZ", 0, 0, 0);
  add<100>("TAZAZ", 0, 0, 0);
  add<3>("AABBCCAAZ", 0, 0, 0);
  // other types of epochs, the threshold changed while others work, deep nesting
  for (auto t : {"e0tx|A", "eex0ttx|asr", "exe0tx|Ar", "e0tx|AAAr", "A|B", "sss|nnn"}) {
    add<1, int>(t, 2, 3);
    add<2, unsigned short>(t, 2, 3);
  }
  for (auto t : {"e0tx|TAUArA", "e0tx|UAATAr", "UAA|TAB", "e0tx|NsN", "VAVB|e0tx", "UVAAZVAZ"})
    add<2>(t, 2, 3, 0);
  add<1>("D0td|Asr", 1, 1, 0);
  add<1>("D0htx|A", 1, 1, 0);
  add<1>("e0Dtdx|Asr", 1, 1, 0);
  return conc_main(argc, argv);
}
