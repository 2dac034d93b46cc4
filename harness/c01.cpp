// C01: a lookup finds exactly the stored keys and returns the latest value.
// VARIANTS: 4
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_SIZE | O_UNORD | O_VALUES | O_RESULT | P_LOOKUP;

template <class T>
static void histories(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 1000000000;
  g.cap[0] = g.cap[1] = 2;
  g.observe = SEE;
  g.nkeys = 3;
  g.ops = everything(3);
  bfs_job<T>("bfs", g, small && !thorough ? 0 : thorough && !sanitized ? 2 : 1, 30, 8);
  // The core of it, in depth.
  g.ops = Ops(3, 2).k({CONTAINS, FIND_C, LOOKUP, SUB_C, ERASE, ERASE_O})
              .kv({INSERT, EMPLACE}).plain({CLEAR}).with(SHRINK, {1}).with(CAPACITY, {1, 3});
  tree_job<T>("tree", g, (sanitized ? 3 : 4) + (thorough ? 1 : 0), 8);
  // Two caches: histories that pass entries between them.
  if (!small || thorough) {
    g.slots = 2;
    g.nkeys = 2;
    g.ops = Ops(2, 2, 2).k({CONTAINS, LOOKUP_C, ERASE}).kv({INSERT}).plain({CLEAR})
                .with(CAPACITY, {0, 2})
                .between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, SWAP_MEMBER}, true);
    tree_job<T>("two", g, sanitized ? 3 : thorough && !small ? 5 : T::timed ? 3 : 4, 8);
    g.ops = everything(2, 2, false);
    bfs_job<T>("two-bfs", g, thorough && !sanitized ? 1 : 0, 30, 8);
  }
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  histories<IntTraits>(thorough, false);
#elif VARIANT == 1
  histories<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  histories<StrTraits>(thorough, true);
#else
  {
    Cfg g;
    g.nkeys = 4;
    g.cap[0] = 3;
    g.observe = SEE;
    g.ops = Ops(4, 2).k({CONTAINS, FIND, LOOKUP_C, ERASE, ERASE_U, ERASE_O})
                .kv({INSERT}).plain({CLEAR}).with(SHRINK, {1}).with(CAPACITY, {2, 3});
    tree_job<EdgeTraits>("edge", g, sanitized ? 3 : thorough ? 5 : 4, 8);
    bfs_job<HashTraits<ConstHash>>("collide", g, 1, 30, 8);
  }
  sweep_job<IntTraits>("sizes", sanitized ? (thorough ? 100 : 40) : thorough ? 300 : 140,
                       sanitized ? (thorough ? 60 : 10) : thorough ? 300 : 60, 16,
                       O_SIZE | O_UNORD | O_VALUES | O_RESULT, {255, 256, 257, 500, 1024, 1025});
  sweep_job<TimedIntTraits<Ms>>("sizes-timed", thorough ? 150 : sanitized ? 20 : 40,
                                thorough ? 150 : 20, 8,
                                O_SIZE | O_UNORD | O_VALUES | O_RESULT);
  if (!sanitized)
    long_job<IntTraits>("long", thorough ? 100000000 : 3000000, O_SIZE | O_UNORD | O_VALUES);
#endif
}
