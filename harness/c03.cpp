// C03: ordered iteration, front and back report exact recency order.
// VARIANTS: 4
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_ORDER | O_BACK | O_FRONT;

template <class T>
static void histories(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 3;
  g.observe = SEE;
  g.nkeys = 4;
  g.nvals = 1;
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  g.ops = everything(4);
  if (T::timed)
    add(g.ops, Ops(4, 1).with(ADVANCE, {11}).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}));
  g.ops.erase(std::remove_if(g.ops.begin(), g.ops.end(),
                             [](const Op& o) { return o.kind == INSERT && o.b == 1; }),
              g.ops.end());
  for (auto& o : g.ops)
    if (o.kind < CLEAR) o.b = 0;
  g.age_cap = 11;
  bfs_job<T>("bfs", g, thorough ? (sanitized || small || T::timed ? 1 : 2) :
             small || (sanitized && T::timed) ? 0 : 1, 30, 8, 2000000);
  // With statistics and callbacks, which must not disturb.
  g.stats = g.callbacks = true;
  g.ops = Ops(4, 1).k({CONTAINS, CONTAINS_C, FIND, LOOKUP, LOOKUP_C, ERASE, INSERT})
              .with(CAPACITY, {2, 4}).plain({STOP, CB_CLR_ALL, ITERATE_O, DEREF_ALL});
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {6}));
  tree_job<T>("tree", g, (sanitized ? 3 : 4) + (thorough ? 1 : 0), 8);
  if (!small) {
    g.stats = g.callbacks = false;
    g.slots = 2;
    g.nkeys = 3;
    g.ops = Ops(3, 1, 2).k({CONTAINS, ERASE, INSERT, FIND_C}).plain({ITERATE_U})
                .with(CAPACITY, {2})
                .between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, SWAP_MEMBER, COMPARE});
    if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {11}));
    tree_job<T>("two", g, sanitized ? 3 : thorough ? 5 : 4, 8);
  }
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  histories<IntTraits>(thorough, false);
#elif VARIANT == 1
  histories<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  histories<StrTraits>(thorough, true);
#else
  sweep_job<IntTraits>("sizes", sanitized ? (thorough ? 100 : 40) : thorough ? 300 : 140,
                       sanitized ? (thorough ? 60 : 10) : thorough ? 300 : 60, 16, O_ORDER | O_BACK | O_FRONT,
                       {255, 256, 257, 500, 1024, 1025});
  sweep_job<HashTraits<PairHash>>("sizes-colliding", thorough ? 100 : sanitized ? 10 : 40,
                                  thorough ? 100 : 20, 8, O_ORDER | O_BACK | O_FRONT);
  if (!sanitized)
    long_job<IntTraits>("long", thorough ? 100000000 : 3000000, O_ORDER | O_BACK | O_FRONT);
#endif
}
