// C02: the size never exceeds the capacity; eviction removes exactly the least
// recently used entry; nothing else removes entries.
// VARIANTS: 4
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_SIZE | O_UNORD | P_DRAIN;

template <class T>
static void histories(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = 2;
  g.cap[1] = 3;
  g.observe = SEE;
  g.nkeys = 4;
  g.ops = everything(4);
  add(g.ops, Ops(1, 1).with(SHRINK, {3, 100}).with(CAPACITY, {4, 1000}));
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {11}).plain({CLEAR_EXPIRED, ALL_EXPIRED}));
  // Values do not matter here: insert only one.
  g.ops.erase(std::remove_if(g.ops.begin(), g.ops.end(),
                             [](const Op& o) { return o.kind == INSERT && o.b == 1; }),
              g.ops.end());
  g.nvals = 1;
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  for (auto& o : g.ops)
    if (o.kind < CLEAR) o.b = 0;
  g.age_cap = 11;
  bfs_job<T>("bfs", g, thorough ? (sanitized || small || T::timed ? 1 : 2) :
             small || (sanitized && T::timed) ? 0 : 1, 30, 8, 2000000);
  g.cap[0] = 3;
  g.ops = Ops(4, 1).k({CONTAINS_C, LOOKUP, ERASE, ERASE_O, INSERT})
              .plain({CLEAR}).with(SHRINK, {1, 2}).with(CAPACITY, {0, 2, 3, 4});
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {6}).plain({CLEAR_EXPIRED}));
  tree_job<T>("tree", g, (sanitized ? 3 : 4) + (thorough ? 1 : 0), 8);
  if (!small) {
    g.slots = 2;
    g.nkeys = 3;
    g.ops = Ops(3, 1, 2).k({CONTAINS, ERASE, INSERT}).plain({CLEAR})
                .with(CAPACITY, {1, 3}).with(SHRINK, {1})
                .between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, SWAP_MEMBER, SWAP_FREE, MOVE_CTOR});
    tree_job<T>("two", g, sanitized ? 3 : thorough ? 5 : 4, 8);
  }
}

// The largest capacities there are.
static void huge(Chooser& ch, Ctx& ctx) {
  const size_t caps[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, size_t(1) << 32,
                         (size_t(1) << 31) - 1, size_t(1) << 16};
  const size_t cap = caps[ch.choose(6)];
  const int n = ch.choose(6);
  const bool later = ch.flag();
  LRU::Cache<int, int> c(later ? 1 : cap);
  if (later) c.capacity(cap);
  for (int i = 0; i < n; ++i) c.insert(i, i);
  MC_CHECK(c.capacity() == cap, "capacity() is ", c.capacity(), ", expected ", cap);
  MC_CHECK(c.size() == size_t(n), "size() is ", c.size(), ", expected ", n);
  MC_CHECK(c.space_left() == cap - size_t(n), "space_left() is wrong for capacity ", cap);
  MC_CHECK(!c.is_full(), "is_full() with capacity ", cap);
  c.shrink(cap);
  c.shrink(size_t(n));
  MC_CHECK(c.size() == size_t(n), "shrink() removed entries");
  LRU::Cache<int, int> d(c);
  MC_CHECK(d.capacity() == cap && d.size() == size_t(n), "a copy differs in capacity or size");
  c.shrink(1);
  MC_CHECK(c.size() == size_t(std::min(n, 1)) && c.capacity() == cap, "shrink(1) gives size ", c.size());
  c.capacity(0);
  MC_CHECK(c.size() == 0 && c.capacity() == 0 && c.is_full() && c.is_empty() &&
               c.space_left() == 0,
           "capacity(0) leaves ", c.size(), " entries");
  ctx.states += 1;
  ctx.transitions += uint64_t(n) + 5;
  ctx.sample(str("capacity ", cap, " with ", n, " entries"));
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  histories<IntTraits>(thorough, false);
#elif VARIANT == 1
  histories<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  histories<StrTraits>(thorough, true);
#else
  sweep_job<IntTraits>("sizes", sanitized ? (thorough ? 100 : 40) : thorough ? 300 : 140,
                       sanitized ? (thorough ? 60 : 10) : thorough ? 300 : 60, 16, O_SIZE | O_UNORD,
                       {255, 256, 257, 500, 1024, 1025});
  sweep_job<HashTraits<ConstHash>>("sizes-colliding", thorough ? 100 : sanitized ? 10 : 40,
                                   thorough ? 100 : 20, 8, O_SIZE | O_UNORD);
  search_job("huge", 1, huge, "6 huge capacities, 0 to 5 entries");
  if (!sanitized)
    long_job<IntTraits>("long", thorough ? 100000000 : 3000000, O_SIZE | O_UNORD);
#endif
}
