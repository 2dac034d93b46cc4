// C07: iterators and references stay valid until their own entry is removed.
// VARIANTS: 4
// MODES: opt san std
// STD: 0 3
#include "traits.hpp"
using namespace mc;

static constexpr unsigned SEE = O_HOLD | O_UNORD | O_VALUES | O_SIZE;

template <class T>
static void held(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 3;
  g.nkeys = 3;
  g.age_cap = 11;
  g.observe = SEE;
  std::vector<Op> hold = Ops(3, 1).k({HOLD});
  std::vector<Op> release;
  for (int f = 0; f < 4; ++f) release.push_back({ERASE_HELD, 0, f, 0});
  for (int f = 0; f < 3; ++f) release.push_back({W_HELD, 0, f, 1});
  std::vector<Op> all;
  for (auto& o : everything(3)) {
    if (o.kind == INSERT && o.b == 1) continue;
    if (o.kind == COPY_CTOR_NC || o.kind == COMPARE) continue;
    all.push_back(o);
  }
  
  if (T::timed) add(all, Ops(1, 1).with(ADVANCE, {6}).plain({CLEAR_EXPIRED, ALL_EXPIRED}));
  // All states with a held entry, everything from each of them.
  for (auto& o : all) {  // where values do not matter, only one value
    if (o.kind == CAPACITY && o.a == 3) continue;
    if (o.kind >= ASSIGN_RANGE) continue;
    if (o.kind >= INSERT_IT && (T::timed || o.a == 3)) continue;
    if (o.kind < CLEAR) o.b = 0;
    g.ops.push_back(o);
  }
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  add(g.ops, hold);
  add(g.ops, release);
  if (T::timed)  // two ages are enough for the search to close
    for (auto& o : g.ops)
      if (o.kind == ADVANCE) o.a = 11;
  bfs_job<T>("bfs", g, (thorough || !sanitized) && !T::timed && !small ? 1 : thorough ? 1 : 0, 30, 8, 2000000);
  g.nkeys = 4;
  // Hold an entry, and then sequences of operations.
  std::vector<Op> setup = Ops(3, 1).k({INSERT});
  std::vector<Op> core = Ops(4, 1)
      .k({CONTAINS, LOOKUP_C, INSERT, EMPLACE, ERASE, ERASE_O}).plain({CLEAR})
      .with(CAPACITY, {1, 3, 50}).with(SHRINK, {2});
  if (T::timed) add(core, Ops(1, 1).with(ADVANCE, {6}).plain({CLEAR_EXPIRED}));
  add(core, release);
  core.push_back({MON_NEW, 0, 0, 0});
  std::vector<std::vector<Op>> stages{hold, core, core};
  if (!small && !sanitized) stages.push_back(core);
  if (thorough) stages.push_back(core);
  staged_job<T>("hold", g, setup, stages, 8);
}

// Growing far beyond the size at which the entry was found (rehashing).
template <class T>
static void grow(Chooser& ch, Ctx& ctx) {
  using C = typename T::Cache;
  using UIt = typename C::UnorderedIterator;
  using OIt = typename C::OrderedIterator;
  Cfg g;
  g.cap[0] = 2000;
  g.ttl[0] = 1000;
  std::unique_ptr<C> c(T::make(g, 0));
  const int n = 1 + ch.choose(12);
  const int p = ch.choose(n);
  ch.split();
  const int more = (ctx.thorough ? 1500 : 300);
  const int how = ch.choose(6);
  for (int i = 0; i < n; ++i) c->insert(T::mk(i), T::mv(i));
  UIt u = c->unordered_begin();
  while (T::ki(u->first) != p) ++u;
  OIt o(u);
  auto& value = u->second;
  auto check = [&](int position, int size) {
    MC_CHECK(T::ki(u->first) == p && T::ki(o->first) == p && T::vi(u->second) == p &&
                 T::vi(o->second) == p && T::vi(value) == p && &u->second == &value,
             "iterators and reference do not refer to their entry after growing to ", size);
    int before = 0;
    for (OIt it = o; it != c->ordered_begin(); --it) ++before;
    MC_CHECK(before == position, "the held ordered iterator is at position ", before,
             ", expected ", position);
  };
  for (int i = n; i < more; ++i) {
    c->insert(T::mk(i), T::mv(i));
    if (i % 50 == 0) check(p, i + 1);
  }
  switch (how) {
    case 0: c->erase(u); break;
    case 1: c->erase(o); break;
    case 2:
      c->contains(T::mk(p));
      check(more - 1, more);
      c->erase(o);
      break;
    case 3:
      for (int i = 0; i < more; ++i)
        if (i != p) c->erase(T::mk(i));
      check(0, 1);
      c->erase(o);
      break;
    case 4:
      c->contains(T::mk(p));
      c->shrink(1);
      check(0, 1);
      c->erase(u);
      break;
    default:
      c->capacity(size_t(more));
      c->contains(T::mk(p));
      for (int i = 0; i < more; ++i) {
        c->insert(T::mk(more + i), T::mv(0));
        c->contains(T::mk(p));
      }
      check(more - 1, more);
      c->erase(u);
      break;
  }
  for (auto it = c->begin(); it != c->end(); ++it)
    MC_CHECK(T::ki(it->first) != p, "erase() through a held iterator does not remove its entry");
  const size_t left = how == 3 || how == 4 ? 0 : size_t(more - 1);
  MC_CHECK(c->size() == left, "erase() through a held iterator leaves ", c->size(),
           " entries, expected ", left);
  ctx.states += 1;
  ctx.transitions += uint64_t(more);
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  held<IntTraits>(thorough, false);
  search_job("grow", 8, grow<IntTraits>, "1 to 12 entries, any one held, growing to 300 (thorough: 1500), 6 ways to remove it");
#elif VARIANT == 1
  held<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  held<StrTraits>(thorough, true);
#else
  held<TrackedTraits>(thorough, true);
  search_job("grow-colliding", 8, grow<HashTraits<PairHash>>, "as grow, with colliding keys");
#endif
}
