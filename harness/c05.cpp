// C05: move and swap transfer the complete state.
// VARIANTS: 5
#include "sweep.hpp"
using namespace mc;

// Types unrelated to namespace std: swap(a, b) finds the library's own one only.
namespace apart {
struct Key {
  int id;
  bool operator==(const Key& o) const { return id == o.id; }
};
}  // namespace apart
namespace std {
template <>
struct hash<apart::Key> {  // for the statistics
  size_t operator()(const apart::Key& k) const { return size_t(k.id); }
};
}  // namespace std
namespace apart {
struct Hash {
  size_t operator()(const Key& k) const { return size_t(k.id) * 7; }
};
struct Equal {
  bool operator()(const Key& a, const Key& b) const { return a.id == b.id; }
};
using Cache = LRU::Cache<Key, int, Hash, Equal>;
using Timed = LRU::TimedCache<Key, int, std::chrono::nanoseconds, Hash, Equal>;
template <class C>
void exchange(C& a, C& b) {
  swap(a, b);
}
}  // namespace apart

template <class C, class... First>
static void unqualified(Chooser& ch, Ctx& ctx, First... first) {
  const size_t caps[] = {size_t(ch.choose(4)), size_t(ch.choose(4))};
  std::unique_ptr<C> c[2];
  std::vector<std::pair<int, int>> order[2];
  uint64_t hits[2] = {0, 0};
  int calls[2] = {0, 0};
  const bool monitored = ch.flag();
  for (int s = 0; s < 2; ++s) {
    c[s].reset(new C(first..., caps[s]));
    const int n = ch.choose(4);
    for (int i = 0; i < n; ++i) {
      const int k = s ? 2 * i : i;
      c[s]->insert(apart::Key{k}, 10 * s + i);
      order[s].push_back({k, 10 * s + i});
      if (order[s].size() > caps[s]) order[s].erase(order[s].begin());
    }
    if (monitored) c[s]->monitor();
    if (monitored || s) c[s]->hit_callback([&calls, s](const apart::Key&, const int&) { ++calls[s]; });
    // Use the oldest, so that it is the one accessed last.
    if (!order[s].empty() && ch.flag()) {
      c[s]->contains(apart::Key{order[s][0].first});
      std::rotate(order[s].begin(), order[s].begin() + 1, order[s].end());
      if (monitored) ++hits[s];
    }
  }
  calls[0] = calls[1] = 0;
  const int times = 1 + ch.choose(2);
  for (int i = 0; i < times; ++i) {
    apart::exchange(*c[0], *c[1]);
  }
  for (int s = 0; s < 2; ++s) {
    const int was = times % 2 ? 1 - s : s;
    C& x = *c[s];
    MC_CHECK(x.size() == order[was].size() && x.capacity() == caps[was], "after swap(a, b) cache ", s, " has size ",
             x.size(), " and capacity ", x.capacity(), ", expected ", order[was].size(), " and ", caps[was]);
    size_t i = 0;
    for (auto it = x.ordered_begin(); it != x.ordered_end(); ++it, ++i)
      MC_CHECK(i < order[was].size() && it->key().id == order[was][i].first && it->value() == order[was][i].second,
               "after swap(a, b) cache ", s, " has a wrong entry at position ", i);
    MC_CHECK(x.is_monitoring() == monitored, "after swap(a, b) monitoring is wrong");
    if (monitored) MC_CHECK(x.stats().total_hits() == hits[was], "after swap(a, b) the statistics are wrong");
    int found = 0;
    for (int k = 0; k < 6; ++k) {
      bool in = false;
      int v = -1;
      for (auto& e : order[was])
        if (e.first == k) {
          in = true;
          v = e.second;
        }
      MC_CHECK(x.contains(apart::Key{k}) == in, "after swap(a, b) contains(", k, ") is wrong");
      if (in) MC_CHECK(x.lookup(apart::Key{k}) == v, "after swap(a, b) lookup(", k, ") is wrong");
      found += in;
    }
    const int expected = monitored || was ? 2 * found : 0;
    MC_CHECK(calls[was] == expected, "after swap(a, b) callbacks of cache ", was, " were called ", calls[was],
             " times, expected ", expected);
  }
  ctx.states += 1;
  ctx.transitions += 20;
}

static constexpr unsigned SEE = O_BASIC | O_BACK | O_CBS | O_FUNCS;

template <class T>
static void moves(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = 10;
  g.ttl[1] = 25;
  g.cap[0] = 2;
  g.cap[1] = 3;
  g.slots = 2;
  g.nkeys = 3;
  g.age_cap = 12;
  Sut<T>::probe_steps = {4, 6, 1, 8, 6, 1, 100};
  g.observe = SEE | P_LOOKUP | (T::timed ? P_EXPIRE : P_DRAIN);

  std::vector<Op> setup = Ops(3, 1, 1).k({INSERT}).with(CAPACITY, {1});
  if (T::timed) add(setup, Ops(1, 1).with(ADVANCE, {6}));
  setup.push_back({INSERT, 0, 0, 1});
  if (!T::timed) setup.push_back({CONTAINS, 0, 0, 0});
  setup.push_back({INSERT, 1, 2, 1});
  setup.push_back({INSERT, 1, 0, 1});
  std::vector<Op> move = Ops(1, 1, 2).between(
      {MOVE_ASSIGN, MOVE_CTOR, SWAP_MEMBER, SWAP_FREE});
  add(move, Ops(1, 1, 1).between({SWAP_MEMBER, SWAP_FREE}, true));
  std::vector<Op> then;
  for (auto& o : everything(3, 2, false)) {
    if (o.kind == MOVE_CTOR && o.a == o.slot) continue;
    if (o.kind == INSERT && o.b == 1) continue;
    if ((o.kind == CONTAINS_C || o.kind == FIND || o.kind == SUB ||
         o.kind == SUB_C || o.kind == LOOKUP_C || o.kind == W_SUB ||
         o.kind == EMPLACE_L || o.kind == INSERT_T || o.kind == ERASE_SELF) &&
        o.a != 0)
      continue;
    then.push_back(o);
  }
  add(then, Ops(1, 1, 2).plain({REMAKE}));
  if (T::timed) add(then, Ops(1, 1, 2).with(ADVANCE, {6}).plain({CLEAR_EXPIRED}));
  staged_job<T>("move-one", g, setup, {move, then}, 8, 0, 0,
                T::timed ? (thorough ? 5 : sanitized ? 2 : 3) : 50);
  std::vector<Op> core = Ops(2, 1, 2).k({CONTAINS, LOOKUP_C, INSERT, ERASE, ERASE_O})
                             .plain({CLEAR, REMAKE}).with(CAPACITY, {1, 3});
  for (int s = 0; s < 2; ++s) core.push_back({W_FIND, s, 0, 1});
  if (T::timed) add(core, Ops(1, 1).with(ADVANCE, {6}));
  std::vector<Op> small_setup = Ops(2, 1, 2).k({INSERT});
  if (T::timed) add(small_setup, Ops(1, 1).with(ADVANCE, {6}));
  std::vector<std::vector<Op>> two{move, core, core};
  if (!thorough && small && sanitized) two.pop_back();
  staged_job<T>("move-two", g, small_setup, two, 8, 0, small || T::timed ? 0 : 1, T::timed ? (thorough ? 5 : sanitized ? 2 : 4) : 50);
  if (thorough)
    staged_job<T>("move-three", g, small_setup, {move, core, core, core}, 16, 0, 0,
                  T::timed ? (sanitized ? 2 : 4) : 50);
  g.nkeys = 2;
  g.ops = Ops(2, 1, 2).k({INSERT, ERASE}).with(CAPACITY, {1});
  for (int s = 0; s < 2; ++s) g.ops.push_back({LOOKUP, s, 0, 0});
  add(g.ops, move);
  g.ops.push_back({COPY_ASSIGN, 0, 1, 0});
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {6}));
  tree_job<T>("tree", g, small || sanitized ? 3 + thorough : 4 + thorough, 8);

  g.stats = g.callbacks = true;
  g.observe = SEE | O_STATS | O_EVENTS;
  std::vector<Op> more = Ops(2, 1, 2).k({CONTAINS, LOOKUP_C, INSERT})
                             .plain({STOP, MON_NEW, CB_HIT, CB_MISS, CB_ACC, CB_CLR_HIT,
                                     CB_CLR_ALL, ST_RESET_ALL, REMAKE})
                             .with(MON_KEY, {1}).with(ST_MON, {1}).with(ST_UNMON, {0});
  std::vector<Op> prepare = Ops(1, 1, 2).k({INSERT});
  prepare.push_back({STOP, 0, 0, 0});
  prepare.push_back({CB_CLR_ALL, 0, 0, 0});
  prepare.push_back({CB_HIT, 0, 0, 0});
  prepare.push_back({CB_MISS, 1, 0, 0});
  std::vector<std::vector<Op>> stages{move, more, more};
  if (!thorough && (small || sanitized)) stages.pop_back();
  staged_job<T>("monitored", g, prepare, stages, 8);
}

// What can be done with a moved-from cache; the target must not notice.
template <class T>
static void moved_from(Chooser& ch, Ctx& ctx) {
  using C = typename T::Cache;
  Cfg g;
  g.ttl[0] = g.ttl[1] = 1000;
  g.cap[0] = 2;
  vclock.now = 1000000000;
  {
    std::unique_ptr<C> a(T::make(g, 0));
    const int n = ch.choose(4);
    for (int i = 0; i < n; ++i) a->insert(T::mk(i), T::mv(i));
    const int touch = ch.choose(3);
    if (touch == 1) a->contains(T::mk(1));
    if (touch == 2) a->erase(T::mk(1));
    if (ch.flag()) a->monitor();
    std::vector<std::pair<int, int>> expected;
    for (auto it = a->ordered_begin(); it != a->ordered_end(); ++it)
      expected.emplace_back(T::ki(it->first), T::vi(it->second));
    std::unique_ptr<C> b;
    const int how = ch.choose(3);
    if (how == 0) {
      b.reset(new C(std::move(*a)));
    } else {
      g.cap[0] = 3;
      b.reset(T::make(g, 0));
      if (how == 2) {
        b->insert(T::mk(3), T::mv(1));
        b->insert(T::mk(0), T::mv(1));
        b->lookup(T::mk(3));
      }
      *b = std::move(*a);
    }
    ch.split();
    auto intact = [&](C& c, const char* what) {
      size_t i = 0;
      for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it, ++i)
        if (i >= expected.size() || T::ki(it->first) != expected[i].first ||
            T::vi(it->second) != expected[i].second)
          fail(what, " changed the target of the move");
      MC_CHECK(i == expected.size(), what, " changed the target of the move");
      MC_CHECK(c.capacity() == 2, "the target has capacity ", c.capacity());
    };
    intact(*b, "moving");
    const int steps = 2 + (ctx.thorough ? 1 : 0);
    for (int i = 0; i < steps; ++i) {
      const int op = ch.choose(14);
      std::unique_ptr<C> other;
      switch (op) {
        case 0:
          a->clear();
          MC_CHECK(a->is_empty(), "a cleared moved-from cache is not empty");
          break;
        case 1: {
          a->insert(T::mk(2), T::mv(2));
          bool there = a->contains(T::mk(2));
          MC_CHECK(there == (a->capacity() > 0),
                   "insertion into a moved-from cache does not work");
          break;
        }
        case 2:
          a->capacity(2);
          MC_CHECK(a->capacity() == 2, "capacity() of a moved-from cache");
          break;
        case 3: (void)a->contains(T::mk(0)); break;
        case 4:
          a->erase(T::mk(0));
          MC_CHECK(!a->contains(T::mk(0)), "erasing from a moved-from cache");
          break;
        case 5: a->shrink(1); break;
        case 6: *a = *b; intact(*a, "copying"); break;
        case 7:
          other.reset(new C(*b));
          *a = std::move(*other);
          intact(*a, "moving");
          break;
        case 8: a->swap(*b); a->swap(*b); break;
        case 9: {
          size_t s = 0;
          for (auto it = a->ordered_begin(); it != a->ordered_end(); ++it) ++s;
          for (auto it = a->begin(); it != a->end(); ++it) ++s;
          MC_CHECK(s == 2 * a->size(), "iterating a moved-from cache gives ", s,
                   " entries in total, size() is ", a->size());
          break;
        }
        case 10: {
          std::vector<std::pair<typename T::Key, typename T::Value>> l;
          l.emplace_back(T::mk(0), T::mv(3));
          l.emplace_back(T::mk(2), T::mv(1));
          *a = l;
          MC_CHECK(a->contains(T::mk(0)) && a->contains(T::mk(2)) && a->size() == 2,
                   "assigning a range to a moved-from cache");
          break;
        }
        case 11: {
          if (a->is_monitoring()) a->stop_monitoring();
          a->monitor();
          (void)a->contains(T::mk(1));
          MC_CHECK(a->stats().total_accesses() == 1, "monitoring a moved-from cache");
          break;
        }
        case 12: a.reset(T::make(g, 0)); break;
        default: other.reset(new C(std::move(*a))); break;
      }
      MC_CHECK(a->size() <= a->capacity(), "a moved-from cache has size ",
               a->size(), " above its capacity ", a->capacity());
      intact(*b, "using the moved-from cache");
    }
    if (ch.flag()) {
      a.reset();
      intact(*b, "destroying the moved-from cache");
    }
    if (!expected.empty()) {
      b->insert(T::mk(3), T::mv(0));
      MC_CHECK(b->contains(T::mk(3)), "the target does not accept a new key");
      MC_CHECK(b->size() == std::min<size_t>(2, expected.size() + 1), "the target has the wrong size");
    }
  }
  ctx.states += 1;
  ctx.transitions += 4;
}

// Onto itself: nothing is promised about the contents, but all stays sound.
template <class T>
static void onto_itself(Chooser& ch, Ctx& ctx) {
  using C = typename T::Cache;
  Cfg g;
  g.ttl[0] = 1000;
  g.cap[0] = 2;
  std::unique_ptr<C> a(T::make(g, 0));
  const int n = ch.choose(4);
  for (int i = 0; i < n; ++i) a->insert(T::mk(i), T::mv(i));
  if (ch.flag()) a->contains(T::mk(1));
  C& alias = *a;
  *a = std::move(alias);
  MC_CHECK(a->size() <= a->capacity(), "size above capacity after self-move");
  size_t s = 0;
  for (auto it = a->ordered_begin(); it != a->ordered_end(); ++it) {
    ++s;
    MC_CHECK(a->find(it->first) != a->end(), "an entry cannot be found after self-move");
    if (s > 5) break;
  }
  a->clear();
  a->capacity(2);
  a->insert(T::mk(1), T::mv(1));
  MC_CHECK(a->contains(T::mk(1)) && a->size() == 1, "a self-moved cache is unusable");
  ctx.states += 1;
  ctx.transitions += 4;
}

template <class T>
static void special() {
  search_job("moved-from", 8, moved_from<T>,
             "all ways to fill and move, then sequences of 2 (thorough: 3) of 14 operations on the moved-from cache");
  search_job("self-move", 1, onto_itself<T>, "all states with up to 3 insertions");
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  moves<IntTraits>(thorough, false);
  special<IntTraits>();
#elif VARIANT == 1
  moves<TimedIntTraits<Ns>>(thorough, false);
  special<TimedIntTraits<Ns>>();
#elif VARIANT == 2
  moves<StrTraits>(thorough, true);
  special<StrTraits>();
#elif VARIANT == 3
  moves<TrackedTraits>(thorough, true);
#else
  search_job("unqualified-swap", 1, [](Chooser& ch, Ctx& c) { unqualified<apart::Cache>(ch, c); },
             "two caches of up to 3 insertions and capacities 0-3, swap(a, b) found by its arguments");
  search_job("unqualified-swap-timed", 1, [](Chooser& ch, Ctx& c) { unqualified<apart::Timed>(ch, c, std::chrono::nanoseconds(5)); },
             "two caches of up to 3 insertions and capacities 0-3, swap(a, b) found by its arguments");
  const unsigned see = O_BASIC | O_BACK;
  const std::vector<Between> kinds = {Between::MOVE_CTOR, Between::MOVE_ASSIGN, Between::SWAP, Between::SWAP_FREE};
  pair_job<IntTraits>("sizes", kinds, sanitized ? 8 : thorough ? 140 : 40, thorough ? 40 : sanitized ? 4 : 8, 16, see,
                      sanitized ? std::vector<int>{} : std::vector<int>{29, 30, 59, 60, 128, 129});
  pair_job<TimedIntTraits<Ns>>("sizes-timed", kinds, sanitized ? 6 : thorough ? 100 : 30, thorough ? 30 : sanitized ? 3 : 6, 16, see,
                               sanitized ? std::vector<int>{} : std::vector<int>{64, 130});
#endif
}
