// C18: equality compares keys, values and recency order and nothing else.
// VARIANTS: 4
// SAN: 0 3
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_EQ | O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT;

template <class T>
static void equality(bool thorough, bool small, std::string pre = "") {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = 10;  // the time to live is not compared
  g.ttl[1] = 12;
  g.cap[0] = 3;  // nor is the capacity
  g.cap[1] = 4;
  g.nkeys = 3;
  g.nvals = 2;
  g.slots = 2;
  g.age_cap = 13;
  g.observe = SEE;
  // All pairs of states of the contents, then anything.
  std::vector<Op> setup = Ops(3, 2, 2).kv({INSERT});
  std::vector<Op> all = everything(3, 2);
  for (int s = 0; s < 2; ++s) {
    all.push_back({MON_NEW, s, 0, 0});
    all.push_back({CB_HIT, s, 0, 0});
  }
  const bool less = small || sanitized;
  if (T::timed) {
    add(all, Ops(3, 1, 2).plain({CLEAR_EXPIRED}));
    add(all, Ops(1, 1).with(ADVANCE, {1, 13}));
    setup = Ops(2, 1, 2).k({INSERT});
    setup.push_back({ADVANCE, 0, 1, 0});
    staged_job<T>(pre + "pairs", g, setup, {all}, 8, 0, 0, thorough ? 8 : less ? 4 : 6);
    // Copies, then refreshing at various instants.
    std::vector<Op> time = Ops(1, 1).with(ADVANCE, {1, 12, 13});
    std::vector<Op> copy = Ops(1, 1, 2).between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, SWAP_FREE});
    std::vector<Op> touch = Ops(2, 1, 2).k({INSERT, EMPLACE, CONTAINS, LOOKUP_C, W_UIT, ERASE}).plain({CLEAR_EXPIRED});
    staged_job<T>(pre + "touched", g, setup, {copy, time, touch, time, touch}, 8, 0, 0, less ? 2 : thorough ? 5 : 3);
  } else {
    staged_job<T>(pre + "pairs", g, setup, {all}, 8, 0, 0, thorough ? 50 : less ? 3 : 4);
    std::vector<Op> keys = Ops(3, 1, 2).k({INSERT});
    staged_job<T>(pre + "pairs-keys", g, keys, {all}, 8);
    if (thorough) staged_job<T>(pre + "pairs-2", g, keys, {all, all}, 16, 0, 0, 4);
  }
  // All histories.
  g.nkeys = 2;
  g.stats = g.callbacks = true;
  g.observe |= O_STATS | O_EVENTS | O_CBS;
  g.ops = Ops(2, 2, 2).kv({INSERT}).plain({STOP, CB_CLR_ALL}).with(CAPACITY, {1}).between({COPY_ASSIGN, COMPARE});
  add(g.ops, Ops(2, 1, 2).k({CONTAINS, ERASE}));
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {1}));
  tree_job<T>(pre + "tree", g, (less ? 3 : 4) + (thorough && !sanitized ? 1 : 0), 16);
}

// Sizes: two caches of n entries that differ in one place, or not at all.
template <class T>
static void sizes(Chooser& ch, Ctx& ctx, int max) {
  using C = typename T::Cache;
  static const int more[] = {127, 128, 129, 500};
  int i = ch.choose(max + 4);
  int n = i < max ? i + 1 : more[i - max];
  ch.split();
  const int where[] = {0, n / 2, n - 1};
  int p = n <= 12 ? ch.choose(n) : where[ch.choose(3)];
  int diff = ch.choose(8);
  Ref r;
  std::unique_ptr<C> a(Large<T>::make(size_t(n))), b;
  for (int k = 0; k < n; ++k) a->insert(T::mk(k), T::mv(k % 3));
  if (ch.flag()) {
    b.reset(new C(*a));
  } else {
    // Filled differently: reversed, then brought to order.
    b.reset(Large<T>::make(size_t(n + 1)));
    for (int k = n; k-- > 0;) b->insert(T::mk(k), T::mv(k % 3));
    for (int k = 0; k < n; ++k) b->contains(T::mk(k));
  }
  bool expected = true;
  auto key = T::mk(p);
  switch (diff) {
    case 0: break;
    case 1: b->contains(key); expected = p == n - 1; break;
    case 2: b->lookup(key) = T::mv(4); expected = false; break;
    case 3: b->erase(key); expected = false; break;
    case 4:  // in place, without a use
      for (auto it = b->unordered_begin(); it != b->unordered_end(); ++it)
        if (T::ki(it->first) == p) it->second = T::mv(4);
      expected = false;
      break;
    case 5: b->erase(key); b->insert(key, T::mv(p % 3)); expected = p == n - 1; break;
    case 6:  // another key in its place
      b->erase(key);
      b->insert(T::mk(n), T::mv(p % 3));
      expected = false;
      break;
    default:
      b->capacity(size_t(n + 7));
      b->insert(T::mk(n), T::mv(0));
      b->erase(T::mk(n));
      b->monitor();
      break;
  }
  const C &ca = *a, &cb = *b;
  MC_CHECK((ca == cb) == expected && (cb == ca) == expected && (ca != cb) == !expected && (cb != ca) == !expected,
           n, " entries, difference ", diff, " at ", p, ": compared as ", ca == cb ? "equal" : "unequal");
  MC_CHECK(ca == ca && cb == cb, "equality is not reflexive");
  ctx.states += 1;
  ctx.transitions += uint64_t(2 * n);
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  equality<IntTraits>(thorough, false);
#elif VARIANT == 1
  equality<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  equality<StrTraits>(thorough, true);
#else
  equality<HashTraits<ConstHash>>(thorough, true);
  const int max = thorough ? 100 : 40;
  search_job("sizes", 8, [=](Chooser& ch, Ctx& c) { sizes<IntTraits>(ch, c, max); },
             str("pairs of caches of every size up to ", max, " and some more, with one of 8 differences at each place"));
  search_job("sizes-colliding", 4, [=](Chooser& ch, Ctx& c) { sizes<HashTraits<PairHash>>(ch, c, max / 2); },
             str("the same up to size ", max / 2, " with colliding keys"));
#endif
}
