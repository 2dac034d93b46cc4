// C10: clear_expired removes exactly the expired entries; all_expired.
// VARIANTS: 3
#include "traits.hpp"
using namespace mc;

static constexpr unsigned SEE = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT | P_EXPIRE;

template <class T>
static void histories(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = true;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 4;
  g.nkeys = 4;
  g.nvals = 1;
  g.observe = SEE;
  Sut<T>::probe_steps = {1, 4, 1, 5, 30};
  std::vector<Op> tail = Ops(1, 1).plain({CLEAR_EXPIRED, ALL_EXPIRED});
  tail.push_back({ADVANCE, 0, 11, 0});
  tail.push_back({INSERT, 0, 0, 0});
  tail.push_back({CONTAINS, 0, 1, 0});
  // Entries of all ages in all orders.
  std::vector<Op> setup = Ops(3, 1).k({INSERT, LOOKUP}).with(ADVANCE, {6});
  g.age_cap = 12;
  staged_job<T>("ages", g, setup, {tail, tail, tail}, 8);
  setup = Ops(4, 1).k({INSERT}).with(ADVANCE, {11, 5});
  g.age_cap = 11;
  staged_job<T>("four", g, setup, {tail, tail}, 8, 0, 0, thorough ? 50 : sanitized ? 5 : 7);
  g.cap[0] = 3;
  g.observe &= ~unsigned(P_EXPIRE);
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  for (auto& o : everything(3)) {
    g.ops.push_back(o);
    if (o.kind < CLEAR) g.ops.back().b = 0;
    if (o.kind == INSERT && o.b == 1) g.ops.pop_back();
  }
  add(g.ops, Ops(3, 1).with(ADVANCE, {11}).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}));
  g.nkeys = 3;
  bfs_job<T>("bfs", g, thorough && !sanitized ? 2 : small || sanitized ? 0 : 1, 30, 8, 2000000);
  g.ops = Ops(3, 1).k({CONTAINS, LOOKUP_C, INSERT, ERASE, W_FIND}).with(ADVANCE, {5, 1})
              .plain({CLEAR_EXPIRED, ALL_EXPIRED, COPY_CTOR, MOVE_CTOR}).with(CAPACITY, {2});
  tree_job<T>("tree", g, (sanitized ? 3 : 4) + (thorough ? 1 : 0), 8);
}

// Every subset of n entries expired, in several orders.
template <class T>
static void subsets(Chooser& ch, Ctx& ctx) {
  using C = typename T::Cache;
  vclock.now = 1000000000;
  const int n = ch.choose(ctx.thorough && !sanitized ? 13 : ctx.thorough ? 10 : sanitized ? 8 : 10) + 1;
  const int order = ch.choose(4);
  const int how = ch.choose(3);
  ch.split();
  const unsigned set = unsigned(ch.choose(1 << n));  // those that expire
  Cfg g;
  g.ttl[0] = 100;
  g.cap[0] = how == 2 ? 500 : n;
  std::unique_ptr<C> c(T::make(g, 0));
  for (int i = 0; i < n; ++i) c->insert(T::mk(i), T::mv(i % 5));
  vclock.now += 60;
  for (int i = 0; i < n; ++i)
    if (!(set >> i & 1)) c->insert(T::mk(i), T::mv(i % 5 + 1));
  std::vector<int> ord;  // from the least to the most recently used
  for (int j = 0; j < n; ++j) {
    int i = order == 0 ? j : order == 1 ? n - 1 - j : order == 2 ? (j * 7 + 3) % 13 : (j * 5) % 13;
    if (order >= 2) {
      if (n > 13) i = j;
    }
    ord.push_back(i);
  }
  if (order >= 2) {  // all numbers below n in a scrambled order
    std::vector<int> x(13);
    ord.clear();
    for (int j = 0; j < 13; ++j) x[size_t(j)] = order == 2 ? (j * 7 + 3) % 13 : (j * 5) % 13;
    for (int i : x)
      if (i < n) ord.push_back(i);
  }
  for (int i : ord) MC_CHECK(c->contains(T::mk(i)), "a fresh key is not found");
  vclock.now += 50;  // ages 110 and 50
  const int expired = __builtin_popcount(set);
  if (how == 1) c->contains(T::mk(ord[size_t(n / 2)]));
  if (how == 1 && !(set >> ord[size_t(n / 2)] & 1)) {
    int k = ord[size_t(n / 2)];
    ord.erase(ord.begin() + n / 2);
    ord.push_back(k);
  }
  MC_CHECK(c->all_expired() == (expired == n), "all_expired() is ", c->all_expired(), " with ",
           expired, " of ", n, " entries expired");
  size_t removed = c->clear_expired();
  MC_CHECK(removed == size_t(expired), "clear_expired() returns ", removed, ", expected ", expired);
  MC_CHECK(c->size() == size_t(n - expired), "clear_expired() leaves ", c->size(),
           " entries, expected ", n - expired);
  auto it = c->ordered_begin();
  for (int i : ord) {
    if (set >> i & 1) continue;
    MC_CHECK(it != c->ordered_end() && T::ki(it->first) == i && T::vi(it->second) == i % 5 + 1,
             "clear_expired() changes what has not expired (entry ", i, ")");
    ++it;
  }
  MC_CHECK(it == c->ordered_end(), "too many entries left");
  MC_CHECK(c->all_expired() == (expired == n), "all_expired() after clear_expired()");
  MC_CHECK(c->clear_expired() == 0, "clear_expired() twice");
  vclock.now += 50;  // age 100: the last instant
  MC_CHECK(c->clear_expired() == 0, "clear_expired() shortens the life of the others");
  for (int i = 0; i < n; ++i)
    MC_CHECK(c->contains(T::mk(i)) == !(set >> i & 1), "key ", i, " after clear_expired()");
  vclock.now += 1;
  MC_CHECK(c->all_expired(), "all_expired() at the end");
  MC_CHECK(c->clear_expired() == size_t(n - expired) && c->is_empty(), "clear_expired() at the end");
  ctx.states += 1;
  ctx.transitions += 6;
}

// Every number of entries, and patterns of expired ones: all but one, only one,
// the first or last of the order, every d-th; scrambled orders.
template <class T>
static void patterns(const std::string& name, int max_n, int all, std::vector<int> more = {}) {
  using C = typename T::Cache;
  search_job(
      name, 8,
      [=](Chooser& ch, Ctx& ctx) {
        const int i = ch.choose(max_n + int(more.size()));
        const int n = i < max_n ? i + 1 : more[size_t(i - max_n)];
        const int pattern = ch.choose(6);
        int p;
        if (n <= all) {
          p = ch.choose(n);
        } else {
          const int at[] = {0, 1, 2, n / 2, n - 2, n - 1};
          p = at[ch.choose(6)];
        }
        ch.split();
        const int order = ch.choose(4), last = ch.choose(4);
        const bool room = ch.flag();
        std::vector<int> ord;
        for (int j = 0; j < n; ++j) ord.push_back(j);
        if (order == 1) std::reverse(ord.begin(), ord.end());
        if (order == 2) std::stable_partition(ord.begin(), ord.end(), [](int k) { return k % 2; });
        if (order == 3) std::stable_partition(ord.begin(), ord.end(), [](int k) { return k % 7 % 3; });
        std::vector<bool> dead(size_t(n), false);  // by position in the order
        for (int j = 0; j < n; ++j)
          dead[size_t(j)] = pattern == 0 ? j == p : pattern == 1 ? j != p : pattern == 2 ? j <= p : pattern == 3 ? j >= p
                            : pattern == 4 ? j % (p + 1) == 0 : j % (p + 2) != 0;
        vclock.now = 1000000000;
        Cfg g;
        g.ttl[0] = 100;
        g.cap[0] = room ? n + 2 : n;
        std::unique_ptr<C> c(T::make(g, 0));
        for (int j = 0; j < n; ++j) c->insert(T::mk(j), T::mv(0));
        vclock.now += 60;
        for (int j = 0; j < n; ++j)
          if (!dead[size_t(j)]) c->insert(T::mk(ord[size_t(j)]), T::mv(j + 1));
        for (int k : ord) MC_CHECK(c->contains(T::mk(k)), "a fresh key is not found");
        std::vector<std::pair<int, bool>> e;
        for (int j = 0; j < n; ++j) e.emplace_back(ord[size_t(j)], dead[size_t(j)]);
        auto use = [&](int j) {
          c->find(T::mk(e[size_t(j)].first));
          std::rotate(e.begin() + j, e.begin() + j + 1, e.end());
        };
        // What was accessed last, and what was erased before.
        if (last == 1) use(0);
        if (last == 2) use(n / 2);
        vclock.now += 50;
        if (last == 3) {
          c->erase(T::mk(e.back().first));
          e.pop_back();
        }
        const size_t expired = size_t(std::count_if(e.begin(), e.end(), [](auto& x) { return x.second; }));
        MC_CHECK(c->all_expired() == (expired == e.size()), "all_expired() is ", c->all_expired(), " with ", expired, " of ", e.size(), " expired");
        const size_t removed = c->clear_expired();
        MC_CHECK(removed == expired, "clear_expired() returns ", removed, ", expected ", expired, " of ", e.size());
        e.erase(std::remove_if(e.begin(), e.end(), [](auto& x) { return x.second; }), e.end());
        MC_CHECK(c->size() == e.size(), "clear_expired() leaves ", c->size(), " entries, expected ", e.size());
        size_t at = 0;
        for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it, ++at)
          MC_CHECK(at < e.size() && T::ki(it->first) == e[at].first, "clear_expired() changes the order of the others at ", at);
        MC_CHECK(at == e.size(), "clear_expired() changes the order of the others");
        for (auto& x : e) MC_CHECK(!c->has_expired(T::mk(x.first)), "clear_expired() ages an entry");
        vclock.now += 50;
        for (auto& x : e) MC_CHECK(c->contains(T::mk(x.first)), "clear_expired() shortens the life of an entry");
        MC_CHECK(c->clear_expired() == 0, "clear_expired() removes what has not expired");
        vclock.now += 1;
        c->insert(T::mk(10000), T::mv(1));
        const size_t left = c->size();
        MC_CHECK(c->clear_expired() == left - 1 && c->size() == 1 && c->contains(T::mk(10000)), "clear_expired() at the end");
        ctx.states += 1;
        ctx.transitions += 5;
        if (ctx.evaluations % 4999 == 0) ctx.sample(str(n, " entries, pattern ", pattern, " at ", p, ", order ", order));
      },
      str("every number of entries up to ", max_n, more.empty() ? "" : " and some more",
          ", 6 patterns of expired ones at every position, 4 orders, 4 last operations"));
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  histories<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 1
  histories<TimedTrackedTraits<Ns>>(thorough, true);
#else
  const std::string b = "every subset of up to 10 entries (sanitized: 8, thorough: 13, both: 10), 4 orders, 3 ways";
  search_job("subsets", 8, subsets<TimedIntTraits<Ns>>, b);
  patterns<TimedIntTraits<Ns>>("sizes", thorough ? 200 : sanitized ? 20 : 70, thorough ? 70 : sanitized ? 8 : 30, {128, 129, 255, 256, 300});
  patterns<TimedHashTraits<Ns, PairHash>>("sizes-colliding", thorough ? 66 : sanitized ? 10 : 30, thorough ? 30 : sanitized ? 5 : 10);
  search_job("subsets-colliding", 8, subsets<TimedHashTraits<Ns, PairHash>>, b);
#endif
}
