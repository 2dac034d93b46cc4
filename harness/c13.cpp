// C13: statistics objects can be shared, replaced and edited without losing
// counts.
// VARIANTS: 4
// SAN: 0 2 3
#include "traits.hpp"
using namespace mc;

static constexpr unsigned SEE = O_STATS | O_STATERR | O_RESULT;

// Everything that concerns statistics objects, for every cache.
static std::vector<Op> stat_ops(int nk, int slots, int reserved) {
  std::vector<Op> v = Ops(nk, 1, slots).plain({MON_NEW, STOP, ST_UNMON_ALL, ST_RESET_ALL})
      .k({MON_KEY, ST_MON, ST_UNMON, ST_RESET});
  for (int s = 0; s < slots; ++s) {
    v.push_back({MON_KEYS2, s, 0, 0});
    for (int b = 0; b < reserved; ++b) {
      v.push_back({MON_SHARED, s, 0, b});
      if (b == 0) v.push_back({MON_SHARED_MOVE, s, 0, b});
    }
    for (int t = 0; t < slots; ++t) {
      v.push_back({MON_FROM, s, t, 0});
      if (s != t)
        for (int kind : {COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, MOVE_CTOR, SWAP_MEMBER, SWAP_FREE})
          v.push_back({kind, s, t, 0});
    }
    v.push_back({REMAKE, s, 0, 0});
  }
  for (int b = 0; b < reserved; ++b) {
    for (int kind : {SO_UNMON_ALL, SO_RESET_ALL}) v.push_back({kind, 0, 0, b});
    for (int kind : {SO_MON, SO_UNMON, SO_RESET})
      for (int k = 0; k < nk; ++k) v.push_back({kind, 0, k, b});
  }
  return v;
}

template <class T>
static void sharing(bool thorough, bool small) {
  Cfg g;
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 2;
  g.nkeys = 2;
  g.nvals = 1;
  g.slots = 2;
  g.age_cap = 11;
  g.observe = SEE;
  auto st = stat_ops(2, 2, 2);
  // All histories over all of these and a hit, a miss and an insertion.
  g.ops = st;
  add(g.ops, Ops(2, 1, 2).k({CONTAINS}));
  add(g.ops, Ops(1, 1, 2).k({INSERT}));
  if (T::timed) add(g.ops, Ops(1, 1).with(ADVANCE, {11}));
  tree_job<T>("tree", g, (small || sanitized ? 2 : 3), 16, 2);
  // Every way in which two caches and two objects are related, then editing
  // in between accesses.
  std::vector<Op> setup{{INSERT, 0, 0, 0}, {INSERT, 1, 0, 0}, {MON_SHARED, 0, 0, 0}, {MON_SHARED, 1, 0, 0},
                        {MON_SHARED, 1, 0, 1}, {MON_NEW, 0, 0, 0}, {MON_KEY, 1, 0, 0}, {STOP, 0, 0, 0},
                        {STOP, 1, 0, 0}, {COPY_ASSIGN, 0, 1, 0}, {SWAP_MEMBER, 0, 1, 0},
                        {SO_MON, 0, 0, 0}, {SO_MON, 0, 1, 1}};
  std::vector<Op> use = Ops(2, 1, 2).k({CONTAINS, LOOKUP_C});
  std::vector<Op> one = Ops(2, 1, 2).k({FIND});
  if (T::timed) use.push_back({ADVANCE, 0, 11, 0});
  const int less = small || sanitized;
  staged_job<T>("related", g, setup, {use, st, one}, 8, 2, 0, (less ? 1 : 2) + (thorough ? 1 : 0));
  if (thorough || !less)
    staged_job<T>("edited", g, setup, {use, st, st}, 8, 2, 0, (less ? 0 : 1) + (thorough ? 1 : 0));
  // One cache and one object, deeper.
  g.slots = 1;
  g.ops = {{MON_SHARED, 0, 0, 0}, {MON_NEW, 0, 0, 0}, {STOP, 0, 0, 0}, {CONTAINS, 0, 0, 0}, {CONTAINS, 0, 1, 0},
           {INSERT, 0, 0, 0}, {ST_MON, 0, 0, 0}, {ST_UNMON, 0, 0, 0}, {ST_RESET, 0, 0, 0}, {ST_RESET_ALL, 0, 0, 0},
           {SO_MON, 0, 1, 0}, {REMAKE, 0, 0, 0}, {ST_UNMON_ALL, 0, 0, 0}};
  tree_job<T>("deep", g, (small || sanitized ? 4 : 5) + (thorough ? 1 : 0), 16, 1);
}

// All ways to construct a statistics object for a list of keys.
template <class T>
static void constructors(Chooser& ch, Ctx& ctx) {
  using Key = typename T::Key;
  using S = LRU::Statistics<Key>;
  const int n = ch.choose(5);
  std::vector<int> keys;
  for (int i = 0; i < n; ++i) keys.push_back(ch.choose(3));
  std::vector<Key> v;
  for (int k : keys) v.push_back(T::mk(k));
  auto arg = [&](int i) -> Key& { return v[size_t(i)]; };
  auto carg = [&](int i) -> const Key& { return v[size_t(i)]; };
  std::shared_ptr<S> s;
  const int how = ch.choose(13);
  switch (how) {
    case 0:  // any number of keys
      switch (n) {
        case 0: s.reset(new S()); break;
        case 1: s.reset(new S(arg(0))); break;
        case 2: s.reset(new S(arg(0), arg(1))); break;
        case 3: s.reset(new S(arg(0), arg(1), arg(2))); break;
        default: s.reset(new S(arg(0), arg(1), arg(2), arg(3))); break;
      }
      break;
    case 1: s.reset(new S(v)); break;
    case 2: {
      const auto& cv = v;
      s.reset(new S(cv));
      break;
    }
    case 3: s.reset(new S(v.begin(), v.end())); break;
    case 4: {
      std::list<Key> l(v.begin(), v.end());
      s.reset(new S(l.begin(), l.end()));
      break;
    }
    case 5: {
      if (n != 2) return;
      std::initializer_list<Key> l2{arg(0), arg(1)};
      s.reset(new S(l2));
      break;
    }
    case 6:  // copies
    case 7: {
      S o(v.begin(), v.end());
      LRU::Cache<Key, int> c(1);
      if (how == 6) {
        s.reset(new S(static_cast<const S&>(o)));
        o.monitor(T::mk(0));
      } else {
        s.reset(new S());
        *s = o;
        o.unmonitor_all();
      }
      break;
    }
    case 9:  // constant keys
      switch (n) {
        case 0: s.reset(new S()); break;
        case 1: s.reset(new S(carg(0))); break;
        case 2: s.reset(new S(carg(0), carg(1))); break;
        case 3: s.reset(new S(carg(0), arg(1), carg(2))); break;
        default: s.reset(new S(carg(0), carg(1), carg(2), carg(3))); break;
      }
      break;
    case 10: {  // the same through a cache, with temporary keys as well
      LRU::Cache<Key, int> c(2);
      switch (n) {
        case 0: c.monitor(); break;
        case 1: c.monitor(carg(0)); break;
        case 2: c.monitor(carg(0), carg(1)); break;
        case 3: c.monitor(T::mk(keys[0]), carg(1), arg(2)); break;
        default: c.monitor(T::mk(keys[0]), T::mk(keys[1]), T::mk(keys[2]), T::mk(keys[3])); break;
      }
      s = c.shared_stats();
      break;
    }
    case 11: {  // ranges and iterators through a cache
      LRU::Cache<Key, int> c(2);
      const auto& cv = v;
      const int what = ch.choose(4);
      if (what == 0) c.monitor(cv);
      if (what == 1) c.monitor(std::list<Key>(v.begin(), v.end()));
      if (what == 2) c.monitor(cv.begin(), cv.end());
      if (what == 3) c.monitor(cv.data(), cv.data() + cv.size());
      s = c.shared_stats();
      break;
    }
    case 12: {  // a copy through a cache, and a pointer to a new object
      LRU::Cache<Key, int> c(2);
      const S o(v.begin(), v.end());
      if (ch.flag()) {
        c.monitor(o);
      } else {
        c.monitor(std::make_unique<S>(o));
      }
      s = c.shared_stats();
      break;
    }
    default: {  // through a cache
      LRU::Cache<Key, int> c(2);
      switch (n) {
        case 0: c.monitor(); break;
        case 1: c.monitor(arg(0)); break;
        case 2: c.monitor(arg(0), arg(1)); break;
        case 3: c.monitor(arg(0), arg(1), arg(2)); break;
        default: c.monitor(v); break;
      }
      s = c.shared_stats();
      break;
    }
  }
  std::set<int> distinct(keys.begin(), keys.end());
  const S& cs = *s;
  for (size_t i = 0; i < v.size(); ++i)
    MC_CHECK(T::ki(v[i]) == keys[i], "constructing statistics modified a key");
  auto check = [&](std::map<int, std::pair<size_t, size_t>> m, size_t hits, size_t acc) {
    MC_CHECK(cs.total_accesses() == acc && cs.total_hits() == hits && cs.total_misses() == acc - hits,
             "wrong totals: ", cs.total_accesses(), " accesses, ", cs.total_hits(), " hits");
    MC_CHECK(cs.number_of_monitored_keys() == m.size() && cs.is_monitoring_keys() == !m.empty(),
             cs.number_of_monitored_keys(), " keys are monitored, expected ", m.size());
    for (int k = 0; k < 3; ++k) {
      auto key = T::mk(k);
      MC_CHECK(cs.is_monitoring(key) == (m.count(k) == 1), "is_monitoring(", k, ") is wrong");
      try {
        auto& x = cs.stats_for(key);
        MC_CHECK(m.count(k), "statistics of an unmonitored key");
        MC_CHECK(x.hits == m[k].first && x.misses == m[k].second && x.accesses() == x.hits + x.misses,
                 "key ", k, " has ", x.hits, " hits and ", x.misses, " misses");
      } catch (LRU::Error::UnmonitoredKey&) {
        MC_CHECK(!m.count(k), "a monitored key is reported as unmonitored");
      }
    }
  };
  std::map<int, std::pair<size_t, size_t>> m;
  for (int k : distinct) m[k] = {0, 0};
  check(m, 0, 0);
  // Using it: two caches of different kinds share it; one goes away.
  auto a = std::make_unique<LRU::Cache<Key, int>>(2);
  LRU::TimedCache<Key, int> b(std::chrono::hours(1), 2);
  a->monitor(s);
  if (ch.flag()) {
    b.monitor(a->shared_stats());
  } else {
    auto copy = s;
    b.monitor(std::move(copy));
  }
  a->insert(T::mk(0), 1);
  b.insert(T::mk(1), 1);
  size_t hits = 0, acc = 0;
  auto use = [&](auto& c, int k, bool hit) {
    MC_CHECK(c.contains(T::mk(k)) == hit, "contains() is wrong");
    ++acc;
    hits += hit;
    if (m.count(k)) ++(hit ? m[k].first : m[k].second);
    check(m, hits, acc);
  };
  use(*a, 0, true);
  use(b, 0, false);
  use(b, 1, true);
  use(*a, 2, false);
  a.reset();
  use(b, 1, true);
  use(b, 2, false);
  MC_CHECK(&b.stats() == s.get(), "not the object given");
  b.stop_monitoring();
  b.contains(T::mk(1));
  check(m, hits, acc);
  // Editing a copy leaves the object alone.
  S copy(cs);
  copy.monitor(T::mk(2));
  copy.reset_all();
  copy.unmonitor_all();
  check(m, hits, acc);
  ctx.states += 1;
  ctx.transitions += 12;
}

// Keys given as string literals, as the README has it.
static void literals(Chooser& ch, Ctx& ctx) {
  using S = LRU::Statistics<std::string>;
  LRU::Cache<std::string, int> c(2);
  LRU::TimedCache<std::string, int> t(std::chrono::hours(1), 2);
  std::shared_ptr<S> s;
  const int how = ch.choose(4), what = ch.choose(9);
  auto give = [&](const auto&... keys) {
    if (how == 0) c.monitor(keys...), s = c.shared_stats();
    if (how == 1) t.monitor(keys...), s = t.shared_stats();
    if (how == 2) s.reset(new S(keys...));
    if (how == 3) s = std::make_shared<S>(keys...);
  };
  std::set<std::string> want;
  const char* const pointers[] = {"a", "c"};
  const std::string constant = "a";
  std::string variable = "b";
  switch (what) {
    case 0: give("a"); want = {"a"}; break;
    case 1: give("a", "b"); want = {"a", "b"}; break;
    case 2: give("a", "b", "c"); want = {"a", "b", "c"}; break;
    case 3: give(constant, "b"); want = {"a", "b"}; break;
    case 4: give("c", variable); want = {"b", "c"}; break;
    case 5: give(pointers[0], pointers[1]); want = {"a", "c"}; break;
    case 6: give(&pointers[0], &pointers[0] + 2); want = {"a", "c"}; break;
    case 7: give(std::vector<const char*>(pointers, pointers + 2)); want = {"a", "c"}; break;
    default: give(std::set<std::string>{constant, variable}); want = {"a", "b"}; break;
  }
  MC_CHECK(s->number_of_monitored_keys() == want.size() && s->is_monitoring_keys(),
           s->number_of_monitored_keys(), " keys are monitored, expected ", want.size());
  std::map<std::string, std::pair<size_t, size_t>> m;
  for (auto& k : want) m[k] = {0, 0};
  c.monitor(s);
  c.insert("a", 1);
  size_t total = 0;
  for (const char* k : {"a", "b", "a", "c"}) {
    const bool hit = c.contains(k);
    ++total;
    if (m.count(k)) ++(hit ? m[k].first : m[k].second);
    MC_CHECK(hit == (k[0] == 'a'), "contains() is wrong");
    MC_CHECK(s->total_accesses() == total, "wrong number of accesses");
    for (const char* x : {"a", "b", "c"}) {
      MC_CHECK(s->is_monitoring(x) == (m.count(x) == 1), "is_monitoring() is wrong for ", x);
      if (m.count(x))
        MC_CHECK(s->hits_for(x) == m[x].first && s->misses_for(x) == m[x].second, "wrong counts for ", x);
    }
  }
  ctx.states += 1;
  ctx.transitions += 4;
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  sharing<IntTraits>(thorough, false);
#elif VARIANT == 1
  sharing<TimedIntTraits<Ns>>(thorough, true);
#elif VARIANT == 2
  sharing<StrTraits>(thorough, true);
#else
  search_job("constructors", 1, constructors<StrTraits>,
             "all lists of up to 4 of 3 keys, 13 ways to construct statistics from them");
  search_job("constructors-edge", 1, constructors<EdgeTraits>,
             "all lists of up to 4 of 3 keys, 13 ways to construct statistics from them");
  search_job("literals", 1, literals,
             "9 ways to name keys by literals, constants, pointers and ranges, given to 4 places");
#endif
}
