// C12: statistics count every lookup exactly once as a hit or a miss.
// VARIANTS: 5
// SAN: 0 1
#include "sweep.hpp"
using namespace mc;

static constexpr unsigned SEE = O_STATS | O_RESULT;

template <class T>
static std::vector<Op> extra() {
  return T::timed ? std::vector<Op>(Ops(3, 1).with(ADVANCE, {6, 11}).plain({CLEAR_EXPIRED, ALL_EXPIRED})
                                        .k({HAS_EXPIRED}))
                  : std::vector<Op>();
}

template <class T>
static void counting(bool thorough, bool small) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 2;
  g.nkeys = 3;
  g.nvals = 1;
  g.age_cap = 11;
  g.stats = true;
  g.observe = SEE;
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  std::vector<Op> all;
  for (auto o : everything(3)) {
    if (o.kind == INSERT && o.b == 1) continue;
    if (o.kind < CLEAR) o.b = 0;
    all.push_back(o);
  }
  add(all, extra<T>());
  // Every state of the contents; any operation; lookups.
  std::vector<Op> setup = Ops(3, 1).k({INSERT, ERASE}).plain({CLEAR});
  setup.push_back({MON_KEYS2, 0, 0, 0});
  setup.push_back({STOP, 0, 0, 0});
  if (T::timed) {
    setup.push_back({ADVANCE, 0, 6, 0});
    if (!thorough) setup.erase(std::remove_if(setup.begin(), setup.end(), [](const Op& o) {
                     return o.kind == MON_KEYS2 || o.kind == STOP;
                   }), setup.end());
  }
  std::vector<Op> l = lookups(3), few = Ops(3, 1).k({CONTAINS, FIND_C, LOOKUP, SUB_C});
  const bool full = thorough || !(small || sanitized || T::timed);
  if (full) {
    staged_job<T>("any-then-lookups", g, setup, {all, l, few}, 8);
    staged_job<T>("lookups-then-any", g, setup, {few, all, few}, 8);
  } else {
    staged_job<T>("any-then-lookups", g, setup, {all, l}, 8);
    staged_job<T>("lookups-then-any", g, setup, {few, all, Ops(3, 1).k({FIND_C})}, 8);
  }
  // All histories of lookups and of what may come between them.
  g.ops = lookups(3);
  add(g.ops, Ops(3, 1).k({INSERT, ERASE}));
  if (T::timed) add(g.ops, Ops(3, 1).with(ADVANCE, {11}));
  tree_job<T>("tree", g, sanitized || small ? 3 : thorough ? 5 : 4, 16);
  if (small) return;
  // A history of accesses to few keys, deeper.
  g.nkeys = 2;
  g.cap[0] = 1;
  g.ops = Ops(2, 1).k({CONTAINS, LOOKUP_C, INSERT});
  if (T::timed) add(g.ops, Ops(2, 1).with(ADVANCE, {11}));
  tree_job<T>("deep", g, sanitized ? 5 : thorough ? 8 : 6, 8);
  if (thorough) {
    g.cap[0] = 2;
    g.nkeys = 3;
    g.ops = all;
    tree_job<T>("tree-all", g, 3, 32);
  }
}

// Very many accesses: a pattern of hits and misses of monitored and other
// keys, repeated; the counters are compared all along.
template <class C>
static void many(C& c, long rounds, int pattern) {
  const C& cc = c;
  c.monitor(1, 2);
  c.insert(1, 1);
  c.insert(3, 3);
  unsigned long hits = 0, acc = 0, one = 0, two = 0;
  for (long i = 0; i < rounds; ++i) {
    bool hit = false, expected = true;
    int k;
    switch (pattern) {
      case 0: k = 1; break;
      case 1: k = 2; expected = false; break;
      case 2: k = 3; break;
      default:
        k = int(i % 5);
        expected = k == 1 || k == 3;
    }
    switch (i % 4) {
      case 0: hit = c.contains(k); break;
      case 1: hit = cc.find(k) != cc.end(); break;
      case 2: hit = c.find(k) != c.end(); break;
      default: hit = cc.contains(k);
    }
    MC_CHECK(hit == expected, "access number ", i, " is ", hit);
    ++acc;
    hits += hit;
    one += k == 1;
    two += k == 2;
    auto& s = cc.stats();
    if (s.total_accesses() != acc || s.total_hits() != hits || s.total_misses() != acc - hits ||
        s.hits_for(1) != one || s.misses_for(1) != 0 || s.misses_for(2) != two || s.hits_for(2) != 0)
      fail("after ", acc, " accesses with ", hits, " hits the statistics report ", s.total_accesses(),
           " accesses, ", s.total_hits(), " hits, ", s.total_misses(), " misses, ", s.hits_for(1), "/",
           s.misses_for(1), " for key 1 (expected ", one, "/0), ", s.hits_for(2), "/", s.misses_for(2),
           " for key 2 (expected 0/", two, ")");
    if (std::fabs(s.hit_rate() - double(hits) / double(acc)) > 1e-9 ||
        std::fabs(s.miss_rate() - double(acc - hits) / double(acc)) > 1e-9)
      fail("after ", acc, " accesses with ", hits, " hits the rates are ", s.hit_rate(), " and ", s.miss_rate());
    if (i % 65536 == 0) beat();
  }
}
static void long_runs(Chooser& ch, Ctx& ctx, long rounds) {
  int pattern = ch.choose(4);
  bool timed = ch.flag();
  ch.split();
  if (timed) {
    LRU::TimedCache<int, int> c(std::chrono::hours(1), 4);
    many(c, rounds, pattern);
  } else {
    LRU::Cache<int, int> c(4);
    many(c, rounds, pattern);
  }
  ctx.states += 1;
  ctx.transitions += uint64_t(rounds);
}
// More accesses than 32 bits can count, all of them hits or all misses.
static void beyond_32_bits(Chooser& ch, Ctx& ctx) {
  const bool hit = ch.flag();
  ch.split();
  LRU::Cache<int, int> c(2);
  c.monitor(1);
  if (hit) c.insert(1, 1);
  const uint64_t n = (uint64_t(1) << 32) + 3;
  uint64_t hits = 0;
  auto check = [&](uint64_t i) {
    const auto& s = c.stats();
    MC_CHECK(hits == (hit ? i : 0), "of ", i, " accesses ", hits, " were hits");
    MC_CHECK(s.total_accesses() == i && s.total_hits() == hits && s.total_misses() == i - hits &&
                 s.hits_for(1) == hits && s.misses_for(1) == i - hits,
             "after ", i, " accesses that were all ", hit ? "hits" : "misses", " the statistics report ",
             s.total_accesses(), " accesses, ", s.total_hits(), " hits, ", s.total_misses(), " misses, ",
             s.hits_for(1), " hits and ", s.misses_for(1), " misses of the only key");
    MC_CHECK(std::fabs(s.hit_rate() - (hit ? 1 : 0)) < 1e-9 && std::fabs(s.miss_rate() - (hit ? 0 : 1)) < 1e-9,
             "after ", i, " accesses the rates are ", s.hit_rate(), " and ", s.miss_rate());
  };
  for (uint64_t i = 0; i < n;) {
    const uint64_t to = std::min(n, (i / 65536 + 1) * 65536);
    for (; i < to; ++i) hits += c.contains(1);
    check(i);
    beat();
  }
  ctx.states += 1;
  ctx.transitions += n;
}
// Every pair of numbers of hits and misses: counters and rates.
static void rates(Chooser& ch, Ctx& ctx, int max) {
  int hits = ch.choose(max + 1), misses = ch.choose(max + 1);
  LRU::Cache<int, int> c(2);
  c.monitor(1);
  c.insert(1, 1);
  for (int i = 0; i < hits; ++i) c.contains(1);
  for (int i = 0; i < misses; ++i) c.contains(2);
  auto& s = c.stats();
  MC_CHECK(int(s.total_hits()) == hits && int(s.total_misses()) == misses && int(s.hits_for(1)) == hits,
           hits, " hits and ", misses, " misses are counted as ", s.total_hits(), " and ", s.total_misses());
  if (hits + misses > 0)
    MC_CHECK(std::fabs(s.hit_rate() - double(hits) / (hits + misses)) < 1e-9 &&
                 std::fabs(s.miss_rate() - double(misses) / (hits + misses)) < 1e-9,
             "with ", hits, " hits and ", misses, " misses the rates are ", s.hit_rate(), " and ", s.miss_rate());
  ctx.states += 1;
  ctx.transitions += uint64_t(hits + misses);
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  counting<IntTraits>(thorough, false);
#elif VARIANT == 1
  counting<TimedIntTraits<Ns>>(thorough, false);
#elif VARIANT == 2
  counting<StrTraits>(thorough, true);
#elif VARIANT == 3
  const long rounds = thorough ? 20000000 : sanitized ? 70000 : 1000000;
  search_job("long", 8, [=](Chooser& ch, Ctx& ctx) { long_runs(ch, ctx, rounds); },
             str("8 runs of ", rounds, " accesses, compared after each"));
  if (!sanitized)
    search_job("32-bits", 2, beyond_32_bits, "2^32 + 3 hits or misses, compared after every 65536");
  const int max = thorough ? 100 : 30;
  search_job("rates", 1, [=](Chooser& ch, Ctx& ctx) { rates(ch, ctx, max); },
             str("every number of hits and misses up to ", max));
  counting<HashTraits<ConstHash>>(thorough, true);
#else
  access_job<IntTraits>("sizes", sanitized ? 8 : thorough ? 300 : 70, thorough ? 100 : sanitized ? 8 : 30, 8, true, false,
                        sanitized ? std::vector<int>{} : std::vector<int>{59, 60, 128, 129, 256, 300});
  access_job<TimedIntTraits<Ns>>("sizes-timed", sanitized ? 5 : thorough ? 200 : 40, thorough ? 60 : sanitized ? 5 : 14, 8, true, false,
                                 sanitized ? std::vector<int>{} : std::vector<int>{64, 130, 257});
#endif
}
