// C09: an entry is accessible exactly while its age is within the time to live.
// VARIANTS: 10
// SAN: 0 5 9
#include "traits.hpp"
using namespace mc;

static constexpr unsigned SEE = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_VALID | O_RESULT;

// unit: nanoseconds of one tick of the duration.
template <class T>
static void ages(const std::string& name, bool (*expired)(int64_t, int64_t), int64_t unit,
                 int64_t ttl, bool thorough, bool main) {
  Cfg g;
  g.lists = some_lists();
  g.timed = true;
  g.expired = expired;
  g.ttl[0] = g.ttl[1] = ttl;
  g.cap[0] = g.cap[1] = 2;
  g.nkeys = 3;
  g.nvals = 2;
  g.observe = SEE;
  // The steps reach the last instant of the life, one ns before and after it,
  // the end of the tick after it, and halves.
  std::vector<int64_t> steps{1, unit - 1, unit, unit * ttl, unit * (ttl + 1) - 1, unit / 2};
  std::sort(steps.begin(), steps.end());
  steps.erase(std::unique(steps.begin(), steps.end()), steps.end());
  std::vector<Op> time;
  for (auto s : steps)
    if (s > 0) time.push_back({ADVANCE, 0, s, 0});
  // Single entry: all ways of asking, all ways of refreshing, at all times.
  g.nkeys = 2;
  g.ops = Ops(1, 2).k({CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C, HAS_EXPIRED})
              .kv({INSERT}).plain({ALL_EXPIRED, CLEAR_EXPIRED});
  for (int kind : {INSERT_T, EMPLACE, EMPLACE_L, EMPLACE_PW, W_UIT, W_LOOKUP, W_OIT, W_FIND, ERASE, ERASE_O})
    g.ops.push_back({kind, 0, 0, 1});
  for (int kind : {INSERT_IT, INSERT_RANGE, INSERT_IL, INSERT_RV, ASSIGN_IL})
    g.ops.push_back({kind, 0, 1, 0});
  g.ops.push_back({INSERT, 0, 1, 0});
  g.ops.push_back({LOOKUP, 0, 1, 0});
  add(g.ops, time);
  tree_job<T>(name + "-one", g, thorough ? 4 : 3, main ? 8 : 4);
  // Refreshing and then walking through time.
  std::vector<Op> setup = Ops(2, 1).k({INSERT});
  add(setup, time);
  std::vector<Op> use = Ops(2, 1).k({INSERT, EMPLACE, LOOKUP, FIND_C, CONTAINS});
  use.push_back({W_FIND, 0, 0, 1});
  use.push_back({COPY_CTOR, 0, 0, 0});
  use.push_back({MOVE_CTOR, 0, 0, 0});
  use.push_back({CAPACITY, 0, 1, 0});
  staged_job<T>(name + "-walk", g, setup, {use, time, time}, 8, 0, 0, thorough ? 4 : sanitized ? 2 : 3);
  if (!main) return;
  // Several entries of different ages.
  g.nkeys = 3;
  g.ops = Ops(3, 1).k({CONTAINS, FIND_C, LOOKUP, ERASE, INSERT, EMPLACE})
              .with(ADVANCE, {unit * ttl, unit, 1}).plain({CLEAR}).with(CAPACITY, {1, 2, 3});
  tree_job<T>(name + "-several", g, (sanitized ? 3 : 4) + (thorough ? 1 : 0), 8);
  g.age_cap = unit * (ttl + 1);
  g.ops = everything(3);
  add(g.ops, Ops(3, 1).with(ADVANCE, {unit * (ttl + 1)}).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}));
  g.observe &= ~unsigned(O_VALID);
  bfs_job<T>(name + "-bfs", g, thorough ? 1 : 0, 30, 8, 2000000);
}

// Long waiting times, long times to live, and a far clock.
template <class D>
static void far(Chooser& ch, Ctx& ctx) {
  using C = LRU::TimedCache<int, int, D>;
  const int64_t day = 86400000000000LL;
  const int64_t unit = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
  const int64_t bases[] = {0, 1, 1000000000, 365 * day, 36500 * day};
  const int64_t ttls[] = {0, 1, 2, 1000, 1000000, 100000000};
  vclock.now = bases[ch.choose(5)];
  const int64_t ttl = ttls[ch.choose(6)];
  if (unit * double(ttl) > 3e18) return;
  const bool big = ch.flag();
  C c(D(ttl), big ? 128 : 1);
  c.insert(7, 1);
  if (ch.flag()) c.insert(7, 2);
  const int64_t ages[] = {0, unit * ttl, unit * (ttl + 1) - 1, unit * (ttl + 1), unit * ttl + unit / 2,
                          5 * day, 25 * day, 50 * day, 365 * day, 50000 * day};
  const int64_t age = ages[ch.choose(10)];
  vclock.now += age;
  const bool alive = age / unit <= ttl;
  const C& cc = c;
  auto it = c.ordered_begin();
  MC_CHECK(c.has_expired(7) == !alive && c.has_expired(it) == !alive && c.is_valid(it) == alive,
           "age ", age, " ns, ttl ", ttl, " x ", unit, " ns: has_expired() is ", c.has_expired(7));
  bool found = false;
  switch (ch.choose(6)) {
    case 0: found = c.contains(7); break;
    case 1: found = c.find(7) != c.end(); break;
    case 2: found = cc.find(7) != cc.end(); break;
    case 3:
      try {
        c.lookup(7);
        found = true;
      } catch (std::runtime_error&) {
      }
      break;
    case 4:
      try {
        it.entry();
        found = true;
      } catch (std::runtime_error&) {
      }
      break;
    default:
      try {
        cc.begin().value();
        found = true;
      } catch (std::runtime_error&) {
      }
      break;
  }
  MC_CHECK(found == alive, "age ", age, " ns, ttl ", ttl, " x ", unit, " ns: accessible is ", found);
  MC_CHECK(c.all_expired() == !alive, "all_expired() is wrong");
  MC_CHECK(c.size() == 1, "the entry is gone");
  c.insert(7, 3);
  MC_CHECK(c.contains(7) && c.lookup(7) == 3, "an expired key is not accessible after inserting it again");
  vclock.now += unit * ttl;
  MC_CHECK(c.contains(7), "inserting again does not give a full time to live");
  vclock.now += unit;
  MC_CHECK(!c.contains(7), "inserting again gives more than the time to live");
  ctx.states += 1;
  ctx.transitions += 6;
}

// Times to live near the end of what the duration can hold ("for ever"), and durations
// whose count is narrower than that of the clock.
template <class D>
static void limits(Chooser& ch, Ctx& ctx) {
  using C = LRU::TimedCache<int, int, D>;
  using R = typename D::rep;
  const int64_t second = 1000000000, day = 86400 * second, last = INT64_MAX;
  const int64_t bases[] = {0, 1, second, 365 * day, 36500 * day};
  const R big = std::numeric_limits<R>::max();
  std::vector<R> ttls{big, R(big - 1), R(big / 2), R(big / 2 + 1), R(1), R(0)};
  if (std::numeric_limits<R>::has_infinity) ttls.push_back(std::numeric_limits<R>::infinity());
  const int64_t unit = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
  const int64_t base = bases[ch.choose(5)];
  vclock.now = base;
  const R ttl = ttls[ch.choose(int(ttls.size()))];
  C c{D(ttl)};
  c.insert(7, 1);
  if (ch.flag()) c.emplace(7, 2);
  std::vector<int64_t> ages{0, 1, second, 3 * second, day, 30 * day, 400 * day, 36500 * day, last - base};
  // Around the boundary, and where a narrow counter of ticks starts again.
  std::vector<double> ticks{double(ttl), double(ttl) + 1, double(ttl) + 2};
  for (int bits : {8, 16, 31, 32, 33})
    for (int d : {-1, 0, 1}) ticks.push_back(std::ldexp(1.0, bits) + d);
  for (double tick : ticks)
    for (int d : {-1, 0, 1})
      if (tick * double(unit) < 9e15) ages.push_back(int64_t(tick) * unit + d);
  const int64_t age = ages[ch.choose(int(ages.size()))];
  if (age < 0 || age > last - base) return;
  vclock.now += age;
  const bool alive = std::numeric_limits<R>::is_integer ? age / unit <= static_cast<long double>(ttl)
                                                        : static_cast<long double>(age) <= static_cast<long double>(ttl) * unit;
  const C& cc = c;
  const std::string what = str("age ", age, " ns, time to live ", double(ttl), " x ", unit, " ns: ");
  bool found = false;
  switch (ch.choose(5)) {
    case 0: found = c.contains(7); break;
    case 1: found = cc.find(7) != cc.end(); break;
    case 2: found = !c.has_expired(7) && !c.all_expired(); break;
    case 3: found = c.is_valid(c.ordered_begin()) && !cc.has_expired(cc.begin()); break;
    default:
      try {
        found = c.lookup(7) != 0;
      } catch (std::runtime_error&) {
      }
  }
  MC_CHECK(found == alive, what, "accessible is ", found);
  MC_CHECK(c.clear_expired() == size_t(!alive) && c.size() == size_t(alive), what, "clear_expired() is wrong");
  ctx.states += 1;
  ctx.transitions += 3;
}

// Every way to construct a timed cache, the time to live being given in any unit:
// what it holds from the start lives exactly as long as what is inserted later.
template <class D, class G>
static void constructed(Chooser& ch, Ctx& ctx) {
  using C = LRU::TimedCache<int, int, D>;
  const int64_t n = ch.choose(3) + (ch.flag() ? 60 : 0);  // 0-2, 60-62 units
  const int64_t tick = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
  const int64_t given = std::chrono::duration_cast<std::chrono::nanoseconds>(G(1)).count();
  // In whole ticks and whole units.
  const int64_t life = n * (tick > given ? tick : given);
  const int64_t ttl_ns = life;
  const G ttl = G(typename G::rep(life / given));
  vclock.now = 1000000000000;
  std::vector<std::pair<int, int>> v{{1, 10}, {2, 20}};
  const std::vector<std::pair<int, int>> cv = v;
  std::map<int, int> m{{1, 10}, {2, 20}};
  std::hash<int> h;
  std::equal_to<int> q;
  std::unique_ptr<C> c;
  const int form = ch.choose(24);
  size_t capacity = 0;  // 0: any
  switch (form) {
    case 0: c.reset(new C(ttl)); capacity = 128; break;
    case 1: c.reset(new C(ttl, 3)); capacity = 3; break;
    case 2: c.reset(new C(ttl, 3, h)); capacity = 3; break;
    case 3: c.reset(new C(ttl, 3, h, q)); capacity = 3; break;
    case 4: c.reset(new C(ttl, 5, v.begin(), v.end())); capacity = 5; break;
    case 5: c.reset(new C(ttl, 5, m.begin(), m.end(), h, q)); capacity = 5; break;
    case 6: c.reset(new C(ttl, v.begin(), v.end())); break;
    case 7: c.reset(new C(ttl, m.cbegin(), m.cend(), h, q)); break;
    case 8: c.reset(new C(ttl, 5, v)); capacity = 5; break;
    case 9: c.reset(new C(ttl, 5, cv, h)); capacity = 5; break;
    case 10: c.reset(new C(ttl, 5, std::vector<std::pair<int, int>>(v), h, q)); capacity = 5; break;
    case 11: c.reset(new C(ttl, v)); break;
    case 12: c.reset(new C(ttl, cv)); break;
    case 13: c.reset(new C(ttl, std::vector<std::pair<int, int>>(v))); break;
    case 14: c.reset(new C(ttl, v, h)); break;
    case 15: c.reset(new C(ttl, {{1, 10}, {2, 20}})); break;
    case 16: c.reset(new C(ttl, {{1, 10}, {2, 20}}, h, q)); break;
    case 17: c.reset(new C(ttl, 5, {{1, 10}, {2, 20}})); capacity = 5; break;
    case 18: c.reset(new C(ttl, 5, {{1, 10}, {2, 20}}, h, q)); capacity = 5; break;
    case 19: {  // assigned to a cache with another time to live
      C other(ttl, v);
      c.reset(new C(D(7777)));
      *c = other;
      break;
    }
    case 20: {
      C other(ttl, 5, v);
      c.reset(new C(D(7777), v));
      *c = std::move(other);
      capacity = 5;
      break;
    }
    case 21: {
      const C other(ttl, 5, v);
      c.reset(new C(other));
      capacity = 5;
      break;
    }
    case 22: {
      C other(ttl, 5, v);
      c.reset(new C(D(7777), 1));
      using std::swap;
      if (ch.flag()) swap(*c, other); else c->swap(other);
      capacity = 5;
      break;
    }
    default:  // contents assigned: the time to live stays
      c.reset(new C(ttl, 5));
      switch (ch.choose(3)) {
        case 0: *c = v; break;
        case 1: *c = {{1, 10}, {2, 20}}; break;
        default: *c = std::vector<std::pair<int, int>>(v); break;
      }
      capacity = 5;
  }
  say("way ", form, " to construct, time to live ", ttl_ns, " ns");
  if (capacity) MC_CHECK(c->capacity() == capacity, "the capacity is ", c->capacity(), ", expected ", capacity);
  if (form >= 4) MC_CHECK(c->size() == 2, "there are ", c->size(), " entries, expected 2");
  const int64_t start = vclock.now;
  const C& cc = *c;
  if (form < 4) c->insert(1, 10);
  auto lives = [&](int64_t age) {
    if (std::is_floating_point<typename D::rep>::value) return age <= ttl_ns;
    return age / tick <= ttl_ns / tick;
  };
  int64_t inserted3 = -1;
  auto at = [&](int64_t time) {
    vclock.now = start + time;
    bool all = true;
    for (int key : {1, 3}) {
      if (key == 3 && inserted3 < 0) continue;
      const bool alive = lives(key == 3 ? time - inserted3 : time);
      if (alive) all = false;
      MC_CHECK(cc.has_expired(key) == !alive, "key ", key, " at ", time, " ns: has_expired() is ", alive, ", time to live ", ttl_ns);
      MC_CHECK(cc.contains(key) == alive, "key ", key, " at ", time, " ns: contains() is ", !alive, ", time to live ", ttl_ns);
      MC_CHECK((c->find(key) != c->end()) == alive, "key ", key, " at ", time, " ns: find() disagrees, time to live ", ttl_ns);
      MC_CHECK((cc.find(key) != cc.end()) == alive, "key ", key, " at ", time, " ns: find() const disagrees, time to live ", ttl_ns);
    }
    MC_CHECK(c->all_expired() == all, "all_expired() is wrong at ", time, " ns, time to live ", ttl_ns);
  };
  at(0);
  at(ttl_ns);
  at(ttl_ns + tick - 1);
  c->insert(3, 30);
  inserted3 = ttl_ns + tick - 1;
  at(ttl_ns + tick);
  at(inserted3 + ttl_ns);
  at(inserted3 + ttl_ns + tick - 1);
  at(inserted3 + ttl_ns + tick);
  ctx.states += 1;
  ctx.transitions += 24;
  ctx.nontrivial += 1;
}
template <class D>
static void constructors(const std::string& name) {
  const char* bounds = "24 ways to construct, 6 times to live";
  search_job(name + "-from-ns", 1, constructed<D, Ns>, bounds);
  search_job(name + "-from-ms", 1, constructed<D, Ms>, bounds);
  search_job(name + "-from-s", 1, constructed<D, Sec>, bounds);
  search_job(name + "-from-min", 1, constructed<D, Min>, bounds);
  search_job(name + "-from-hours", 1, constructed<D, std::chrono::hours>, bounds);
  search_job(name + "-from-seconds-double", 1, constructed<D, std::chrono::duration<double>>, bounds);
}

// Every number of entries, each 10 ns younger than the one before, at a time
// when the first x have expired; every position asked in every way, twice.
template <class T>
static void many_ages(const std::string& name, int max_n, int all, int parts, std::vector<int> more = {}) {
  using C = typename T::Cache;
  search_job(
      name, parts,
      [=](Chooser& ch, Ctx& ctx) {
        const int i = ch.choose(max_n + int(more.size()));
        const int n = i < max_n ? i + 1 : more[size_t(i - max_n)];
        auto position = [&](int last) {
          if (n <= all) return ch.choose(last + 1);
          const int at[] = {0, 1, last / 2, last - 1, last};
          return at[ch.choose(5)];
        };
        const int x = position(n);
        ch.split();
        const int p = position(n - 1);
        const int form = ch.choose(11), offset = ch.choose(3);
        const bool reversed = ch.flag();
        Cfg g;
        g.cap[0] = ch.flag() ? n : n + 3;
        g.ttl[0] = 10 * n + 5;
        vclock.now = 1000000000;
        std::unique_ptr<C> c(T::make(g, 0));
        const C& cc = *c;
        const int64_t start = vclock.now;
        for (int j = 0; j < n; ++j) {
          c->insert(T::mk(j), T::mv(j));
          vclock.now += 10;
        }
        // Looked up in the same or in the reverse order (none has expired).
        for (int j = 0; j < n; ++j) MC_CHECK(c->contains(T::mk(reversed ? n - 1 - j : j)), "a fresh entry is not found");
        // Entry j lives until start + 10 j + ttl: at the last instant of entry x,
        // the instant before or the one after.
        vclock.now = start + 10 * x + g.ttl[0] + (offset - 1);
        auto alive = [&](int j) { return vclock.now - start - 10 * j <= g.ttl[0]; };
        auto ask = [&](int j, const char* when) {
          const bool a = alive(j);
          bool got = a;
          const auto k = T::mk(j);
          try {
            switch (form) {
              case 0: got = c->contains(k); break;
              case 1: got = cc.contains(k); break;
              case 2: got = c->find(k) != c->end(); break;
              case 3: got = cc.find(k) != cc.end(); break;
              case 4: got = false; got = T::vi(c->lookup(k)) == j; break;
              case 5: got = false; got = T::vi(cc.lookup(k)) == j; break;
              case 6: got = false; got = T::vi((*c)[k]) == j; break;
              case 7: got = !cc.has_expired(k); break;
              case 8: {
                auto it = cc.ordered_begin();
                while (T::ki((*it).first) != j) ++it;
                got = cc.is_valid(it) && !cc.has_expired(it);
                break;
              }
              case 9: {
                auto it = c->unordered_begin();
                while (T::ki((*it).first) != j) ++it;
                got = false;
                c->throw_if_invalid(it);
                got = T::vi(it.value()) == j;
                break;
              }
              default: {
                auto it = c->ordered_end();
                do --it; while (T::ki((*it).first) != j);
                got = false;
                got = T::vi(it.entry().value()) == j;
                break;
              }
            }
          } catch (LRU::Error::KeyNotFound&) {
          } catch (LRU::Error::KeyExpired&) {
          }
          MC_CHECK(got == a, "key ", j, " of ", n, " of age ", vclock.now - start - 10 * j, " ns, time to live ", g.ttl[0],
                   " ns: accessible is ", got, " ", when);
        };
        MC_CHECK(c->all_expired() == !alive(n - 1), "all_expired() with ", n, " entries, the first ", x, " expired");
        ask(p, "at first");
        ask(p, "again");
        ask(n - 1 - p, "another");
        ask(0, "the oldest");
        ask(n - 1, "the youngest");
        MC_CHECK(int(c->size()) == n, "entries have gone");
        c->insert(T::mk(p), T::mv(p));
        MC_CHECK(c->contains(T::mk(p)), "a key is not accessible after inserting it again");
        for (int j = 0; j < n; ++j)
          if (j != p) MC_CHECK(cc.has_expired(T::mk(j)) == !alive(j), "key ", j, " after inserting ", p, " again");
        vclock.now += g.ttl[0];
        MC_CHECK(c->contains(T::mk(p)), "inserting again does not give a full time to live");
        vclock.now += 1;
        MC_CHECK(c->has_expired(T::mk(p)) && !c->contains(T::mk(p)) && c->all_expired(), "all have expired at the end");
        ctx.states += 1;
        ctx.transitions += 12;
        if (ctx.evaluations % 9973 == 0) ctx.sample(str(n, " entries, ", x, " expired, form ", form, " at ", p));
      },
      str("every number of entries up to ", max_n, more.empty() ? "" : " and some more", ", every number of expired ones, 11 ways of asking at every position"));
}

void mc::register_jobs(bool thorough) {
  const bool t = thorough;
#if VARIANT == 9
  search_job("limits-ns", 1, limits<Ns>);
  search_job("limits-us", 1, limits<Us>);
  search_job("limits-ms", 1, limits<Ms>);
  search_job("limits-s", 1, limits<Sec>);
  search_job("limits-h", 1, limits<std::chrono::hours>);
  search_job("limits-ms-double", 1, limits<MsDouble>);
  search_job("limits-int-ns", 1, limits<std::chrono::duration<int, std::nano>>);
  search_job("limits-int-us", 1, limits<std::chrono::duration<int, std::micro>>);
  search_job("limits-int-ms", 1, limits<std::chrono::duration<int, std::milli>>);
  search_job("limits-int-s", 1, limits<std::chrono::duration<int>>);
  search_job("limits-short-s", 1, limits<std::chrono::duration<short>>);
#elif VARIANT == 0
  ages<TimedIntTraits<Ms>>("ms2", expired_ms, 1000000, 2, t, true);
  ages<TimedIntTraits<Ms>>("ms0", expired_ms, 1000000, 0, t, false);
#elif VARIANT == 1
  ages<TimedIntTraits<Ns>>("ns10", expired_ns, 1, 10, t, true);
  ages<TimedIntTraits<Ns>>("ns0", expired_ns, 1, 0, t, false);
#elif VARIANT == 2
  ages<TimedIntTraits<Sec>>("s1", expired_s, 1000000000, 1, t, false);
  ages<TimedIntTraits<Sec>>("s3600", expired_s, 1000000000, 3600, t, false);
#elif VARIANT == 3
  ages<TimedIntTraits<Min>>("min5", expired_min, 60000000000LL, 5, t, false);
  ages<TimedIntTraits<Us>>("us7", expired_us, 1000, 7, t, false);
#elif VARIANT == 4
  ages<TimedIntTraits<MsDouble>>("msd3", expired_ms_double, 1000000, 3, t, false);
  search_job("far-ns", 1, far<Ns>);
  search_job("far-us", 1, far<Us>);
  search_job("far-ms", 1, far<Ms>);
  search_job("far-s", 1, far<Sec>);
  search_job("far-min", 1, far<Min>);
  search_job("far-h", 1, far<std::chrono::hours>);
  search_job("far-quarter-s", 1, far<std::chrono::duration<int64_t, std::ratio<1, 4>>>);
#elif VARIANT == 6
  constructors<Ns>("ns");
  constructors<Ms>("ms");
  constructors<Sec>("s");
#elif VARIANT == 7
  constructors<Min>("min");
  constructors<MsDouble>("ms-double");
  constructors<std::chrono::duration<int, std::ratio<1, 4>>>("quarter-s");
#elif VARIANT == 8
  many_ages<TimedIntTraits<Ns>>("sizes", thorough ? 140 : 66, thorough ? 40 : 12, 8, {127, 128, 129, 257});
  many_ages<TimedHashTraits<Ns, PairHash>>("sizes-colliding", thorough ? 66 : 20, thorough ? 20 : 6, 8);
#else
  ages<TimedStrTraits<Ms>>("str-ms", expired_ms, 1000000, 2, t, false);
  search_job("far-ms", 1, far<Ms>);
#endif
}
