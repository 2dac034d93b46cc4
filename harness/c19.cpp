// C19: no history accesses freed memory, leaks, or mishandles lifetimes.
// VARIANTS: 5
#include "traits.hpp"
using namespace mc;

// ------------------------------------------------------- modelled histories
static constexpr unsigned SEE = O_SIZE | O_UNORD | O_BACK | O_HOLD | O_VALUES;

template <class T>
static void histories(bool thorough) {
  Cfg g;
  g.lists = some_lists();
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 2;
  g.observe = SEE;
  g.nkeys = 3;
  g.age_cap = 11;
  std::vector<Op> time = Ops(3, 1).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}).with(ADVANCE, {11});
  std::vector<Op> held = Ops(3, 1).k({HOLD});
  for (int f = 0; f < 4; ++f) held.push_back({ERASE_HELD, 0, f, 0});
  for (int f = 0; f < 3; ++f) held.push_back({W_HELD, 0, f, 1});
  for (auto& o : everything(3)) {
    if (o.kind >= W_LOOKUP && o.kind <= EMPLACE_PW) o.b = 0;
    if (!(o.kind == INSERT && o.b == 1)) g.ops.push_back(o);
  }
  for (auto& l : g.lists)
    for (auto& p : l) p.second = 0;
  add(g.ops, held);
  g.ops.push_back({CONTAINS_C, 0, 3, 0});
  if (T::timed) add(g.ops, time);
  g.nkeys = 4;
  bfs_job<T>("bfs", g, T::timed ? (thorough ? 1 : 0) : thorough && !sanitized ? 2 : 1, 30, 16, 2000000);
  g.nkeys = 3;
  // The core of it, in depth.
  g.ops = Ops(3, 1).k({CONTAINS, LOOKUP_C, INSERT, EMPLACE, ERASE, ERASE_O, ERASE_SELF}).plain({CLEAR})
              .with(SHRINK, {1}).with(CAPACITY, {0, 1, 3});
  add(g.ops, Ops(1, 1).between({COPY_CTOR, MOVE_CTOR, SWAP_MEMBER}, true));
  if (T::timed) add(g.ops, Ops(1, 1).plain({CLEAR_EXPIRED}).with(ADVANCE, {11}));
  tree_job<T>("tree", g, (sanitized ? 3 : 4) + (thorough && !T::timed ? 1 : 0), 16);
  // Two caches.
  g.slots = 2;
  g.nkeys = 2;
  g.ops = everything(2, 2);
  add(g.ops, Ops(1, 1, 2).between({MOVE_ASSIGN, COPY_ASSIGN_NC}).plain({REMAKE}));
  if (T::timed) g.ops.push_back({ADVANCE, 0, 11, 0});
  for (auto& o : g.ops)
    if (o.kind >= W_LOOKUP && o.kind <= EMPLACE_PW) o.b = 0;
  if (T::timed && !thorough) {
    std::vector<Op> setup = Ops(2, 1, 2).k({INSERT}), then = Ops(2, 1, 2).k({CONTAINS, INSERT, ERASE}).plain({REMAKE});
    setup.push_back({ADVANCE, 0, 11, 0});
    staged_job<T>("two", g, setup, {g.ops, then}, 16);
  } else {
    bfs_job<T>("two", g, thorough && !T::timed ? 1 : 0, 30, 16, 2000000);
  }
  // Monitored and with callbacks.
  g.stats = g.callbacks = true;
  g.cap[0] = g.cap[1] = 1;
  g.observe = O_SIZE | O_UNORD | O_STATS;
  g.ops = Ops(2, 1, 2).k({CONTAINS, LOOKUP_C, INSERT, ERASE})
              .plain({STOP, MON_NEW, CB_HIT, CB_MISS, CB_ACC, CB_CLR_HIT, CB_CLR_ALL, ST_RESET_ALL, ST_UNMON_ALL, REMAKE})
              .with(MON_KEY, {1}).with(MON_KEYS2, {0}).with(ST_MON, {1}).with(ST_UNMON, {0})
              .between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, MOVE_CTOR, SWAP_MEMBER, MON_FROM});
  tree_job<T>("monitored", g, 3 + (thorough && !sanitized && !T::timed ? 1 : 0), 16);
}

// -------------------------------------------- any objects in any order of life
// Caches, statistics, iterators, results, callbacks and wrapped functions are
// created, used, passed around and destroyed in any order. What counts: no
// error is reported by the sanitizers or the tracked objects, and what is alive
// is what the caches and statistics hold.
using TCaptured = Tracked<2>;
using TResult = Tracked<3>;
using TArg = Tracked<4>;

static std::vector<std::string> zoo_names;
template <class T>
struct Zoo {
  using C = typename T::Cache;
  using Stats = LRU::Statistics<TKey>;
  using UIt = typename C::UnorderedIterator;
  using UCIt = typename C::UnorderedConstIterator;
  using OIt = typename C::OrderedIterator;
  using OCIt = typename C::OrderedConstIterator;
  struct Iters {
    UIt u;
    UCIt uc;
    OIt o;
    OCIt oc;
  };
  using Result = decltype(std::declval<C&>().insert(std::declval<const TKey&>(), std::declval<const TValue&>()));

  Cfg g;
  std::unique_ptr<C> c[2];
  std::shared_ptr<Stats> taken;
  // Iterators: two sets of all flavours; the slot and entry they point to.
  struct Held {
    std::unique_ptr<Iters> it;
    int slot = -1;
    const TValue* value = nullptr;  // null: not to be used any more
  } held[2];
  std::unique_ptr<Result> result;
  std::function<TResult(const TArg&)> wrapped[2];

  Zoo() {
    g.cap[0] = g.cap[1] = 2;
    g.ttl[0] = g.ttl[1] = 10;
    vclock.now = 1000000000;
  }
  static TCaptured captured() { return TCaptured(TCaptured::Make(), 5); }

  void replaced(int slot) {
    for (auto& h : held)
      if (h.slot == slot) h.value = nullptr;
  }
  bool both() const { return c[0] && c[1]; }

  struct Action {
    const char* name;
    std::function<bool(Zoo&)> enabled;
    std::function<void(Zoo&)> run;
  };
  static std::vector<Action> actions(bool all) {
    std::vector<Action> v;
    auto add = [&](const char* n, auto e, auto r) { v.push_back({n, e, r}); };
    for (int s = 0; s < 2; ++s) {
      const int t = 1 - s;
      auto has = [s](Zoo& z) { return bool(z.c[s]); };
      auto two = [](Zoo& z) { return z.both(); };
      add("create", [s](Zoo& z) { return !z.c[s]; }, [s](Zoo& z) { z.c[s].reset(T::make(z.g, s)); });
      add("destroy", has, [s](Zoo& z) {
        z.replaced(s);
        z.c[s].reset();
      });
      for (int k = 0; k < (s == 0 ? 3 : 2); ++k)
        add("insert", has, [s, k](Zoo& z) { z.c[s]->insert(T::mk(k), T::mv(k)); });
      add("emplace and keep the result", has, [s](Zoo& z) {
        z.result.reset(new Result(z.c[s]->emplace(T::mk(1), T::mv(2))));
      });
      add("contains", has, [s](Zoo& z) { z.c[s]->contains(T::mk(0)); });
      add("lookup", has, [s](Zoo& z) {
        try {
          (void)z.c[s]->lookup(T::mk(1)).get();
        } catch (const LRU::Error::KeyNotFound&) {
        } catch (const LRU::Error::KeyExpired&) {
        }
      });
      add("erase", has, [s](Zoo& z) { z.c[s]->erase(T::mk(0)); });
      add("clear", has, [s](Zoo& z) {
        z.replaced(s);
        z.c[s]->clear();
      });
      add("shrink", has, [s](Zoo& z) { z.c[s]->shrink(1); });
      if (all || s == 0) add("capacity", has, [s](Zoo& z) { z.c[s]->capacity(s == 0 ? 1 : 3); });
      // From here to the other one.
      add("copy construction", has, [s, t](Zoo& z) {
        z.replaced(t);
        z.c[t].reset();
        z.c[t].reset(new C(*z.c[s]));
      });
      add("move construction", has, [s, t](Zoo& z) {
        z.replaced(s);
        z.replaced(t);
        z.c[t].reset();
        z.c[t].reset(new C(std::move(*z.c[s])));
      });
      add("copy assignment", two, [s, t](Zoo& z) {
        z.replaced(t);
        *z.c[t] = *z.c[s];
      });
      add("move assignment", two, [s, t](Zoo& z) {
        z.replaced(s);
        z.replaced(t);
        *z.c[t] = std::move(*z.c[s]);
      });
      add("assignment to itself", has, [s](Zoo& z) {
        z.replaced(s);
        C& c = *z.c[s];
        c = *z.c[s];
      });
      if (s == 0) {
        add("swap", two, [](Zoo& z) {
          z.replaced(0);
          z.replaced(1);
          z.c[0]->swap(*z.c[1]);
        });
        add("swap with itself", has, [](Zoo& z) {
          z.replaced(0);
          C& c = *z.c[0];
          using std::swap;
          swap(c, *z.c[0]);
        });
        add("compare", two, [](Zoo& z) { (void)(*z.c[0] == *z.c[1]); });
        add("range construction from the other", has, [](Zoo& z) {
          std::vector<std::pair<TKey, TValue>> l;
          for (auto it = z.c[0]->begin(); it != z.c[0]->end(); ++it) l.emplace_back(it->first, it->second);
          z.replaced(1);
          z.c[1].reset(T::make(z.g, 1));
          *z.c[1] = std::move(l);
        });
      }
      // Statistics.
      add("monitor", has, [s](Zoo& z) { z.c[s]->monitor(T::mk(1)); });
      add("stop monitoring", has, [s](Zoo& z) { z.c[s]->stop_monitoring(); });
      add("take statistics", [s](Zoo& z) { return z.c[s] && z.c[s]->is_monitoring(); },
          [s](Zoo& z) { z.taken = z.c[s]->shared_stats(); });
      add("share statistics", [s](Zoo& z) { return z.c[s] && z.taken; }, [s](Zoo& z) { z.c[s]->monitor(z.taken); });
      // Callbacks.
      add("hit callback", has, [s](Zoo& z) {
        z.c[s]->hit_callback([x = captured()](const TKey& k, const TValue& v) { (void)(x.get() + k.get() + v.get()); });
        z.c[s]->access_callback([x = captured()](const TKey& k, bool) { (void)(x.get() + k.get()); });
      });
      if (all || s == 1)
        add("miss callback", has, [s](Zoo& z) {
          auto f = [x = captured()](const TKey& k) { (void)(x.get() + k.get()); };
          z.c[s]->miss_callback(f);
        });
      add("clear callbacks", has, [s](Zoo& z) { z.c[s]->clear_all_callbacks(); });
      // Iterators.
      add("hold the first", [s](Zoo& z) { return z.c[s] && !z.c[s]->is_empty(); }, [s](Zoo& z) {
        auto u = z.c[s]->begin();
        z.held[0].it.reset(new Iters{u, UCIt(u), OIt(u), OCIt(u)});
        z.held[0].slot = s;
        z.held[0].value = &u->second;
      });
      add("hold the least recently used", [s](Zoo& z) { return z.c[s] && !z.c[s]->is_empty(); }, [s](Zoo& z) {
        auto o = z.c[s]->ordered_begin();
        auto u = z.c[s]->begin();
        while (&u->second != &o->second) ++u;
        z.held[0].it.reset(new Iters{u, UCIt(u), z.c[s]->ordered_begin(), OCIt(z.c[s]->ordered_begin())});
        z.held[0].slot = s;
        z.held[0].value = &u->second;
      });
      if (all)
        add("hold the end", has, [s](Zoo& z) {
          z.held[1].it.reset(new Iters{z.c[s]->end(), UCIt(z.c[s]->end()), z.c[s]->ordered_end(), z.c[s]->ordered_end()});
          z.held[1].slot = -1;
          z.held[1].value = nullptr;
        });
      if (T::timed) {
        add("clear expired", has, [s](Zoo& z) { clear_expired(*z.c[s], std::integral_constant<bool, T::timed>()); });
      }
    }
    if (T::timed) add("advance the clock", [](Zoo&) { return true; }, [](Zoo&) { vclock.now += 6; });
    auto holds = [](Zoo& z) { return bool(z.held[0].it); };
    auto valid = [](Zoo& z) { return z.held[0].value != nullptr; };
    add("drop held", holds, [](Zoo& z) {
      z.held[0].it.reset();
      z.held[0].slot = -1;
      z.held[0].value = nullptr;
    });
    // Iterators that lost their entry can still be assigned to and destroyed.
    add("assign held", [](Zoo& z) { return z.held[0].value && z.held[1].it; }, [](Zoo& z) {
      *z.held[1].it = *z.held[0].it;
      z.held[1].slot = z.held[0].slot;
      z.held[1].value = z.held[0].value;
    });
    add("copy held", valid, [](Zoo& z) {
      z.held[1].it.reset(new Iters(*z.held[0].it));
      z.held[1].slot = z.held[0].slot;
      z.held[1].value = z.held[0].value;
    });
    add("swap held", [](Zoo& z) { return z.held[0].value && z.held[1].value && z.held[0].slot == z.held[1].slot; }, [](Zoo& z) {
      using std::swap;
      swap(z.held[0].it->u, z.held[1].it->u);
      swap(z.held[0].it->uc, z.held[1].it->uc);
      swap(z.held[0].it->o, z.held[1].it->o);
      swap(z.held[0].it->oc, z.held[1].it->oc);
      swap(z.held[0].value, z.held[1].value);
    });
    for (int f = 0; f < (all ? 4 : 2); ++f)
      add("erase through held", valid, [f](Zoo& z) {
        C& c = *z.c[z.held[0].slot];
        Iters& i = *z.held[0].it;
        switch (f) {
          case 0: c.erase(i.u); break;
          case 1: c.erase(i.o); break;
          case 2: c.erase(i.uc); break;
          default: c.erase(i.oc); break;
        }
      });
    add("next of held", valid, [](Zoo& z) {
      Iters& i = *z.held[0].it;
      C& c = *z.c[z.held[0].slot];
      ++i.u;
      i.uc++;
      auto o = i.o++;
      ++i.oc;
      (void)o;
      if (i.o != c.ordered_end()) (void)i.o->second.get();
      z.held[0].value = nullptr;  // (may be different ones now)
      z.held[0].it.reset();
    });
    // Wrapped functions.
    add("wrap", [](Zoo&) { return true; }, [](Zoo& z) {
      z.wrapped[0] = LRU::wrap([x = captured()](const TArg& a) { return TResult(TResult::Make(), a.get() + x.get()); }, 2);
    });
    for (int k = 0; k < 2; ++k)
      add("call", [](Zoo& z) { return bool(z.wrapped[0]); }, [k](Zoo& z) {
        TArg a(TArg::Make(), k);
        MC_CHECK(z.wrapped[0](a).get() == 5 + k, "a wrapped function returns the wrong result");
      });
    add("copy the wrapper", [](Zoo& z) { return bool(z.wrapped[0]); }, [](Zoo& z) { z.wrapped[1] = z.wrapped[0]; });
    add("exchange the wrappers", [](Zoo& z) { return bool(z.wrapped[1]); },
        [](Zoo& z) { std::swap(z.wrapped[0], z.wrapped[1]); });
    add("destroy the wrapper", [](Zoo& z) { return bool(z.wrapped[0]); }, [](Zoo& z) { z.wrapped[0] = nullptr; });
    // Statistics on their own.
    auto has_taken = [](Zoo& z) { return bool(z.taken); };
    add("use taken statistics", has_taken, [](Zoo& z) {
      z.taken->monitor(T::mk(0));
      (void)z.taken->hits_for(T::mk(0));
    });
    add("edit taken statistics", has_taken, [](Zoo& z) {
      if (z.taken->is_monitoring(T::mk(1))) z.taken->unmonitor(T::mk(1));
      z.taken->reset_all();
    });
    add("drop taken statistics", has_taken, [](Zoo& z) { z.taken.reset(); });
    return v;
  }
  static void clear_expired(C&, std::false_type) {}
  static void clear_expired(C& c, std::true_type) { c.clear_expired(); }

  // Touches everything that may be used, and counts what is alive.
  void check() {
    size_t n = 0, keys = 0;
    std::set<const Stats*> stats;
    if (taken) stats.insert(taken.get());
    for (auto& h : held)
      if (h.value) {  // has its entry gone?
        bool found = false;
        if (c[h.slot])
          for (auto it = c[h.slot]->begin(); it != c[h.slot]->end(); ++it) found = found || &it->second == h.value;
        if (!found) h.value = nullptr;
      }
    for (auto& p : c) {
      if (!p) continue;
      const C& cc = *p;
      size_t i = 0;
      for (auto it = cc.begin(); it != cc.end(); ++it, ++i) (void)((*it).first.get() + (*it).second.get());
      for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it, ++i) (void)(it->first.get() + it->second.get());
      MC_CHECK(i == 2 * cc.size(), "iteration gives ", i, " entries both ways, size() is ", cc.size());
      n += cc.size();
      if (cc.is_monitoring()) stats.insert(&cc.stats());
    }
    for (auto* s : stats) {
      keys += s->number_of_monitored_keys();
      (void)(s->total_accesses() + s->is_monitoring(T::mk(1)));
    }
    for (auto& h : held) {
      if (!h.value) continue;
      MC_CHECK(&h.it->u->second == h.value && &h.it->uc->second == h.value && &h.it->o->second == h.value &&
                   &h.it->oc->second == h.value,
               "a held iterator does not refer to its entry");
      (void)(h.it->u->first.get() + h.it->o->first.get() + h.it->oc->second.get() + h.it->uc->first.get());
    }
    MC_CHECK(TValue::live == long(n), TValue::live, " values are alive with ", n, " entries");
    MC_CHECK(TKey::live == long(n + keys), TKey::live, " keys are alive with ", n, " entries and ", keys, " monitored keys");
    (void)(T::timed);
  }
};

template <class T>
static void zoo(Chooser& ch, Ctx& ctx, int depth, bool all) {
  static const auto actions = Zoo<T>::actions(all);
  static const auto setups = [] {
    // By name and number among those of that name.
    return std::vector<std::vector<const char*>>{
        {"create", "insert", "insert+1", "create", "insert+3"},
        {"create", "insert", "insert+1", "contains", "hold the first", "monitor", "take statistics", "hit callback"},
        {"create", "insert+2", "insert+1", "insert", "hold the least recently used", "copy held", "wrap", "call"},
        {},
        {"create", "insert", "copy construction", "monitor", "share statistics", "hit callback"}};
  }();
  TKey::live = TValue::live = TCaptured::live = TResult::live = TArg::live = 0;
  {
    Zoo<T> z;
    for (auto name : setups[size_t(ch.choose(int(setups.size())))]) {
      std::string s = name;
      size_t skip = 0;
      if (s.find('+') != std::string::npos) {
        skip = size_t(std::stoi(s.substr(s.find('+') + 1)));
        s = s.substr(0, s.find('+'));
      }
      for (auto& a : actions)
        if (s == a.name && a.enabled(z) && skip-- == 0) {
          a.run(z);
          break;
        }
    }
    std::string done;
    for (int i = 0; i < depth; ++i) {
      int n = ch.choose(int(actions.size()));
      if (i == 1) ch.split();
      auto& a = actions[size_t(n)];
      if (!a.enabled(z)) break;
      if (verbose) say("  ", a.name, " (", n, ")");
      done += str(done.empty() ? "" : "; ", a.name);
      a.run(z);
      ++ctx.transitions;
      z.check();
    }
    if (ctx.evaluations % 30011 == 1) ctx.sample(done);
    // The parts of the zoo are destroyed in either order.
    if (ch.flag()) {
      z.c[0].reset();
      z.taken.reset();
      z.held[0].value = z.held[1].value = nullptr;
      z.wrapped[0] = nullptr;
      z.c[1].reset();
    }
  }
  ++ctx.nontrivial;
  ++ctx.states;
  MC_CHECK(TKey::live == 0 && TValue::live == 0 && TCaptured::live == 0 && TResult::live == 0 && TArg::live == 0,
           "objects remain: ", TKey::live, " keys, ", TValue::live, " values, ", TCaptured::live,
           " captured by callbacks and functions, ", TResult::live, " results, ", TArg::live, " arguments");
}
template <class T>
static void zoo_job(bool thorough) {
  const int depth = sanitized ? 3 : 3 + thorough;
  search_job("zoo", 16, [=](Chooser& ch, Ctx& ctx) { zoo<T>(ch, ctx, depth, false); },
             str("5 initial situations, all sequences of ", depth, " actions on 2 caches, statistics, iterators, "
                 "results, callbacks and wrapped functions; two orders of destruction"));
}
// Long runs: what a cache holds on to does not grow.
template <class T>
static void churn(Chooser& ch, Ctx& ctx) {
  using C = typename T::Cache;
  Cfg g;
  g.cap[0] = 1 + ch.choose(4);
  g.ttl[0] = 10;
  const int how = ch.choose(4);
  const int span = 1 + ch.choose(8);
  ch.split();
  std::unique_ptr<C> c(T::make(g, 0));
  for (int i = 0; i < (ctx.thorough ? 20000 : 2000); ++i) {
    int k = (i * 7) % span;
    vclock.now += 1;
    switch (how) {
      case 0: c->insert(T::mk(k), T::mv(0)); break;
      case 1: c->emplace(T::mk(k), T::mv(0)); if (i % 3 == 0) c->erase(T::mk((k + 1) % span)); break;
      case 2: {
        c->insert(T::mk(k), T::mv(1));
        C d(*c);
        *c = std::move(d);
        break;
      }
      default: {
        c->insert(T::mk(k), T::mv(1));
        C d(std::move(*c));
        d.swap(*c);
        if (i % 5 == 0) c->clear();
        break;
      }
    }
    if (i % 256 == 0) beat();
    MC_CHECK(TValue::live == long(c->size()) && TKey::live == long(c->size()) && long(c->size()) <= g.cap[0],
             TKey::live, " keys and ", TValue::live, " values are alive, size() is ", c->size());
  }
  c.reset();
  MC_CHECK(TValue::live == 0 && TKey::live == 0, "objects remain");
  ctx.states += 1;
  ++ctx.nontrivial;
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  histories<TrackedTraits>(thorough);
#elif VARIANT == 1
  histories<TimedTrackedTraits<Ns>>(thorough);
#elif VARIANT == 2
  zoo_job<TrackedTraits>(thorough);
#elif VARIANT == 3
  zoo_job<TimedTrackedTraits<Ns>>(thorough);
#else
  search_job("churn", 8, churn<TrackedTraits>, "4 capacities, 4 patterns, up to 8 keys, 2000 (thorough: 20000) rounds");
  search_job("churn-timed", 8, churn<TimedTrackedTraits<Ns>>, "4 capacities, 4 patterns, up to 8 keys, 2000 (thorough: 20000) rounds");
#endif
}
