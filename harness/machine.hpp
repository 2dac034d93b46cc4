// Drives real caches through the operations of the model (model.hpp), compares
// outcomes and observations, and enumerates histories:
//   tree():  all operation sequences up to a depth, each executed from scratch
//            on the real code, the last step fully compared;
//   bfs():   explicit-state search over the model's states (optionally refined
//            by the last operations), with every transition executed on the
//            real code by replaying a shortest history.
// Only the public interface of the library is used.
#pragma once
#include "model.hpp"

#include <lru/lru.hpp>

namespace mc {

enum Observe : unsigned {
  O_SIZE = 1, O_ORDER = 2, O_BACK = 4, O_UNORD = 8, O_FRONT = 16, O_VALID = 32,
  O_STATS = 64, O_EVENTS = 128, O_HOLD = 256, O_EQ = 512, O_FUNCS = 1024,
  O_VALUES = 2048, O_ERRORS = 4096, O_OUTCOME = 8192, O_CBS = 16384,
  O_RESULT = 32768,  // the result of the last operation
  O_STATERR = 1 << 19,  // errors of statistics
  P_LOOKUP = 1 << 16,  // finally look up every key
  P_DRAIN = 1 << 17,   // finally evict everything one by one, then refill
  P_EXPIRE = 1 << 18,  // finally let time pass and check expiry
};

constexpr unsigned O_BASIC = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT;

inline Vec<Event, 256> g_events;
inline int g_callbacks_alive = 0;

// ------------------------------------------------------------------- traits
// How model keys and values map to real ones. Base class with the defaults.
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>>
struct TraitsBase {
  using Key = K;
  using Value = V;
  using Hash = H;
  using Eq = E;
  static constexpr bool timed = false;
  using Cache = LRU::Cache<K, V, H, E>;
  static Hash hash(int) { return Hash(); }
  static Eq eq(int) { return Eq(); }
  static int funcs(const Cache&) { return -1; }
  static int canon(const Cache&, int k) { return k; }
  static Cache* make(const Cfg& g, int slot) {
    return make_(g, slot, std::is_default_constructible<H>());
  }
  static Cache* make_(const Cfg& g, int slot, std::true_type) {
    return new Cache(size_t(g.cap[slot]));
  }
  static void before_op() {}
  static void after_history() {}
  static void check_live(size_t, bool) {}
};

template <class K,
          class V,
          class D,
          class H = std::hash<K>,
          class E = std::equal_to<K>>
struct TimedTraitsBase {
  using Key = K;
  using Value = V;
  using Hash = H;
  using Eq = E;
  using Duration = D;
  static constexpr bool timed = true;
  using Cache = LRU::TimedCache<K, V, D, H, E>;
  static Hash hash(int) { return Hash(); }
  static Eq eq(int) { return Eq(); }
  static int funcs(const Cache&) { return -1; }
  static int canon(const Cache&, int k) { return k; }
  static D ttl(int64_t t) { return D(t); }
  static Cache* make(const Cfg& g, int slot) {
    return new Cache(D(g.ttl[slot]), size_t(g.cap[slot]));
  }
  static void before_op() {}
  static void check_live(size_t, bool) {}
};

// Expiry predicates of the model, one per duration type.
inline bool expired_ns(int64_t age, int64_t ttl) { return age > ttl; }
inline bool expired_ms_double(int64_t age, int64_t ttl) {
  return double(age) / 1e6 > double(ttl);
}
inline bool expired_ms(int64_t age, int64_t ttl) { return age / 1000000 > ttl; }
inline bool expired_s(int64_t age, int64_t ttl) {
  return age / 1000000000 > ttl;
}
inline bool expired_us(int64_t age, int64_t ttl) { return age / 1000 > ttl; }
inline bool expired_min(int64_t age, int64_t ttl) {
  return age / 60000000000LL > ttl;
}

struct IntTraits : TraitsBase<int, int> {
  static int mk(int i) { return i; }
  static int ki(int k) { return k; }
  static int mv(int i) { return i; }
  static int vi(int v) { return v; }
};

template <class D>
struct TimedIntTraits : TimedTraitsBase<int, int, D> {
  static int mk(int i) { return i; }
  static int ki(int k) { return k; }
  static int mv(int i) { return i; }
  static int vi(int v) { return v; }
};

// ---------------------------------------------------------------------- Sut
template <class T>
struct Sut {
  using C = typename T::Cache;
  using Key = typename T::Key;
  using Value = typename T::Value;
  using Stats = LRU::Statistics<Key>;
  using UIt = typename C::UnorderedIterator;
  using UCIt = typename C::UnorderedConstIterator;
  using OIt = typename C::OrderedIterator;
  using OCIt = typename C::OrderedConstIterator;
  using Pair = std::pair<Key, Value>;

  const Cfg& g;
  std::unique_ptr<C> c[2];
  std::vector<std::shared_ptr<Stats>> shared;
  int next_cb = 0;
  struct Held {
    UIt u;
    UCIt uc;
    OIt o;
    OCIt oc;
    Value* v;
    Held(UIt u_, UCIt uc_, OIt o_, OCIt oc_, Value* v_)
    : u(u_), uc(uc_), o(o_), oc(oc_), v(v_) {
    }
  };
  std::unique_ptr<Held> held;

  explicit Sut(const Cfg& g_, int reserved = 0) : g(g_) {
    vclock.now = 1000000000;
    for (int s = 0; s < g.slots; ++s) {
      c[s].reset(T::make(g, s));
      if (g.stats) c[s]->monitor(T::mk(0));
      if (g.callbacks)
        for (int t = 0; t < 3; ++t) callback(*c[s], t);
    }
    if (g.slots == 1) next_cb = g.callbacks ? 6 : 0;
    for (int i = 0; i < reserved; ++i) shared.push_back(std::make_shared<Stats>());
  }

  struct CountAlive {
    CountAlive() { ++g_callbacks_alive; }
    CountAlive(const CountAlive&) { ++g_callbacks_alive; }
    ~CountAlive() { --g_callbacks_alive; }
  };

  // Registers a callback, in one of several forms.
  template <class Std, class F, class Register>
  static void in_some_form(int form, F f, Register reg) {
    switch (form % 4) {
      case 0: reg(std::move(f)); break;
      case 1: {
        const F g_(f);
        reg(g_);
        break;
      }
      case 2: {
        Std s(f);
        reg(s);
        break;
      }
      default: reg(Std(f)); break;
    }
  }
  void callback(C& cache, int type) {
    int8_t id = int8_t(next_cb++);
    if (type == 0) {
      in_some_form<std::function<void(const Key&, const Value&)>>(
          id, [id](const Key& k, const Value& v) {
            record({0, id, 0, int16_t(T::ki(k)), int16_t(T::vi(v))});
          },
          [&](auto&& f) { cache.hit_callback(std::forward<decltype(f)>(f)); });
    } else if (type == 1) {
      in_some_form<std::function<void(const Key&)>>(
          id, [id](const Key& k) {
            record({1, id, 0, int16_t(T::ki(k)), 0});
          },
          [&](auto&& f) { cache.miss_callback(std::forward<decltype(f)>(f)); });
    } else {
      in_some_form<std::function<void(const Key&, bool)>>(
          id, [id](const Key& k, bool hit) {
            record({2, id, 0, int16_t(T::ki(k)), int16_t(hit)});
          },
          [&](auto&& f) { cache.access_callback(std::forward<decltype(f)>(f)); });
    }
  }
  static void record(const Event& e) {
    if (g_events.n < 256) g_events.push(e);
  }

  // Which key of the model it is.
  static int id(const C& cache, const Key& k) { return T::canon(cache, T::ki(k)); }

  UIt scan_u(C& cache, int k) {
    int steps = 0;
    k = T::canon(cache, k);
    for (auto it = cache.unordered_begin(); it != cache.unordered_end(); ++it) {
      if (id(cache, it->first) == k) return it;
      if (++steps > 10000) break;
    }
    fail("key ", k, " is not found by unordered iteration");
  }
  OIt scan_o(C& cache, int k) {
    int steps = 0;
    k = T::canon(cache, k);
    for (auto it = cache.ordered_begin(); it != cache.ordered_end(); ++it) {
      if (id(cache, it->first) == k) return it;
      if (++steps > 10000) break;
    }
    fail("key ", k, " is not found by ordered iteration");
  }

  template <class R>
  Outcome inserted(C& cache, R&& r, bool log) {
    if (!log) return {};
    Outcome o{r.was_inserted() ? 1 : 0, -1, -1};
    auto it = r.iterator();
    if (bool(r) != r.was_inserted())
      fail("InsertionResult: conversion to bool differs from was_inserted()");
    if (it != cache.end()) {
      o.x = id(cache, it->first);
      o.y = T::vi(it->second);
      auto u = scan_u(cache, o.x);
      if (u != it) fail("the iterator returned by an insertion is not that of the entry");
    }
    return o;
  }

  std::vector<Pair> list(int i) {
    std::vector<Pair> v;
    for (auto& p : g.lists[i]) v.emplace_back(T::mk(p.first), T::mv(p.second));
    return v;
  }

  template <class F>
  auto with_il(const std::vector<Pair>& v, F f) {
    switch (v.size()) {
      case 0: return f(std::initializer_list<Pair>{});
      case 1: return f({v[0]});
      case 2: return f({v[0], v[1]});
      case 3: return f({v[0], v[1], v[2]});
      case 4: return f({v[0], v[1], v[2], v[3]});
      default: fail("harness error: list too long");
    }
  }

  void unchanged(const Key& k, int a, const char* what) {
    if (T::ki(k) != a) fail(what, ": the key passed as an lvalue was modified");
  }
  void unchanged_v(const Value& v, int b, const char* what) {
    if (T::vi(v) != b)
      fail(what, ": the value passed as an lvalue was modified");
  }

  Outcome apply(const Op& o, bool log) {
    try {
      return apply_(o, log);
    } catch (const LRU::Error::KeyNotFound&) {
      return {E_NOTFOUND};
    } catch (const LRU::Error::KeyExpired&) {
      return {E_EXPIRED};
    } catch (const LRU::Error::InvalidIterator&) {
      return {E_INVALID};
    } catch (const LRU::Error::InvalidIteratorConversion&) {
      return {E_CONVERSION};
    } catch (const LRU::Error::EmptyCache&) {
      return {E_EMPTY};
    } catch (const LRU::Error::UnmonitoredKey&) {
      return {E_UNMONITORED};
    } catch (const LRU::Error::NotMonitoring&) {
      return {E_NOTMONITORING};
    } catch (const std::exception& e) {
      say("  unexpected exception: ", e.what());
      return {E_OTHER};
    }
  }

  Outcome apply_(const Op& o, bool log) {
    C& cache = *c[o.slot];
    const C& const_cache = cache;
    const int k = int(o.a);
    switch (o.kind) {
      case CONTAINS: return {cache.contains(T::mk(k)) ? 1 : 0};
      case CONTAINS_C: return {const_cache.contains(T::mk(k)) ? 1 : 0};
      case FIND: {
        auto it = cache.find(T::mk(k));
        if (it == cache.end()) return {0};
        if (!log) return {1};
        return {1, id(cache, it->first), T::vi(it->second)};
      }
      case FIND_C: {
        auto it = const_cache.find(T::mk(k));
        if (it == const_cache.end()) return {0};
        if (!log) return {1};
        return {1, id(cache, (*it).key()), T::vi((*it).value())};
      }
      case LOOKUP: return {1, T::vi(cache.lookup(T::mk(k)))};
      case LOOKUP_C: return {1, T::vi(const_cache.lookup(T::mk(k)))};
      case SUB: return {1, T::vi(cache[T::mk(k)])};
      case SUB_C: return {1, T::vi(const_cache[T::mk(k)])};
      case W_LOOKUP: cache.lookup(T::mk(k)) = T::mv(o.b); return {1};
      case W_SUB: cache[T::mk(k)] = T::mv(o.b); return {1};
      case W_FIND: {
        auto it = cache.find(T::mk(k));
        if (it == cache.end()) return {0};
        it->second = T::mv(o.b);
        return {1};
      }
      case W_UIT: (*scan_u(cache, k)).second = T::mv(o.b); return {};
      case W_OIT: (*scan_o(cache, k)).value() = T::mv(o.b); return {};
      case INSERT: {
        Key key = T::mk(k);
        Value value = T::mv(o.b);
        auto r = cache.insert(key, value);
        unchanged(key, k, "insert");
        unchanged_v(value, o.b, "insert");
        return inserted(cache, r, log);
      }
      case INSERT_T:
        return inserted(cache, cache.insert(T::mk(k), T::mv(o.b)), log);
      case EMPLACE:
        return inserted(cache, cache.emplace(T::mk(k), T::mv(o.b)), log);
      case EMPLACE_L: {
        Key key = T::mk(k);
        Value value = T::mv(o.b);
        auto r = cache.emplace(key, value);
        unchanged(key, k, "emplace");
        unchanged_v(value, o.b, "emplace");
        return inserted(cache, r, log);
      }
      case EMPLACE_PW: {
        Key key = T::mk(k);
        Value value = T::mv(o.b);
        auto r = cache.emplace(std::piecewise_construct,
                               std::forward_as_tuple(key),
                               std::forward_as_tuple(value));
        unchanged(key, k, "emplace(piecewise)");
        unchanged_v(value, o.b, "emplace(piecewise)");
        return inserted(cache, r, log);
      }
      case ERASE: return {cache.erase(T::mk(k)) ? 1 : 0};
      case ERASE_SELF: {
        auto it = scan_u(cache, k);
        return {cache.erase(it->first) ? 1 : 0};
      }
      case ERASE_U: cache.erase(scan_u(cache, k)); return {};
      case ERASE_UC: {
        UCIt it = scan_u(cache, k);
        cache.erase(it);
        return {};
      }
      case ERASE_O: cache.erase(scan_o(cache, k)); return {};
      case ERASE_OC: {
        OCIt it = scan_o(cache, k);
        cache.erase(it);
        return {};
      }
      case CLEAR: cache.clear(); return {};
      case SHRINK: cache.shrink(size_t(o.a)); return {};
      case CAPACITY: cache.capacity(size_t(o.a)); return {};
      case ADVANCE: vclock.now += o.a; return {};
      case CLEAR_EXPIRED: case ALL_EXPIRED: case HAS_EXPIRED:
        return timed_(cache, o, std::integral_constant<bool, T::timed>());
      case COPY_ASSIGN: {
        const C& src = *c[o.a];
        C& r = (cache = src);
        if (&r != &cache) fail("copy assignment does not return its target");
        return {};
      }
      case COPY_ASSIGN_NC: cache = *c[o.a]; return {};
      case COPY_CTOR: {
        const C& src = *c[o.a];
        std::unique_ptr<C> n(new C(src));
        c[o.slot] = std::move(n);
        return {};
      }
      case COPY_CTOR_NC: {
        std::unique_ptr<C> n(new C(*c[o.a]));
        c[o.slot] = std::move(n);
        return {};
      }
      case MOVE_ASSIGN:
        cache = std::move(*c[o.a]);
        if (o.a != o.slot) remake(k);
        return {};
      case MOVE_CTOR: {
        std::unique_ptr<C> n(new C(std::move(*c[o.a])));
        c[o.slot] = std::move(n);
        if (o.a != o.slot) remake(k);
        return {};
      }
      case SWAP_MEMBER: cache.swap(*c[o.a]); return {};
      case SWAP_FREE: {
        using std::swap;
        swap(cache, *c[o.a]);
        return {};
      }
      case REMAKE: remake(o.slot); return {};
      case MON_NEW: cache.monitor(); return {};
      case MON_KEY: cache.monitor(T::mk(k)); return {};
      case MON_KEYS2:
        cache.monitor(T::mk(k), T::mk((k + 1) % g.nkeys));
        return {};
      case MON_SHARED: cache.monitor(shared[o.b]); return {};
      case MON_SHARED_MOVE: {
        auto p = shared[o.b];
        cache.monitor(std::move(p));
        return {};
      }
      case MON_FROM: {
        auto p = c[o.a]->shared_stats();
        cache.monitor(p);
        return {};
      }
      case STOP: cache.stop_monitoring(); return {};
      case ST_MON: cache.stats().monitor(T::mk(k)); return {};
      case ST_UNMON: cache.stats().unmonitor(T::mk(k)); return {};
      case ST_UNMON_ALL: cache.stats().unmonitor_all(); return {};
      case ST_RESET: cache.stats().reset_key(T::mk(k)); return {};
      case ST_RESET_ALL: cache.stats().reset_all(); return {};
      case SO_MON: shared[o.b]->monitor(T::mk(k)); return {};
      case SO_UNMON: shared[o.b]->unmonitor(T::mk(k)); return {};
      case SO_UNMON_ALL: shared[o.b]->unmonitor_all(); return {};
      case SO_RESET: shared[o.b]->reset_key(T::mk(k)); return {};
      case SO_RESET_ALL: shared[o.b]->reset_all(); return {};
      case CB_HIT: case CB_MISS: case CB_ACC:
        callback(cache, o.kind - CB_HIT);
        return {};
      case CB_CLR_HIT: cache.clear_hit_callbacks(); return {};
      case CB_CLR_MISS: cache.clear_miss_callbacks(); return {};
      case CB_CLR_ACC: cache.clear_access_callbacks(); return {};
      case CB_CLR_ALL: cache.clear_all_callbacks(); return {};
      case HOLD: {
        auto u = scan_u(cache, k);
        // One flavour with its entry looked at before, one without.
        OIt ord = scan_o(cache, k);
        OCIt oc(u);
        UCIt uc = u;
        held.reset(new Held(u, uc, ord, oc, &(*u).second));
        return {};
      }
      case ERASE_HELD:
        switch (k) {
          case 0: cache.erase(held->u); break;
          case 1: cache.erase(held->uc); break;
          case 2: cache.erase(held->o); break;
          default: cache.erase(held->oc); break;
        }
        return {};
      case W_HELD:
        switch (k) {
          case 0: held->u->second = T::mv(o.b); break;
          case 1: held->o->second = T::mv(o.b); break;
          default: *held->v = T::mv(o.b); break;
        }
        return {};
      case DROP: held.reset(); return {};
      case ITERATE_O: {
        int n = 0;
        for (auto it = cache.ordered_begin(); it != cache.ordered_end(); ++it) {
          (void)T::ki(it->key());
          if (++n > 10000) fail("ordered iteration does not end");
        }
        return {};
      }
      case ITERATE_U: {
        int n = 0;
        for (auto& entry : cache) {
          (void)T::ki(entry.key());
          if (++n > 10000) fail("unordered iteration does not end");
        }
        return {};
      }
      case ITERATE_BACK: {
        int n = 0;
        for (auto it = const_cache.ordered_end();
             it != const_cache.ordered_begin();) {
          --it;
          (void)T::vi((*it).value());
          if (++n > 10000) fail("backward iteration does not end");
        }
        return {};
      }
      case DEREF_ALL: {
        int n = 0;
        for (auto it = const_cache.ordered_cbegin();
             it != const_cache.ordered_cend(); it++) {
          (void)const_cache.is_valid(it);
          auto copy = it;
          (void)T::vi(copy->value());
          if (++n > 10000) fail("iteration does not end");
        }
        for (auto it = const_cache.begin(); it != const_cache.end(); it++) {
          (void)const_cache.is_valid(it);
          auto copy = it;
          (void)T::vi(copy->value());
          if (++n > 20000) fail("iteration does not end");
        }
        return {};
      }
      case COMPARE: (void)(cache == *c[o.a]); return {};
      case INSERT_IT: {
        auto v = list(k);
        auto n = cache.insert(v.begin(), v.end());
        check_source(v, k);
        return {int(n)};
      }
      case INSERT_RANGE: {
        auto v = list(k);
        auto n = cache.insert(v);
        check_source(v, k);
        return {int(n)};
      }
      case INSERT_IL: {
        auto v = list(k);
        return {int(with_il(v, [&](std::initializer_list<Pair> l) {
          return cache.insert(l);
        }))};
      }
      case INSERT_RV: return {int(cache.insert(list(k)))};
      case ASSIGN_RANGE: {
        auto v = list(k);
        cache = v;
        check_source(v, k);
        return {};
      }
      case ASSIGN_IL: {
        auto v = list(k);
        with_il(v, [&](std::initializer_list<Pair> l) {
          cache = l;
          return 0;
        });
        return {};
      }
      case ASSIGN_RV: cache = list(k); return {};
    }
    fail("harness error: unknown operation ", o.kind);
  }

  void check_source(const std::vector<Pair>& v, int i) {
    auto& l = g.lists[i];
    if (v.size() != l.size()) fail("the source range changed its size");
    for (size_t j = 0; j < l.size(); ++j)
      if (T::ki(v[j].first) != l[j].first || T::vi(v[j].second) != l[j].second)
        fail("an lvalue source range was modified");
  }

  Outcome timed_(C&, const Op&, std::false_type) {
    fail("harness error: timed operation on an untimed cache");
  }
  Outcome timed_(C& cache, const Op& o, std::true_type) {
    switch (o.kind) {
      case CLEAR_EXPIRED: return {int(cache.clear_expired())};
      case ALL_EXPIRED: return {cache.all_expired() ? 1 : 0};
      default: return {cache.has_expired(T::mk(int(o.a))) ? 1 : 0};
    }
  }

  void remake(int slot) {
    {
      C& moved_from = *c[slot];
      if (moved_from.size() > moved_from.capacity())
        fail("a moved-from cache has size ", moved_from.size(),
             " above its capacity ", moved_from.capacity());
    }
    c[slot].reset();
    c[slot].reset(T::make(g, slot));
  }

  // ------------------------------------------------------------ observation
  template <class A, class B>
  static void eq(const char* what, int slot, const A& got, const B& expected) {
    if (!(got == expected))
      fail(what, " of cache ", slot, " is ", got, ", expected ", expected);
  }

  std::string order_str(int slot) {
    std::string s;
    int n = 0;
    const C& cc = *c[slot];
    for (auto it = cc.ordered_cbegin(); it != cc.ordered_cend(); ++it) {
      s += str(s.empty() ? "" : " ", id(cc, (*it).first), ":", T::vi((*it).second));
      if (++n > 300) break;
    }
    return s;
  }
  template <class M>
  static std::string order_str(const M& m) {
    std::string s;
    for (auto& e : m.e) s += str(s.empty() ? "" : " ", e.k, ":", e.v);
    return s;
  }

  template <class M>
  void observe_contents(const M& m, int slot, unsigned mask) {
    C& cache = *c[slot];
    const C& cc = cache;
    const size_t n = size_t(m.e.size());
    if (mask & O_SIZE) {
      eq("size()", slot, cc.size(), n);
      eq("capacity()", slot, cc.capacity(), size_t(m.cap));
      eq("space_left()", slot, cc.space_left(), size_t(m.cap) - n);
      eq("is_empty()", slot, cc.is_empty(), n == 0);
      eq("is_full()", slot, cc.is_full(), n == size_t(m.cap));
    }
    if (mask & O_ORDER) {
      size_t i = 0;
      for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it, ++i) {
        if (i >= n || id(cc, it->first) != m.e[int(i)].k ||
            ((mask & O_VALUES) && T::vi(it->second) != m.e[int(i)].v))
          fail("ordered iteration of cache ", slot, " gives [",
               order_str(slot), "], expected [", order_str(m), "]");
      }
      if (i != n)
        fail("ordered iteration of cache ", slot, " gives ", i,
             " entries, expected [", order_str(m), "]");
    }
    if (mask & O_BACK) {
      size_t i = n;
      auto it = cache.ordered_end();
      while (it != cache.ordered_begin()) {
        --it;
        if (i == 0) fail("backward iteration does not end");
        --i;
        if (id(cc, it->first) != m.e[int(i)].k ||
            ((mask & O_VALUES) && T::vi(it->second) != m.e[int(i)].v))
          fail("backward iteration of cache ", slot, " differs at position ", i,
               ": [", order_str(slot), "], expected [", order_str(m), "]");
      }
      if (i != 0) fail("backward iteration of cache ", slot, " ends early");
    }
    if (mask & O_UNORD) {
      size_t i = 0;
      std::bitset<1024> seen;
      for (auto it = cc.begin(); it != cc.end(); ++it, ++i) {
        int k = id(cc, (*it).key());
        int at = k >= 0 && k < 1024 && !seen[k] ? m.find(k) : -1;
        if (i >= n || at < 0)
          fail("unordered iteration of cache ", slot, " gives key ", k,
               " unexpectedly, expected [", order_str(m), "]");
        seen[k] = true;
        if ((mask & O_VALUES) && T::vi((*it).value()) != m.e[at].v)
          fail("unordered iteration of cache ", slot, " gives value ",
               T::vi((*it).value()), " for key ", k, ", expected ", m.e[at].v);
      }
      if (i != n)
        fail("unordered iteration of cache ", slot, " gives ", i,
             " entries, expected ", n);
    }
    if (mask & O_FRONT)
      front_(cc, m, slot, std::integral_constant<bool, !T::timed>());
  }

  template <class M>
  void front_(const C&, const M&, int, std::false_type) {
  }
  template <class M>
  void front_(const C& cc, const M& m, int slot, std::true_type) {
    if (m.e.size() == 0) return;
    eq("front()", slot, id(cc, cc.front()), m.e[m.e.size() - 1].k);
    eq("back()", slot, id(cc, cc.back()), m.e[0].k);
  }

  template <class F>
  static int error_of(F f) {
    try {
      f();
      return E_NONE;
    } catch (const LRU::Error::KeyNotFound&) {
      return E_NOTFOUND;
    } catch (const LRU::Error::KeyExpired&) {
      return E_EXPIRED;
    } catch (const LRU::Error::InvalidIterator&) {
      return E_INVALID;
    } catch (const LRU::Error::InvalidIteratorConversion&) {
      return E_CONVERSION;
    } catch (const LRU::Error::EmptyCache&) {
      return E_EMPTY;
    } catch (const LRU::Error::UnmonitoredKey&) {
      return E_UNMONITORED;
    } catch (const LRU::Error::NotMonitoring&) {
      return E_NOTMONITORING;
    } catch (const Fail&) {
      throw;
    } catch (...) {
      return E_OTHER;
    }
  }
  template <class F>
  static void raises(const char* what, int expected, F f) {
    int e = error_of(f);
    if (e != expected)
      fail(what, " raises error ", e, ", expected ", expected,
           " (0 none, -1 KeyNotFound, -2 KeyExpired, -3 InvalidIterator, -4 "
           "InvalidIteratorConversion, -5 EmptyCache, -6 UnmonitoredKey, -7 "
           "NotMonitoring)");
  }

  // Validity of every iterator, by every means of asking.
  void observe_validity(const World& w, int slot) {
    C& cache = *c[slot];
    const C& cc = cache;
    const MCache& m = w.c[slot];
    int n = 0;
    auto u = cache.unordered_begin();
    for (; u != cache.unordered_end(); ++u, ++n) {
      MC_CHECK(n < MAXE, "unordered iteration does not end");
      int i = m.find(T::ki(u->first));
      MC_CHECK(i >= 0, "unexpected key ", T::ki(u->first));
      validity(cache, cc, u, w.expired(g, m, m.e[i]), m.e[i]);
    }
    n = 0;
    auto o = cache.ordered_begin();
    for (; o != cache.ordered_end(); ++o, ++n) {
      MC_CHECK(n < m.e.n, "ordered iteration does not end");
      validity(cache, cc, o, w.expired(g, m, m.e[n]), m.e[n]);
    }
  }
  template <class It>
  void validity(C& cache, const C& cc, It& it, bool expired, const MEntry& e) {
    using CIt = std::conditional_t<std::is_same<It, UIt>::value, UCIt, OCIt>;
    It fresh = it;    // has no cached entry
    CIt constant = fresh;
    const int err = expired ? E_EXPIRED : E_NONE;
    eq("is_valid(iterator)", 0, cache.is_valid(it), !expired);
    eq("is_valid(const iterator)", 0, cc.is_valid(constant), !expired);
    raises("throw_if_invalid", err, [&] { cache.throw_if_invalid(it); });
    raises("throw_if_invalid(const)", err, [&] { cc.throw_if_invalid(constant); });
    for (int pass = 0; pass < 2; ++pass) {
      raises("iterator.key()", err,
             [&] { eq("iterator.key()", 0, T::ki(fresh.key()), e.k); });
      raises("iterator.value()", err,
             [&] { eq("iterator.value()", 0, T::vi(fresh.value()), e.v); });
      raises("iterator.entry()", err, [&] {
        eq("iterator.entry().key()", 0, T::ki(fresh.entry().key()), e.k);
        eq("iterator.entry().value()", 0, T::vi(fresh.entry().value()), e.v);
      });
      raises("const iterator.key()", err,
             [&] { eq("const iterator.key()", 0, T::ki(constant.key()), e.k); });
      raises("const iterator.value()", err, [&] {
        eq("const iterator.value()", 0, T::vi(constant.value()), e.v);
      });
      raises("const iterator.entry()", err, [&] { constant.entry(); });
      // Plain dereferencing works even if expired.
      raises("dereferencing", E_NONE, [&] {
        eq("(*iterator).first", 0, T::ki((*fresh).first), e.k);
        eq("iterator->second", 0, T::vi(fresh->second), e.v);
        eq("(*const iterator).first", 0, T::ki((*constant).first), e.k);
      });
    }
    expired_(cache, cc, it, constant, expired, e,
             std::integral_constant<bool, T::timed>());
  }
  template <class It, class CIt>
  void expired_(C&, const C&, It&, CIt&, bool, const MEntry&, std::false_type) {
  }
  template <class It, class CIt>
  void expired_(C& cache, const C& cc, It& it, CIt& constant, bool expired,
                const MEntry& e, std::true_type) {
    eq("has_expired(iterator)", 0, cache.has_expired(it), expired);
    eq("has_expired(const iterator)", 0, cc.has_expired(constant), expired);
    eq("has_expired(key)", 0, cc.has_expired(T::mk(e.k)), expired);
  }

  void observe_timed(const World& w, int slot, std::true_type) {
    const C& cc = *c[slot];
    const MCache& m = w.c[slot];
    bool all = true;
    for (int k = 0; k < g.nkeys; ++k) {
      int i = m.find(k);
      bool ex = i >= 0 && w.expired(g, m, m.e[i]);
      if (i >= 0) all = all && ex;
      eq("has_expired(key)", slot, cc.has_expired(T::mk(k)), ex);
    }
    eq("all_expired()", slot, cc.all_expired(), all);
    eq("has_expired(end)", slot, cc.has_expired(cc.ordered_end()), false);
    eq("has_expired(end)", slot, cc.has_expired(cc.unordered_end()), false);
  }
  void observe_timed(const World&, int, std::false_type) {
  }

  // Everything that must be reported as an error, in this state.
  void observe_errors(const World& w, int slot) {
    C& cache = *c[slot];
    const C& cc = cache;
    const MCache& m = w.c[slot];
    end_errors(cache, cc, cache.unordered_end());
    end_errors(cache, cc, cache.end());
    end_errors(cache, cc, UCIt(cc.unordered_end()));
    end_errors(cache, cc, cc.cend());
    end_errors(cache, cc, cache.ordered_end());
    end_errors(cache, cc, cc.ordered_end());
    end_errors(cache, cc, cc.ordered_cend());
    raises("converting unordered_end()", E_CONVERSION,
           [&] { OIt it(cache.unordered_end()); });
    raises("converting unordered_end() to const", E_CONVERSION,
           [&] { OCIt it(cache.unordered_end()); });
    raises("converting unordered_cend()", E_CONVERSION,
           [&] { OCIt it(cc.unordered_cend()); });
    {
      auto e = cache.unordered_end();
      raises("converting an lvalue unordered_end()", E_CONVERSION,
             [&] { OIt it(e); });
      // Walk there instead of asking for it.
      auto u = cache.unordered_begin();
      int n = 0;
      while (u != cache.unordered_end()) {
        (void)*u;
        ++u;
        MC_CHECK(++n <= m.e.n, "unordered iteration does not end");
      }
      end_errors(cache, cc, u);
      raises("converting a walked-to end", E_CONVERSION, [&] { OIt it(u); });
      auto o = cc.ordered_begin();
      for (n = 0; o != cc.ordered_end(); o++) {
        (void)*o;
        MC_CHECK(++n <= m.e.n, "ordered iteration does not end");
      }
      end_errors(cache, cc, o);
    }
    empty_errors(cc, m, std::integral_constant<bool, !T::timed>());
    observe_contents(m, slot, O_SIZE | O_ORDER | O_UNORD | O_VALUES);
  }
  void empty_errors(const C&, const MCache&, std::false_type) {
  }
  void empty_errors(const C& cc, const MCache& m, std::true_type) {
    if (m.e.n != 0) return;
    raises("front() of an empty cache", E_EMPTY, [&] { cc.front(); });
    raises("back() of an empty cache", E_EMPTY, [&] { cc.back(); });
  }
  template <class It>
  void end_errors(C& cache, const C& cc, It end) {
    for (int pass = 0; pass < 2; ++pass) {
      raises("end.key()", E_INVALID, [&] { (void)end.key(); });
      raises("end.value()", E_INVALID, [&] { (void)end.value(); });
      raises("end.entry()", E_INVALID, [&] { (void)end.entry(); });
      raises("erase(end)", E_INVALID, [&] { cache.erase(end); });
      raises("throw_if_invalid(end)", E_INVALID,
             [&] { cc.throw_if_invalid(end); });
      MC_CHECK(!cc.is_valid(end), "is_valid(end) is true");
    }
  }

  void observe_stats_object(const Stats& s, const MStats& m) {
    auto e = [](const char* what, auto got, long expected) {
      if (long(got) != expected)
        fail("statistics: ", what, " is ", got, ", expected ", expected);
    };
    e("total_accesses()", s.total_accesses(), m.acc);
    e("total_hits()", s.total_hits(), m.hits);
    e("total_misses()", s.total_misses(), m.acc - m.hits);
    if (m.acc > 0) {
      double hr = double(m.hits) / double(m.acc);
      if (std::fabs(s.hit_rate() - hr) > 1e-9 ||
          std::fabs(s.miss_rate() - (1 - hr)) > 1e-9)
        fail("statistics: hit_rate() is ", s.hit_rate(), " and miss_rate() ",
             s.miss_rate(), ", expected ", m.hits, "/", m.acc);
    }
    e("number_of_monitored_keys()", s.number_of_monitored_keys(), m.keys.n);
    e("is_monitoring_keys()", s.is_monitoring_keys(), m.keys.n > 0);
    for (int k = 0; k < g.nkeys; ++k) {
      const MStats::K* x = const_cast<MStats&>(m).find(k);
      auto key = T::mk(k);
      e("is_monitoring(key)", s.is_monitoring(key), x != nullptr);
      if (x) {
        e("hits_for(key)", s.hits_for(key), x->h);
        e("misses_for(key)", s.misses_for(key), x->m);
        e("accesses_for(key)", s.accesses_for(key), x->h + x->m);
        e("stats_for(key).hits", s.stats_for(key).hits, x->h);
        e("stats_for(key).misses", s.stats_for(key).misses, x->m);
        e("stats[key].accesses()", s[key].accesses(), x->h + x->m);
      } else if (g.observe & O_STATERR) {
        raises("hits_for(unmonitored)", E_UNMONITORED, [&] { s.hits_for(key); });
        raises("misses_for(unmonitored)", E_UNMONITORED,
               [&] { s.misses_for(key); });
        raises("accesses_for(unmonitored)", E_UNMONITORED,
               [&] { s.accesses_for(key); });
        raises("stats_for(unmonitored)", E_UNMONITORED,
               [&] { s.stats_for(key); });
        raises("stats[unmonitored]", E_UNMONITORED, [&] { (void)s[key]; });
      }
    }
  }

  void observe_stats(const World& w) {
    for (int s = 0; s < g.slots; ++s) {
      C& cache = *c[s];
      const C& cc = cache;
      int i = w.c[s].stats;
      eq("is_monitoring()", s, cc.is_monitoring(), i >= 0);
      if (i < 0) {
        if (!(g.observe & O_STATERR)) continue;
        raises("stats() of an unmonitored cache", E_NOTMONITORING,
               [&] { cc.stats(); });
        raises("stats() of an unmonitored cache", E_NOTMONITORING,
               [&] { cache.stats(); });
        continue;
      }
      observe_stats_object(cc.stats(), w.stats[i]);
      MC_CHECK(&cache.stats() == &cc.stats() &&
                   cache.shared_stats().get() == &cc.stats() &&
                   cc.shared_stats().get() == &cc.stats(),
               "stats() and shared_stats() report different objects");
      if (i < int(shared.size()))
        MC_CHECK(&cc.stats() == shared[i].get(),
                 "stats() is not the object given to the cache");
    }
    if (g.slots == 2 && w.c[0].stats >= 0 && w.c[1].stats >= 0)
      MC_CHECK((w.c[0].stats == w.c[1].stats) ==
                   (&c[0]->stats() == &c[1]->stats()),
               "caches share a statistics object unexpectedly, or do not");
    for (size_t i = 0; i < shared.size(); ++i)
      observe_stats_object(*shared[i], w.stats[int(i)]);
  }

  void observe_hold(const World& w) {
    if (w.hold.slot < 0) return;
    const int slot = w.hold.slot;
    const MCache& m = w.c[slot];
    int at = -1;
    for (int i = 0; i < m.e.n; ++i)
      if (m.e[i].serial == w.hold.serial) at = i;
    if (at < 0) return;
    const MEntry& e = m.e[at];
    Held& h = *held;
    C& cache = *c[slot];
    const C& cc = cache;
    eq("held reference", slot, T::vi(*h.v), e.v);
    for (int pass = 0; pass < 2; ++pass) {
      eq("held unordered iterator: key", slot, T::ki(h.u->first), e.k);
      eq("held unordered iterator: value", slot, T::vi(h.u->second), e.v);
      eq("held unordered const iterator: key", slot, T::ki(h.uc->first), e.k);
      eq("held unordered const iterator: value", slot, T::vi(h.uc->second), e.v);
      eq("held ordered iterator: key", slot, T::ki(h.o->first), e.k);
      eq("held ordered iterator: value", slot, T::vi(h.o->second), e.v);
      eq("held ordered const iterator: key", slot, T::ki(h.oc->first), e.k);
      eq("held ordered const iterator: value", slot, T::vi(h.oc->second), e.v);
    }
    if (!w.expired(g, m, e)) {
      eq("held ordered iterator: key()", slot, T::ki(h.o.key()), e.k);
      eq("held ordered const iterator: value()", slot, T::vi(h.oc.value()), e.v);
      eq("held unordered iterator: value()", slot, T::vi(h.u.value()), e.v);
      eq("held unordered const iterator: key()", slot, T::ki(h.uc.key()), e.k);
    }
    MC_CHECK(UCIt(h.u) == h.uc && h.o == h.u && h.oc == h.uc && h.u == h.o,
             "held iterators to the same entry compare different");
    MC_CHECK(&h.u->second == h.v, "held iterator and reference differ");
    // The position in the order, to both sides.
    int after = 0, before = 0;
    for (OCIt it = h.oc; it != cc.ordered_cend(); ++it)
      if (++after > MAXE) fail("iteration from a held iterator does not end");
    for (OIt it = h.o; it != cache.ordered_begin(); --it)
      if (++before > MAXE)
        fail("backward iteration from a held iterator does not end");
    eq("position of held iterator from the end", slot, after, m.e.n - at);
    eq("position of held iterator from the begin", slot, before, at);
    // What follows and precedes it.
    if (at + 1 < m.e.n) {
      OIt it = h.o;
      ++it;
      eq("successor of held iterator", slot, T::ki(it->first), m.e[at + 1].k);
    }
    if (at > 0) {
      OCIt it = h.oc;
      --it;
      eq("predecessor of held iterator", slot, T::ki(it->first), m.e[at - 1].k);
    }
  }

  // The callbacks the cache reports are the registered ones, in order.
  void reported_callbacks(const C& cc, const MCache& m, int slot) {
    auto before = g_events;
    g_events.clear();
    auto key = T::mk(0);
    auto value = T::mv(0);
    for (auto& f : cc.hit_callbacks()) f(key, value);
    for (auto& f : cc.miss_callbacks()) f(key);
    for (auto& f : cc.access_callbacks()) f(key, true);
    int j = 0;
    for (int type = 0; type < 3; ++type)
      for (int id : m.cb[type]) {
        if (j >= g_events.n || g_events[j].type != type || g_events[j].id != id)
          fail("cache ", slot, " does not report the registered callbacks");
        ++j;
      }
    g_events = before;
  }

  void observe_events(const World& w) {
    // Within each kind the order is that of registration.
    for (int type = 0; type < 3; ++type) {
      int j = 0;
      std::string got, expected;
      bool ok = true;
      for (auto& e : w.events)
        if (e.type == type) {
          while (j < g_events.n && g_events[j].type != type) ++j;
          if (j >= g_events.n || !(g_events[j] == e)) ok = false;
          ++j;
        }
      while (j < g_events.n && g_events[j].type != type) ++j;
      if (j < g_events.n) ok = false;
      if (!ok) {
        for (auto& e : w.events) expected += str(" ", e);
        for (auto& e : g_events) got += str(" ", e);
        fail("callbacks called:", got, "; expected:", expected);
      }
    }
  }

  void observe(const World& w, unsigned mask) {
    for (int s = 0; s < g.slots; ++s) {
      observe_contents(w.c[s], s, mask);
      if (mask & O_VALID) {
        observe_validity(w, s);
        observe_timed(w, s, std::integral_constant<bool, T::timed>());
      }
      if (mask & O_ERRORS) observe_errors(w, s);
      if (mask & O_FUNCS) {
        int f = T::funcs(*c[s]);
        if (f >= 0) eq("hash_function()/key_equal()", s, f, w.c[s].funcs);
      }
      if (mask & O_CBS) {
        const C& cc = *c[s];
        eq("hit_callbacks().size()", s, cc.hit_callbacks().size(),
           size_t(w.c[s].cb[0].n));
        eq("miss_callbacks().size()", s, cc.miss_callbacks().size(),
           size_t(w.c[s].cb[1].n));
        eq("access_callbacks().size()", s, cc.access_callbacks().size(),
           size_t(w.c[s].cb[2].n));
        reported_callbacks(cc, w.c[s], s);
      }
    }
    if (mask & O_STATS) observe_stats(w);
    if (mask & O_HOLD) observe_hold(w);
    if ((mask & O_EQ) && g.slots == 2) {
      const bool e = w.equal(g, 0, 1);
      const C &a = *c[0], &b = *c[1];
      MC_CHECK((a == b) == e && (b == a) == e,
               "caches compare ", a == b ? "equal" : "unequal", " ([",
               order_str(0), "] and [", order_str(1), "]), expected ",
               e ? "equal" : "unequal");
      MC_CHECK((a != b) == !e && (b != a) == !e,
               "operator!= is not the negation of operator==");
      MC_CHECK(a == a && !(a != a) && b == b && !(b != b),
               "equality is not reflexive");
    }
  }

  // Destructive probes at the end of an execution.
  void probe(World w, unsigned mask) {
    if (mask & P_LOOKUP) {
      for (int s = 0; s < g.slots; ++s)
        for (int k = g.nkeys; k-- > 0;) {
          Op o;
          o.kind = k % 2 ? LOOKUP_C : FIND;
          o.slot = s;
          o.a = k;
          Outcome e = w.apply(g, o);
          Outcome got = apply(o, true);
          if (!matches(e, got))
            fail("afterwards ", op_str(o), " gives ", got, ", expected ", e);
        }
      for (int s = 0; s < g.slots; ++s)
        observe_contents(w.c[s], s, O_SIZE | O_ORDER | O_UNORD | O_VALUES);
    }
    if (mask & P_EXPIRE) {
      for (int64_t step : probe_steps) {
        vclock.now += step;
        w.now += step;
        for (int s = 0; s < g.slots; ++s)
          observe_timed(w, s, std::integral_constant<bool, T::timed>());
      }
    }
    if (mask & P_DRAIN) {
      for (int s = 0; s < g.slots; ++s) {
        int64_t cap = w.c[s].cap;
        while (w.c[s].e.n > 0) {
          Op o;
          o.kind = CAPACITY;
          o.slot = s;
          o.a = w.c[s].e.n - 1;
          w.apply(g, o);
          apply(o, false);
          observe_contents(w.c[s], s, O_SIZE | O_ORDER | O_UNORD);
        }
        Op o;
        o.slot = s;
        o.kind = CAPACITY;
        o.a = cap;
        w.apply(g, o);
        apply(o, false);
        o.kind = INSERT;
        for (int k = 0; k < g.nkeys; ++k) {
          o.a = k;
          o.b = 0;
          Outcome e = w.apply(g, o);
          Outcome got = apply(o, true);
          if (!matches(e, got))
            fail("afterwards ", op_str(o), " gives ", got, ", expected ", e);
        }
        observe_contents(w.c[s], s, O_SIZE | O_ORDER | O_UNORD | O_VALUES);
      }
    }
  }
  inline static std::vector<int64_t> probe_steps;
};

// ------------------------------------------------------------------ Machine
template <class T>
struct Machine {
  Cfg g;
  int reserved = 0;

  World initial() const {
    World w;
    w.reserved = reserved;
    for (int i = 0; i < reserved; ++i) w.stats.push(MStats());
    w.init(g);
    return w;
  }

  std::string history(const int* tr, int n) const {
    std::string s;
    for (int i = 0; i < n; ++i) s += str(i ? "; " : "", op_str(g.ops[tr[i]]));
    return s.empty() ? "(empty)" : s;
  }

  // One execution of the real code; `after` and `expected` are the model's
  // state and outcome after the last operation.
  void exec(const int* tr, int n, const World& after, const Outcome& expected) {
    begin_trace(tr, n);
    {
      Sut<T> sut(g, reserved);
      for (int i = 0; i + 1 < n; ++i) sut.apply(g.ops[tr[i]], false);
      g_events.clear();
      if (n > 0) {
        T::before_op();
        Outcome got = sut.apply(g.ops[tr[n - 1]], true);
        if ((g.observe & O_RESULT) && !matches(expected, got))
          fail(op_str(g.ops[tr[n - 1]]), " gives ", got, ", expected ",
               expected, " after ", history(tr, n - 1));
      }
      try {
        if (g.observe & O_EVENTS) sut.observe_events(after);
        sut.observe(after, g.observe);
        T::check_live(live(after), !g.stats);
        if (g.observe & (P_LOOKUP | P_DRAIN | P_EXPIRE))
          sut.probe(after, g.observe);
      } catch (Fail& f) {
        f.what += str(" after ", history(tr, n));
        throw;
      }
    }
    T::check_live(0, true);
  }
  size_t live(const World& w) const {
    size_t n = 0;
    for (int s = 0; s < g.slots; ++s) n += size_t(w.c[s].e.n);
    return n;
  }

  // A single trace, for replay.
  void run(const Trace& t) {
    World w = initial();
    Outcome e;
    int i = 0;
    for (int x : t) {
      if (x < 0 || x >= int(g.ops.size())) fail("bad trace");
      if (!w.enabled(g, g.ops[x])) fail("bad trace: disabled operation");
      e = w.apply(g, g.ops[x]);
      say("  ", i++, ": ", op_str(g.ops[x]), "  expected ", e);
    }
    for (int s = 0; s < g.slots; ++s)
      say("  expected cache ", s, ": [", Sut<T>::order_str(w.c[s]),
          "] capacity ", w.c[s].cap);
    exec(t.data(), int(t.size()), w, e);
  }

  // The number of distinct model states reachable in at most `depth` steps.
  uint64_t count_states(int depth, uint64_t limit = 400000) {
    std::unordered_set<std::string> seen;
    std::vector<World> frontier{initial()};
    seen.insert(frontier[0].key(g));
    for (int d = 0; d < depth && seen.size() < limit; ++d) {
      std::vector<World> next;
      for (auto& w : frontier)
        for (auto& o : g.ops) {
          if (!w.enabled(g, o)) continue;
          World x = w;
          x.apply(g, o);
          if (seen.insert(x.key(g)).second) next.push_back(x);
          if (seen.size() >= limit) return seen.size();
        }
      frontier.swap(next);
    }
    return seen.size();
  }

  void tree(Ctx& ctx, int depth) {
    std::vector<int> tr(size_t(depth) + 1);
    if (ctx.part == 0) ctx.states += count_states(depth);
    for (int d = 0; d <= depth; ++d) {
      ctx.ordinal = 0;
      descend(ctx, tr.data(), 0, d, initial(), Outcome());
    }
    ctx.bounds = str("all sequences of up to ", depth, " of ", g.ops.size(),
                     " operations");
  }
  void descend(Ctx& ctx, int* tr, int at, int d, const World& w,
               const Outcome& out) {
    if (at == std::min(d, 2) && !ctx.mine()) return;
    if (at == d) {
      exec(tr, d, w, out);
      ++ctx.traces;
      ctx.transitions += uint64_t(d);
      if (ctx.traces % 50021 == 1) ctx.sample(history(tr, d));
      return;
    }
    for (int i = 0; i < int(g.ops.size()); ++i) {
      if (!w.enabled(g, g.ops[i])) continue;
      World next = w;
      Outcome e = next.apply(g, g.ops[i]);
      tr[at] = i;
      descend(ctx, tr, at + 1, d, next, e);
    }
  }

  // All states reachable by the first `setup` operations of the alphabet (a
  // shortest history for each), then all sequences of one operation of each of
  // the following stages (ranges of the alphabet); everything after the setup
  // is executed and compared at each step.
  void staged(Ctx& ctx, int setup, int setup_suffix, int setup_depth,
              const std::vector<std::pair<int, int>>& stages) {
    struct Node {
      Trace tr;
      World w;
    };
    std::vector<Node> nodes{{{}, initial()}};
    std::unordered_set<std::string> seen{nodes[0].w.key(g)};
    for (size_t at = 0; at < nodes.size(); ++at)
      for (int i = 0; i < setup; ++i) {
        if (int(nodes[at].tr.size()) >= setup_depth) break;
        if (!nodes[at].w.enabled(g, g.ops[i])) continue;
        Node n = nodes[at];
        n.w.apply(g, g.ops[i]);
        n.tr.push_back(i);
        std::string k = n.w.key(g);
        for (int j = 0; j < setup_suffix && j < int(n.tr.size()); ++j)
          k += char(n.tr[n.tr.size() - 1 - size_t(j)]);
        if (seen.insert(k).second) nodes.push_back(std::move(n));
        if (nodes.size() > 500000) fail("harness error: too many states");
      }
    if (ctx.part == 0) ctx.states += nodes.size();
    uint64_t n_ops = 0;
    for (auto& st : stages) n_ops = std::max<uint64_t>(n_ops, uint64_t(st.second - st.first));
    ctx.bounds = str("all ", nodes.size(), " states reachable by ",
                     setup_depth < 50 ? str("up to ", setup_depth, " of ") : "",
                     setup, " operations, then all sequences of ", stages.size(),
                     " out of up to ", n_ops, " operations");
    for (auto& n : nodes) {
      Trace tr = n.tr;
      tr.resize(n.tr.size() + stages.size());
      stage(ctx, tr, n.tr.size(), 0, stages, n.w);
    }
  }
  void stage(Ctx& ctx, Trace& tr, size_t at, size_t st,
             const std::vector<std::pair<int, int>>& stages, const World& w) {
    for (int i = stages[st].first; i < stages[st].second; ++i) {
      if (!w.enabled(g, g.ops[i])) continue;
      if (st == 0 && !ctx.mine()) continue;
      World next = w;
      Outcome e = next.apply(g, g.ops[i]);
      tr[at] = i;
      exec(tr.data(), int(at) + 1, next, e);
      ++ctx.traces;
      ctx.transitions += 1;
      if (ctx.traces % 30011 == 1) ctx.sample(history(tr.data(), int(at) + 1));
      if (st + 1 < stages.size()) stage(ctx, tr, at + 1, st + 1, stages, next);
    }
  }

  // suffix: how many of the last operations distinguish states.
  void bfs(Ctx& ctx, int suffix, int max_depth, uint64_t max_states = 300000) {
    struct Node {
      int parent, op, depth;
    };
    std::vector<Node> nodes;
    std::deque<std::pair<int, World>> queue;
    std::unordered_set<std::string> seen;
    auto key = [&](const World& w, int parent, int op) {
      std::string s = w.key(g);
      int last = op, p = parent;
      for (int i = 0; i < suffix; ++i) {
        s += char(last & 0xff);
        s += char((last >> 8) & 0xff);
        if (p >= 0) {
          last = nodes[p].op;
          p = nodes[p].parent;
        } else {
          last = -1;
        }
      }
      return s;
    };
    World w0 = initial();
    nodes.push_back({-1, -1, 0});
    seen.insert(key(w0, -1, -1));
    queue.emplace_back(0, w0);
    bool closed = true;
    int reached = 0;
    Trace tr;
    while (!queue.empty()) {
      int id = queue.front().first;
      World w = queue.front().second;
      queue.pop_front();
      reached = std::max(reached, nodes[id].depth);
      tr.assign(size_t(nodes[id].depth) + 1, 0);
      for (int p = id, i = nodes[id].depth - 1; i >= 0; --i) {
        tr[i] = nodes[p].op;
        p = nodes[p].parent;
      }
      for (int i = 0; i < int(g.ops.size()); ++i) {
        if (!w.enabled(g, g.ops[i])) continue;
        World next = w;
        Outcome e = next.apply(g, g.ops[i]);
        tr.back() = i;
        if (ctx.mine()) {
          exec(tr.data(), int(tr.size()), next, e);
          ++ctx.traces;
          ++ctx.transitions;
          if (ctx.traces % 20011 == 1) ctx.sample(history(tr.data(), int(tr.size())));
        }
        std::string k = key(next, id, i);
        if (seen.count(k)) continue;
        if (nodes[id].depth + 1 > max_depth || nodes.size() >= max_states) {
          closed = false;
          continue;
        }
        seen.insert(std::move(k));
        nodes.push_back({id, i, nodes[id].depth + 1});
        queue.emplace_back(int(nodes.size()) - 1, next);
      }
    }
    if (ctx.part == 0) ctx.states += nodes.size();
    ctx.exhaustive = ctx.exhaustive && closed;
    ctx.bounds = str(closed ? "all" : "the first", " states (refined by the last ",
                     suffix, " operations) up to depth ", reached,
                     ", every one of ", g.ops.size(), " operations from each");
  }
};

template <class T>
void tree_job(const std::string& name, Cfg g, int depth, int parts,
              int reserved = 0) {
  auto m = std::make_shared<Machine<T>>();
  m->g = std::move(g);
  m->reserved = reserved;
  job(
      name, parts, [m, depth](Ctx& c) { m->tree(c, depth); },
      [m](const Trace& t) { m->run(t); });
}

template <class T>
void bfs_job(const std::string& name, Cfg g, int suffix, int max_depth,
             int parts, uint64_t max_states = 300000, int reserved = 0) {
  auto m = std::make_shared<Machine<T>>();
  m->g = std::move(g);
  m->reserved = reserved;
  job(
      name, parts,
      [m, suffix, max_depth, max_states](Ctx& c) {
        m->bfs(c, suffix, max_depth, max_states);
      },
      [m](const Trace& t) { m->run(t); });
}

template <class T>
void staged_job(const std::string& name, Cfg g, std::vector<Op> setup,
                std::vector<std::vector<Op>> stages, int parts,
                int reserved = 0, int setup_suffix = 0, int setup_depth = 50) {
  auto m = std::make_shared<Machine<T>>();
  g.ops = setup;
  std::vector<std::pair<int, int>> ranges;
  for (size_t i = 0; i < stages.size(); ++i) {
    // The same alphabet again shares its range.
    size_t j = 0;
    auto same = [](const std::vector<Op>& a, const std::vector<Op>& b) {
      if (a.size() != b.size()) return false;
      for (size_t k = 0; k < a.size(); ++k)
        if (a[k].kind != b[k].kind || a[k].slot != b[k].slot ||
            a[k].a != b[k].a || a[k].b != b[k].b)
          return false;
      return true;
    };
    while (j < i && !same(stages[i], stages[j])) ++j;
    if (j < i) {
      ranges.push_back(ranges[j]);
    } else {
      int from = int(g.ops.size());
      g.ops.insert(g.ops.end(), stages[i].begin(), stages[i].end());
      ranges.emplace_back(from, int(g.ops.size()));
    }
  }
  m->g = std::move(g);
  m->reserved = reserved;
  int n = int(setup.size());
  job(
      name, parts,
      [m, n, setup_suffix, setup_depth, ranges](Ctx& c) {
        m->staged(c, n, setup_suffix, setup_depth, ranges);
      },
      [m](const Trace& t) { m->run(t); });
}

// ------------------------------------------------------- operation alphabets
struct Ops {
  std::vector<Op> v;
  int nk, nv, slots;
  Ops(int nk_, int nv_, int slots_ = 1) : nk(nk_), nv(nv_), slots(slots_) {}
  Ops& k(std::initializer_list<int> kinds) {  // for every key
    for (int s = 0; s < slots; ++s)
      for (int kind : kinds)
        for (int i = 0; i < nk; ++i) v.push_back({kind, s, i, 0});
    return *this;
  }
  Ops& kv(std::initializer_list<int> kinds) {  // for every key and value
    for (int s = 0; s < slots; ++s)
      for (int kind : kinds)
        for (int i = 0; i < nk; ++i)
          for (int j = 0; j < nv; ++j) v.push_back({kind, s, i, j});
    return *this;
  }
  Ops& plain(std::initializer_list<int> kinds) {
    for (int s = 0; s < slots; ++s)
      for (int kind : kinds) v.push_back({kind, s, 0, 0});
    return *this;
  }
  Ops& with(int kind, std::initializer_list<int64_t> args) {
    for (int s = 0; s < slots; ++s)
      for (auto a : args) v.push_back({kind, s, a, 0});
    return *this;
  }
  Ops& once(int kind, std::initializer_list<int64_t> args) {
    for (auto a : args) v.push_back({kind, 0, a, 0});
    return *this;
  }
  Ops& between(std::initializer_list<int> kinds, bool self = false) {
    for (int kind : kinds)
      for (int s = 0; s < slots; ++s)
        for (int t = 0; t < slots; ++t)
          if (s != t || self) v.push_back({kind, s, t, 0});
    return *this;
  }
  operator std::vector<Op>() const { return v; }
};

}  // namespace mc
