// C16: an operation that fails by an exception leaves the cache consistent.
// VARIANTS: 4
// LEVEL: fault_enumeration
#include "mc.hpp"
#include <lru/lru.hpp>
using namespace mc;

// ------------------------------------------------------------ fault injection
// Everything that may throw passes fault_point(). The n-th one throws, and with
// `sticky` also every later one of the same kind, until the operation is over.
enum Kind { ALLOC, COPY, MOVE, ASSIGN, CONVERT, HASH, EQUAL, CALLBACK };
static const char* KIND_NAME[] = {"allocation", "copy", "move", "assignment", "conversion", "hash", "key equality", "callback"};
struct Boom {};
static bool g_armed = false, g_fired = false, g_sticky = false;
static long g_target = 0, g_count = 0;
static int g_kind = 0;
static void fault_point(int kind) {
  if (!g_armed) return;
  ++g_count;
  if (g_fired ? g_sticky && kind == g_kind : g_count == g_target) {
    g_fired = true;
    g_kind = kind;
    if (kind == ALLOC) throw std::bad_alloc();
    throw Boom();
  }
}
struct Unarmed {  // the harness's own business
  bool was = g_armed;
  Unarmed() { g_armed = false; }
  ~Unarmed() { g_armed = was; }
};
void* operator new(size_t n) {
  fault_point(ALLOC);
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }

// -------------------------------------------------------------- user's types
template <int Tag>
struct Frail {
  inline static long live = 0;
  static constexpr uint32_t ALIVE = 0xa11fe000, DEAD = 0xdeadbeef;
  int id;
  uint32_t magic = ALIVE;
  Frail(int i) : id(i) {  // NOLINT
    fault_point(CONVERT);
    ++live;
  }
  Frail(const Frail& o) : id(o.get()) {
    fault_point(COPY);
    ++live;
  }
  Frail(Frail&& o) : id(o.get()) {
    fault_point(MOVE);
    o.id = -1;
    ++live;
  }
  Frail& operator=(const Frail& o) {
    get();
    fault_point(ASSIGN);
    id = o.get();
    return *this;
  }
  Frail& operator=(Frail&& o) {
    get();
    fault_point(ASSIGN);
    int i = o.get();
    if (this != &o) o.id = -1;
    id = i;
    return *this;
  }
  ~Frail() {
    if (magic != ALIVE) {
      std::fputs("Assertion failed: destroying an object that is not alive\n", stderr);
      std::abort();
    }
    magic = DEAD;
    --live;
  }
  int get() const {
    if (magic != ALIVE) {
      std::fputs("Assertion failed: using an object that is not alive\n", stderr);
      std::abort();
    }
    return id;
  }
  bool operator==(const Frail& o) const {
    fault_point(EQUAL);
    return get() == o.get();
  }
  bool operator!=(const Frail& o) const { return !(*this == o); }
};
using Key = Frail<0>;
using Value = Frail<1>;
namespace std {
template <int Tag>
struct hash<Frail<Tag>> {
  size_t operator()(const Frail<Tag>& k) const {
    fault_point(HASH);
    return size_t(k.get());
  }
};
}  // namespace std
template <int How>  // 0: spread, 1: collide
struct FrailHash {
  size_t operator()(const Key& k) const {
    fault_point(HASH);
    return How ? 5 : size_t(k.get()) * 7;
  }
};
struct FrailEqual {
  bool operator()(const Key& a, const Key& b) const {
    fault_point(EQUAL);
    return a.get() == b.get();
  }
};

// -------------------------------------------------------------------- kinds
using Ns = std::chrono::nanoseconds;
static constexpr int64_t TTL = 10;
template <int How>
struct Untimed {
  static constexpr bool timed = false;
  using C = LRU::Cache<Key, Value, FrailHash<How>, FrailEqual>;
  template <class... A>
  static C make(size_t cap, A&&... a) { return C(cap, std::forward<A>(a)...); }
  static std::unique_ptr<C> make_new(size_t cap) { return std::make_unique<C>(cap); }
  static bool expired(C&, int) { return false; }
  static size_t clear_expired(C&) { return 0; }
};
template <int How>
struct TimedKind {
  static constexpr bool timed = true;
  using C = LRU::TimedCache<Key, Value, Ns, FrailHash<How>, FrailEqual>;
  template <class... A>
  static C make(size_t cap, A&&... a) { return C(Ns(TTL), cap, std::forward<A>(a)...); }
  static std::unique_ptr<C> make_new(size_t cap) { return std::make_unique<C>(Ns(TTL), cap); }
  static bool expired(C& c, int k) { return c.has_expired(Key(k)); }
  static size_t clear_expired(C& c) { return c.clear_expired(); }
};

// ---------------------------------------------------------------------- model
struct E {
  int k, v;
  int64_t t;
  bool operator==(const E& o) const { return k == o.k && v == o.v; }
};
struct Ref {
  std::vector<E> e;  // least recently used first
  size_t cap = 0;
  bool timed = false;
  int find(int k) const {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].k == k) return int(i);
    return -1;
  }
  bool dead(int i) const { return timed && vclock.now - e[size_t(i)].t > TTL; }
  bool lookup(int k, int& v) {
    int i = find(k);
    if (i < 0 || dead(i)) return false;
    v = e[size_t(i)].v;
    touch(i);
    return true;
  }
  void touch(int i) { std::rotate(e.begin() + i, e.begin() + i + 1, e.end()); }
  bool insert(int k, int v) {
    if (cap == 0) return false;
    int i = find(k);
    if (i >= 0) {
      e[size_t(i)].v = v;
      e[size_t(i)].t = vclock.now;
      touch(i);
      return false;
    }
    if (e.size() == cap) e.erase(e.begin());
    e.push_back({k, v, vclock.now});
    return true;
  }
  bool erase(int k) {
    int i = find(k);
    if (i < 0) return false;
    e.erase(e.begin() + i);
    return true;
  }
  void shrink(size_t n) {
    while (e.size() > n) e.erase(e.begin());
  }
};
static std::string show(const std::vector<E>& e) {
  std::string s = "[";
  for (auto& x : e) s += str(s.size() > 1 ? " " : "", x.k, ":", x.v);
  return s + "]";
}
static std::vector<E> without(std::vector<E> e, int k) {
  e.erase(std::remove_if(e.begin(), e.end(), [&](const E& x) { return x.k == k; }), e.end());
  return e;
}
static bool subsequence(const std::vector<E>& part, const std::vector<E>& all) {
  size_t i = 0;
  for (auto& x : all)
    if (i < part.size() && part[i] == x) ++i;
  return i == part.size();
}

// ------------------------------------------------------------------ operations
enum What {
  CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C,
  INSERT, EMPLACE_INT, EMPLACE_MOVE, EMPLACE_PW, ERASE, ERASE_U, ERASE_O, CONVERT_IT,
  CLEAR, SHRINK, CAPACITY, CLEAR_EXPIRED,
  INSERT_IT, INSERT_RANGE, INSERT_IL, INSERT_RV, ASSIGN_RANGE, ASSIGN_IL, ASSIGN_RV,
  DEREF, DEREF_U, COPY_CTOR, COPY_CTOR_NC, COPY_TO, COPY_FROM, COPY_SELF, MOVE_CTOR, SWAP,
  CTOR_IT, CTOR_RANGE, CTOR_RV, CTOR_IL, MONITOR, MONITOR_KEYS, MONITOR_ONE, CALLBACKS, ADVANCE
};
static const char* WHAT_NAME[] = {
  "contains", "contains (const)", "find", "find (const)", "lookup", "lookup (const)", "operator[]", "operator[] (const)",
  "insert", "emplace(int, int)", "emplace(key&&, value&&)", "emplace(piecewise)", "erase", "erase(unordered iterator)",
  "erase(ordered iterator)", "ordered iterator from unordered", "clear", "shrink", "capacity", "clear_expired",
  "insert(iterators)", "insert(range)", "insert(list)", "insert(range&&)", "= range", "= list", "= range&&",
  "ordered iteration", "unordered iteration", "copy construction", "copy construction (non-const)", "other = cache", "cache = other", "cache = cache",
  "move construction", "swap", "construction (iterators)", "construction (range)", "construction (range&&)",
  "construction (list)", "monitor()", "monitor(keys)", "stats().monitor(key)", "callbacks", "time passes"};
struct Op {
  int what, k = 0, v = 0;
};
using Pairs = std::vector<std::pair<int, int>>;
static const std::vector<Pairs>& lists() {
  static const std::vector<Pairs> l = {{{1, 5}, {0, 6}}, {{3, 5}, {0, 6}, {3, 7}}, {{2, 5}, {3, 6}, {1, 7}, {0, 8}}};
  return l;
}
static constexpr int KEYS = 4;

template <class T>
struct World {
  using C = typename T::C;
  std::unique_ptr<C> c, other;
  Ref r, ro;
  bool loaded;  // statistics and callbacks
  bool undefined = false;  // the last operation had nothing to work on

  World(size_t cap, bool loaded_) : loaded(loaded_) {
    vclock.now = 1000000000;
    c = T::make_new(cap);
    other = T::make_new(2);
    r.cap = cap;
    ro.cap = 2;
    r.timed = ro.timed = T::timed;
    put(*other, 3, 9);
    put(*other, 1, 8);
    ro.insert(3, 9);
    ro.insert(1, 8);
    if (loaded) {
      c->monitor(Key(0), Key(3));
      add_callbacks(*c);
      // Something that is not at its first use.
      c->contains(Key(0));
    }
  }
  static void put(C& c, int k, int v) {
    Key key(k);
    Value value(v);
    c.insert(key, value);
  }
  static void add_callbacks(C& c) {
    c.hit_callback([](const Key&, const Value&) { fault_point(CALLBACK); });
    c.miss_callback([](const Key&) { fault_point(CALLBACK); });
    c.access_callback([](const Key&, bool) { fault_point(CALLBACK); });
  }
  static size_t monitored_keys(const C& c) {
    return c.is_monitoring() ? c.stats().number_of_monitored_keys() : 0;
  }

  // What the cache reports, with the faults turned off.
  static std::vector<E> observe(C& c) {
    Unarmed u;
    std::vector<E> e, un;
    for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
      MC_CHECK(e.size() <= 200, "endless iteration");
      e.push_back({it->key().get(), it->value().get(), 0});
    }
    for (auto it = c.begin(); it != c.end(); ++it) {
      MC_CHECK(un.size() <= 200, "endless iteration");
      un.push_back({it->key().get(), it->value().get(), 0});
    }
    MC_CHECK(e.size() == c.size(), "size ", c.size(), ", but ordered iteration shows ", show(e));
    MC_CHECK(un.size() == c.size(), "size ", c.size(), ", but unordered iteration shows ", show(un));
    MC_CHECK(c.size() <= c.capacity(), "size ", c.size(), " exceeds the capacity ", c.capacity());
    auto less = [](const E& a, const E& b) { return a.k < b.k; };
    auto sorted = e;
    std::sort(sorted.begin(), sorted.end(), less);
    std::sort(un.begin(), un.end(), less);
    MC_CHECK(sorted == un, "ordered iteration shows ", show(e), ", unordered iteration ", show(un));
    for (size_t i = 1; i < un.size(); ++i)
      MC_CHECK(un[i - 1].k != un[i].k, "an entry is duplicated: ", show(e));
    return e;
  }
  void check_live() {
    const long n = long(c->size() + (other ? other->size() : 0));
    std::set<const void*> seen;
    long keys = n;
    for (C* x : {c.get(), other.get()})
      if (x && x->is_monitoring() && seen.insert(&x->stats()).second) keys += long(monitored_keys(*x));
    MC_CHECK(Key::live == keys && Value::live == n, Key::live, " keys and ", Value::live,
             " values are alive, expected ", keys, " and ", n);
  }

  // Does it, for real. Only the operation itself is armed.
  struct Result {
    int code = 0;  // -1: not found; else a value or flag
    bool undefined = false;
  };
  struct Armed {
    Armed(bool on) {
      g_count = 0;
      g_fired = false;
      g_armed = on;
    }
    ~Armed() { g_armed = false; }
  };
  Result run(const Op& o, bool arm) {
    Result res;
    undefined = false;
    Key k(o.k);
    Value v(o.v);
    C& x = *c;
    const C& cx = x;
    auto look = [&](auto&& f) {
      try {
        Armed a(arm);
        res.code = f();
      } catch (LRU::Error::KeyNotFound&) {
        res.code = -1;
      } catch (LRU::Error::KeyExpired&) {
        res.code = -1;
      }
    };
    auto plain = [&](auto&& f) {
      Armed a(arm);
      f();
    };
    switch (o.what) {
      case CONTAINS: look([&] { return x.contains(k) ? 0 : -1; }); break;
      case CONTAINS_C: look([&] { return cx.contains(k) ? 0 : -1; }); break;
      case FIND: look([&] { return x.find(k) != x.end() ? 0 : -1; }); break;
      case FIND_C: look([&] { return cx.find(k) != cx.end() ? 0 : -1; }); break;
      case LOOKUP: look([&] { return x.lookup(k).get(); }); break;
      case LOOKUP_C: look([&] { return cx.lookup(k).get(); }); break;
      case SUB: look([&] { return x[k].get(); }); break;
      case SUB_C: look([&] { return cx[k].get(); }); break;
      case INSERT: look([&] { return int(x.insert(k, v).was_inserted()); }); break;
      case EMPLACE_INT: look([&] { return int(x.emplace(o.k, o.v).was_inserted()); }); break;
      case EMPLACE_MOVE: look([&] { return int(x.emplace(std::move(k), std::move(v)).was_inserted()); }); break;
      case EMPLACE_PW:
        look([&] {
          return int(x.emplace(std::piecewise_construct, std::forward_as_tuple(o.k), std::forward_as_tuple(o.v))
                         .was_inserted());
        });
        break;
      case ERASE: look([&] { return int(x.erase(k)); }); break;
      case ERASE_U:
      case ERASE_O:
      case CONVERT_IT: {
        auto it = x.find(k);
        int dummy;
        r.lookup(o.k, dummy);
        if (it == x.end()) {
          res.undefined = true;
          break;
        }
        if (o.what == ERASE_U) {
          plain([&] { x.erase(it); });
        } else if (o.what == CONVERT_IT) {
          Armed a(arm);
          typename C::OrderedIterator oit(it);
          typename C::OrderedConstIterator ocit(it);
          ++oit;
          --oit;
          g_armed = false;
          MC_CHECK(oit == it && ocit == oit, "the iterator points elsewhere");
        } else {
          typename C::OrderedIterator oit(it);
          plain([&] { x.erase(oit); });
        }
        break;
      }
      case CLEAR: plain([&] { x.clear(); }); break;
      case SHRINK: plain([&] { x.shrink(size_t(o.k)); }); break;
      case CAPACITY: plain([&] { x.capacity(size_t(o.k)); }); break;
      case CLEAR_EXPIRED: look([&] { return int(T::clear_expired(x)); }); break;
      case DEREF:
        look([&] {
          int n = 0;
          for (auto it = x.ordered_begin(); it != x.ordered_end(); ++it) n += (*it).value().get() + it->value().get();
          for (auto it = cx.ordered_begin(); it != cx.ordered_end(); ++it) n += it->value().get();
          return n;
        });
        break;
      case DEREF_U:
        look([&] {
          int n = 0;
          for (auto& e : x) n += e.value().get();
          for (auto& e : cx) n += e.value().get();
          for (auto it = cx.begin(); it != cx.end(); it++) n += it->value().get();
          return n;
        });
        break;
      case COPY_CTOR: case COPY_CTOR_NC: {
        std::unique_ptr<C> copy;
        plain([&] { copy.reset(o.what == COPY_CTOR ? new C(cx) : new C(x)); });
        c = std::move(copy);  // go on with the copy
        break;
      }
      case COPY_TO: plain([&] { *other = cx; }); break;
      case COPY_FROM: plain([&] { *c = *other; }); break;
      case COPY_SELF: plain([&] { *c = cx; }); break;
      case MOVE_CTOR: {
        std::unique_ptr<C> moved;
        plain([&] { moved.reset(new C(std::move(*c))); });
        c = std::move(moved);
        break;
      }
      case SWAP: plain([&] { using std::swap; swap(*c, *other); }); break;
      case MONITOR: plain([&] { x.monitor(); }); break;
      case MONITOR_KEYS: {
        Key k3(3);
        plain([&] { x.monitor(k, k3); });
        break;
      }
      case MONITOR_ONE:
        if (x.is_monitoring()) plain([&] { x.stats().monitor(k); });
        break;
      case CALLBACKS: plain([&] { add_callbacks(x); }); break;
      case ADVANCE: vclock.now += o.k; break;
      default: bulk(o, res, arm); break;
    }
    return res;
  }
  void bulk(const Op& o, Result& res, bool arm) {
    using P = std::pair<Key, Value>;
    std::vector<P> p;
    p.reserve(4);
    for (auto& x : lists()[size_t(o.k)]) p.emplace_back(x.first, x.second);
    C& x = *c;
    auto look = [&](auto&& f) {
      Armed a(arm);
      res.code = int(f());
    };
    std::unique_ptr<C> made;
    auto with_list = [&](auto&& f) {
      if (p.size() == 2) {
        std::initializer_list<std::pair<const Key, Value>> l = {{p[0].first, p[0].second}, {p[1].first, p[1].second}};
        f(l);
      } else {
        std::initializer_list<std::pair<const Key, Value>> l = {
            {p[0].first, p[0].second}, {p[1].first, p[1].second}, {p[2].first, p[2].second}};
        f(l);
      }
    };
    switch (o.what) {
      case INSERT_IT: look([&] { return x.insert(p.begin(), p.end()); }); break;
      case INSERT_RANGE: look([&] { return x.insert(p); }); break;
      case INSERT_RV: look([&] { return x.insert(std::move(p)); }); break;
      case INSERT_IL: with_list([&](auto& l) { look([&] { return x.insert(l); }); }); break;
      case ASSIGN_RANGE: look([&] { x = p; return 0; }); break;
      case ASSIGN_RV: look([&] { x = std::move(p); return 0; }); break;
      case ASSIGN_IL: with_list([&](auto& l) { look([&] { x = l; return 0; }); }); break;
      case CTOR_IT: look([&] { made.reset(new C(T::make(2, p.begin(), p.end()))); return 0; }); break;
      case CTOR_RANGE: look([&] { made.reset(new C(T::make(3, p))); return 0; }); break;
      case CTOR_RV: look([&] { made.reset(new C(T::make(3, std::move(p)))); return 0; }); break;
      case CTOR_IL: with_list([&](auto& l) { look([&] { made.reset(new C(T::make(3, l))); return 0; }); }); break;
      default: fail("harness error: operation ", o.what);
    }
    if (made) {
      Ref n;
      n.cap = o.what == CTOR_IT ? 2 : 3;
      for (auto& y : lists()[size_t(o.k)]) n.insert(y.first, y.second);
      MC_CHECK(observe(*made) == n.e, "constructed ", show(observe(*made)), ", expected ", show(n.e));
    }
  }

  // What it does if nothing fails. Returns the expected code (-2: any).
  int model(const Op& o) {
    int v = 0;
    switch (o.what) {
      case CONTAINS: case CONTAINS_C: case FIND: case FIND_C:
        return r.lookup(o.k, v) ? 0 : -1;
      case LOOKUP: case LOOKUP_C: case SUB: case SUB_C:
        return r.lookup(o.k, v) ? v : -1;
      case INSERT: case EMPLACE_INT: case EMPLACE_MOVE: case EMPLACE_PW: {
        int i = r.find(o.k);
        bool dead = i >= 0 && r.dead(i);
        int n = r.insert(o.k, o.v);
        return dead ? -2 : n;
      }
      case ERASE: return r.erase(o.k);
      case ERASE_U: case ERASE_O: r.erase(o.k); return -2;
      case CLEAR: r.e.clear(); return -2;
      case SHRINK: r.shrink(size_t(o.k)); return -2;
      case CAPACITY:
        r.shrink(size_t(o.k));
        r.cap = size_t(o.k);
        return -2;
      case CLEAR_EXPIRED: {
        int n = 0;
        for (int i = int(r.e.size()) - 1; i >= 0; --i)
          if (r.dead(i)) {
            r.e.erase(r.e.begin() + i);
            ++n;
          }
        return n;
      }
      case ASSIGN_RANGE: case ASSIGN_IL: case ASSIGN_RV:
        r.e.clear();
        r.cap = std::max(r.cap, lists()[size_t(o.k)].size());
        // fall through
      case INSERT_IT: case INSERT_RANGE: case INSERT_IL: case INSERT_RV: {
        int n = 0;
        bool any = false;
        for (auto& x : lists()[size_t(o.k)]) {
          int i = r.find(x.first);
          any = any || (i >= 0 && r.dead(i));
          n += r.insert(x.first, x.second);
        }
        return any || o.what >= ASSIGN_RANGE ? -2 : n;
      }
      case DEREF: case DEREF_U:
        for (auto& x : r.e) v += 3 * x.v;
        return v;
      case COPY_TO: ro = r; return -2;
      case COPY_FROM: r = ro; return -2;
      case SWAP: std::swap(r, ro); return -2;
      default: return -2;
    }
  }

  // Is this a state a failed operation may leave the cache in?
  void check_failed(const Op& o, const Ref& before, const Ref& before_other) {
    const std::vector<E> now = observe(*c);
    MC_CHECK(observe(*other) == before_other.e, "the other cache changed from ", show(before_other.e), " to ",
             show(observe(*other)));
    MC_CHECK(other->capacity() == before_other.cap, "the capacity of the other cache changed");
    const auto& b = before.e;
    bool ok = true;
    bool same_capacity = true;
    const int i = before.find(o.k);
    // The value of key k may be the old one or the new one, at any position.
    auto updating = [](const std::vector<E>& b, const std::vector<E>& now, int k, int v) {
      if (without(now, k) != without(b, k) || now.size() != b.size()) return false;
      for (auto& x : now)
        if (x.k == k) {
          for (auto& y : b)
            if (y.k == k) return x.v == y.v || x.v == v;
        }
      return false;
    };
    switch (o.what) {
      case CONTAINS: case CONTAINS_C: case FIND: case FIND_C: case LOOKUP: case LOOKUP_C: case SUB: case SUB_C:
        ok = i < 0 ? now == b : updating(b, now, o.k, b[size_t(i)].v);
        break;
      case INSERT: case EMPLACE_INT: case EMPLACE_MOVE: case EMPLACE_PW:
        ok = i < 0 ? now == b : updating(b, now, o.k, o.v);
        break;
      case ERASE: case ERASE_U: case ERASE_O:
        ok = now == b || now == without(b, o.k);
        break;
      case CLEAR:
        ok = subsequence(now, b);
        break;
      case SHRINK: case CAPACITY: {
        same_capacity = o.what == SHRINK;
        ok = now.size() >= std::min(b.size(), size_t(o.k)) && now.size() <= b.size() &&
             std::equal(now.rbegin(), now.rend(), b.rbegin());
        MC_CHECK(c->capacity() == before.cap || (!same_capacity && c->capacity() == size_t(o.k)),
                 "the capacity is neither the old nor the new one");
        break;
      }
      case CLEAR_EXPIRED: {
        ok = subsequence(now, b);
        for (size_t j = 0; j < b.size(); ++j)
          if (!before.dead(int(j))) ok = ok && std::find(now.begin(), now.end(), b[j]) != now.end();
        break;
      }
      case INSERT_IT: case INSERT_RANGE: case INSERT_IL: case INSERT_RV:
      case ASSIGN_RANGE: case ASSIGN_IL: case ASSIGN_RV: {
        // Some of the pairs have been inserted.
        ok = false;
        Ref s = before;
        if (o.what >= ASSIGN_RANGE) {
          same_capacity = false;
          ok = now == s.e || subsequence(now, s.e);  // while clearing
          s.e.clear();
          s.cap = std::max(s.cap, lists()[size_t(o.k)].size());
        }
        for (auto& x : lists()[size_t(o.k)]) {
          ok = ok || now == s.e || (s.find(x.first) >= 0 && updating(s.e, now, x.first, x.second));
          s.insert(x.first, x.second);
        }
        ok = ok || now == s.e;
        break;
      }
      default:  // nothing may happen to the contents
        ok = now == b;
        break;
    }
    MC_CHECK(ok, WHAT_NAME[o.what], " failed and changed the entries from ", show(b), " to ", show(now));
    if (same_capacity) MC_CHECK(c->capacity() == before.cap, "the capacity changed");
    check_live();
  }

  // Goes on from what the cache shows.
  void adopt(const Ref& before) {
    Unarmed u;
    r.e = observe(*c);
    r.cap = c->capacity();
    for (auto& x : r.e) {
      int i = before.find(x.k);
      x.t = i < 0 ? vclock.now : before.e[size_t(i)].t;
      if (T::timed && i >= 0) {
        bool dead = T::expired(*c, x.k);
        if (dead != (vclock.now - x.t > TTL)) {
          MC_CHECK(!dead, "an entry has expired by itself");
          x.t = vclock.now;
        } else if (x.v != before.e[size_t(i)].v) {
          x.t = vclock.now;
        }
      } else if (T::timed) {
        MC_CHECK(!T::expired(*c, x.k), "a new entry has expired");
      }
    }
  }

  // An operation that has to succeed.
  void must(const Op& o) {
    Result res = run(o, false);
    int expected = res.undefined ? -2 : model(o);
    MC_CHECK(expected == -2 || res.code == expected, WHAT_NAME[o.what], " of ", o.k, " returned ", res.code,
             ", expected ", expected);
    auto now = observe(*c);
    MC_CHECK(now == r.e, "after ", WHAT_NAME[o.what], " of ", o.k, ": ", show(now), ", expected ", show(r.e));
    MC_CHECK(c->capacity() == r.cap, "capacity ", c->capacity(), ", expected ", r.cap);
    check_live();
  }

  // Everything still works.
  void finish() {
    for (int k = 0; k < KEYS; ++k) must({CONTAINS, k});
    for (int k = 0; k < KEYS; ++k) must({LOOKUP, k});
    for (int k = 10; k < 13; ++k) must({INSERT, k, 4});
    must({EMPLACE_INT, 11, 5});
    must({ERASE, 11});
    must({INSERT, 11, 6});
    for (int k : {12, 11, 10, 3, 2, 1, 0}) must({ERASE, k});
    MC_CHECK(c->size() == 0, "not empty at the end");
  }
  void end() {
    c.reset();
    other.reset();
    MC_CHECK(Key::live == 0 && Value::live == 0, Key::live, " keys and ", Value::live, " values are leaked");
  }
  ~World() { g_armed = false; }
};

static std::string name(const Op& o) { return str(WHAT_NAME[o.what], " ", o.k, " ", o.v); }

static std::vector<Op> prelude_ops(bool timed) {
  std::vector<Op> o;
  for (int k = 0; k < 3; ++k) o.push_back({INSERT, k, 1});
  o.push_back({CONTAINS, 0});
  o.push_back({LOOKUP, 1});
  o.push_back({ERASE, 0});
  o.push_back({CAPACITY, 1});
  if (timed) o.push_back({ADVANCE, 6});
  else o.push_back({SHRINK, 1});
  return o;
}
static std::vector<Op> faulted_ops(bool timed) {
  std::vector<Op> o;
  for (int w = CONTAINS; w <= SUB_C; ++w)
    for (int k : {0, 1, 3}) o.push_back({w, k});
  for (int w = INSERT; w <= EMPLACE_PW; ++w)
    for (int k : {0, 1, 2, 3}) o.push_back({w, k, 2});
  for (int w = ERASE; w <= CONVERT_IT; ++w)
    for (int k : {0, 1, 2}) o.push_back({w, k});
  o.push_back({CLEAR});
  for (int n : {0, 1, 2}) o.push_back({SHRINK, n});
  for (int n : {0, 1, 2, 3}) o.push_back({CAPACITY, n});
  if (timed) o.push_back({CLEAR_EXPIRED});
  for (int w = INSERT_IT; w <= ASSIGN_RV; ++w)
    for (int l : {0, 1, 2})
      if (!(l == 2 && (w == INSERT_IL || w == ASSIGN_IL))) o.push_back({w, l});
  for (int w = DEREF; w <= SWAP; ++w) o.push_back({w});
  for (int w = CTOR_IT; w <= CTOR_IL; ++w)
    for (int l : {0, 1}) o.push_back({w, l});
  for (int w : {MONITOR, MONITOR_KEYS, MONITOR_ONE, CALLBACKS}) o.push_back({w, 1});
  return o;
}
static std::vector<Op> second_ops(bool timed) {
  std::vector<Op> o = {{CONTAINS, 0}, {FIND, 1}, {LOOKUP_C, 1}, {INSERT, 0, 2}, {INSERT, 1, 2}, {INSERT, 3, 2},
                       {EMPLACE_INT, 1, 2}, {EMPLACE_MOVE, 3, 2}, {ERASE, 0}, {ERASE, 1}, {ERASE_O, 1}, {CLEAR},
                       {SHRINK, 1}, {CAPACITY, 1}, {CAPACITY, 3}, {INSERT_IL, 1}, {INSERT_RV, 2}, {ASSIGN_RANGE, 2},
                       {COPY_CTOR}, {COPY_TO}, {COPY_FROM}, {SWAP}, {DEREF}};
  if (timed) o.push_back({CLEAR_EXPIRED});
  return o;
}
static std::vector<Op> later_ops(bool timed) {
  std::vector<Op> o;
  for (int k : {0, 1, 2, 3}) o.push_back({INSERT, k, 3});
  for (int k : {0, 1, 3}) o.push_back({CONTAINS, k});
  for (int k : {0, 1, 3}) o.push_back({ERASE, k});
  o.push_back({EMPLACE_INT, 3, 3});
  o.push_back({COPY_CTOR});
  o.push_back({COPY_FROM});
  o.push_back({CAPACITY, 3});
  o.push_back({CLEAR});
  if (timed) o.push_back({ADVANCE, 11});
  if (timed) o.push_back({CLEAR_EXPIRED});
  return o;
}

// Some histories that leave the cache in interesting states.
static std::vector<std::vector<Op>> some_histories(bool timed) {
  return {{{INSERT, 0, 1}, {INSERT, 1, 1}, {LOOKUP, 0}},
          {{INSERT, 2, 1}, {INSERT, 0, 1}, {timed ? ADVANCE : CONTAINS, timed ? 6 : 2}, {INSERT, 1, 1}, {timed ? ADVANCE : FIND, timed ? 6 : 1}},
          {{INSERT, 0, 1}, {INSERT, 1, 1}, {ERASE, 1}},
          {{INSERT, 1, 1}, {CAPACITY, 1}}};
}

// A history, an operation that fails at every possible place, later operations.
template <class T>
static void faults(std::string jobname, bool loaded, int before_depth, int after_depth, bool twice, int parts) {
  const auto pre = prelude_ops(T::timed), ops = faulted_ops(T::timed), later = later_ops(T::timed);
  const auto second = second_ops(T::timed);
  const auto some = some_histories(T::timed);
  search_job(
      jobname, parts,
      [=](Chooser& ch, Ctx& ctx) {
        Key::live = Value::live = 0;
        const size_t cap = ch.choose(2) ? 3 : 2;
        std::vector<Op> history;
        if (before_depth > 0) {
          history.push_back(pre[0]);
          for (int d = 1; d < before_depth; ++d) history.push_back(pre[size_t(ch.choose(int(pre.size())))]);
        } else {
          history = some[size_t(ch.choose(-before_depth))];
        }
        const Op op = ops[size_t(ch.choose(int(ops.size())))];
        ch.split();
        std::vector<Op> after;
        for (int d = 0; d < after_depth; ++d)
          after.push_back(twice ? second[size_t(ch.choose(int(second.size())))] : later[size_t(ch.choose(int(later.size())))]);
        if (verbose) {
          say("capacity ", cap, loaded ? ", statistics and callbacks" : "");
          for (auto& o : history) say(name(o));
          say(name(op), "   <- fails at every place in turn");
          for (auto& o : after) say(name(o), twice ? "   <- fails as well" : "");
        }
        // One failing operation; false if there are not so many places.
        auto failing = [&](World<T>& w, const Op& o, long target) {
          const Ref b = w.r, bo = w.ro;
          g_target = target;
          g_fired = false;
          bool thrown = false;
          try {
            w.undefined = w.run(o, true).undefined;
          } catch (Boom&) {
            thrown = true;
          } catch (std::bad_alloc&) {
            thrown = true;
          }
          g_armed = false;
          if (!thrown) {
            MC_CHECK(!g_fired, name(o), ": an exception got lost");
            if (!w.undefined) w.model(o);
            auto now = World<T>::observe(*w.c);
            MC_CHECK(now == w.r.e, "after ", name(o), ": ", show(now), ", expected ", show(w.r.e));
            return false;
          }
          if (verbose) say("  ", name(o), ": ", KIND_NAME[g_kind], " fails at place ", target, g_sticky ? " and on" : "",
                           ": ", show(World<T>::observe(*w.c)));
          // What the preparation of the operation has moved.
          Ref base = b;
          if (o.what == ERASE_U || o.what == ERASE_O || o.what == CONVERT_IT) base = w.r;
          w.check_failed(o, base, bo);
          w.adopt(base);
          return true;
        };
        for (int sticky = 0; sticky < 2; ++sticky)
          for (long n = 1;; ++n) {
            g_sticky = sticky;
            beat();
            ++ctx.evaluations;
            {
              World<T> w(cap, loaded);
              for (auto& o : history) w.must(o);
              if (!failing(w, op, n)) break;
              ++ctx.nontrivial;
              if (!twice) {
                for (auto& o : after) w.must(o);
                w.finish();
                w.end();
                continue;
              }
            }
            for (long m = 1;; ++m) {
              World<T> x(cap, loaded);
              for (auto& o : history) x.must(o);
              failing(x, op, n);
              ++ctx.evaluations;
              bool fired = failing(x, after[0], m);
              if (fired) ++ctx.nontrivial;
              x.finish();
              x.end();
              if (!fired) break;
            }
          }
        --ctx.evaluations;
      },
      str(before_depth > 0 ? str("histories of ", before_depth, " operations, ") : str(-before_depth, " histories, "), ops.size(), " operations failing at every place (once, and from there on), ",
          after_depth, twice ? " more operations failing at every place" : " later operations", ", capacities 2 and 3"));
}

// Every number of entries (rehashing): an operation that fails at every place.
template <class T>
static void grown(std::string jobname, int max_n, int parts) {
  std::vector<Op> ops = {{INSERT, 3, 2}, {EMPLACE_INT, 3, 2}, {EMPLACE_MOVE, 3, 2}, {COPY_CTOR}, {COPY_FROM}, {COPY_TO},
                         {INSERT, 100, 2}, {CONTAINS, 100}, {ERASE, 100}, {CAPACITY, 1}, {INSERT_RV, 2}, {ASSIGN_RANGE, 2}};
  if (T::timed) ops.push_back({CLEAR_EXPIRED});
  search_job(
      jobname, parts,
      [=](Chooser& ch, Ctx& ctx) {
        Key::live = Value::live = 0;
        const int n = 1 + ch.choose(max_n);
        const int room = ch.choose(2) ? 5 : 0;
        const Op op = ops[size_t(ch.choose(int(ops.size())))];
        ch.split();
        if (verbose) say(n, " entries, room for ", room, " more, ", name(op), "   <- fails at every place in turn");
        for (long at = 1;; ++at) {
          g_sticky = false;
          ++ctx.evaluations;
          beat();
          World<T> w(size_t(n + room), false);
          for (int i = 0; i < n; ++i) {
            if (T::timed && i == n / 2) vclock.now += TTL + 1;
            World<T>::put(*w.c, 100 + i, i);
            w.r.insert(100 + i, i);
          }
          const Ref before = w.r, before_other = w.ro;
          g_target = at;
          bool thrown = false;
          try {
            w.run(op, true);
          } catch (Boom&) {
            thrown = true;
          } catch (std::bad_alloc&) {
            thrown = true;
          }
          g_armed = false;
          MC_CHECK(thrown == g_fired, name(op), ": an exception got lost");
          if (thrown) {
            if (verbose) say("  ", KIND_NAME[g_kind], " fails at place ", at);
            w.check_failed(op, before, before_other);
            w.adopt(before);
            ++ctx.nontrivial;
          } else {
            w.model(op);
            auto now = World<T>::observe(*w.c);
            MC_CHECK(now == w.r.e, "after ", name(op), ": ", show(now), ", expected ", show(w.r.e));
          }
          w.must({INSERT, 2, 1});
          for (int i = 0; i < n; ++i) {
            int v;
            MC_CHECK(w.c->contains(Key(100 + i)) == w.r.lookup(100 + i, v), "key ", 100 + i, " afterwards");
          }
          w.must({EMPLACE_INT, 50, 1});
          w.must({CLEAR});
          w.finish();
          w.end();
          if (!thrown) break;
        }
        --ctx.evaluations;
      },
      str("every number of entries up to ", max_n, ", full or not, ", ops.size(), " operations failing at every place"));
}

// Wrapped functions.
template <bool Timed>
static void wrapped(std::string jobname, int depth) {
  search_job(
      jobname, 4,
      [=](Chooser& ch, Ctx& ctx) {
        Key::live = Value::live = 0;
        std::vector<int> args;
        for (int d = 0; d < depth; ++d) args.push_back(ch.choose(3));
        const int failing = ch.choose(depth);
        ch.split();
        for (int sticky = 0; sticky < 2; ++sticky)
          for (long n = 1;; ++n) {
            g_sticky = sticky;
            ++ctx.evaluations;
            bool thrown = false;
            {
              int calls = 0;
              auto f = [&](const Key& k) {
                Unarmed u;
                ++calls;
                return Value(k.get() * 10);
              };
              auto w = [&] {
                if constexpr (Timed) return LRU::timed_wrap(f, std::chrono::seconds(1), 2);
                else return LRU::wrap(f, 2);
              }();
              Ref m;
              m.cap = 2;
              for (int d = 0; d < depth; ++d) {
                const int a = args[size_t(d)];
                Key k(a);
                bool boom = false;
                int before = calls, got = -1;
                try {
                  typename World<Untimed<0>>::Armed arm(d == failing);
                  g_target = n;
                  if (d != failing) g_armed = false;
                  got = w(k).get();
                } catch (Boom&) {
                  boom = true;
                } catch (std::bad_alloc&) {
                  boom = true;
                }
                g_armed = false;
                MC_CHECK(k.get() == a, "the argument was modified");
                MC_CHECK(boom == (d == failing && g_fired), "an exception got lost");
                int v;
                if (boom) {
                  thrown = true;
                  say("call with ", a, " fails: ", KIND_NAME[g_kind], " at place ", n);
                  // What is cached now? The other argument still is.
                  MC_CHECK(calls <= before + 1, "called twice");
                  // (Unless the result was stored, and only returning it failed.)
                  const bool evicts = m.find(a) < 0 && m.e.size() == m.cap;
                  for (int i = int(m.e.size()) - 1; i >= int(evicts); --i) {
                    Key other(m.e[size_t(i)].k);
                    if (other.get() == a) continue;
                    int c0 = calls;
                    MC_CHECK(w(other).get() == other.get() * 10, "wrong result");
                    MC_CHECK(calls == c0, "a failed call made another result disappear");
                  }
                  break;
                }
                MC_CHECK(got == a * 10, "wrong result");
                bool hit = m.lookup(a, v);
                if (!hit) m.insert(a, a * 10);
                MC_CHECK(calls == before + !hit, "called ", calls - before, " times, expected ", !hit);
              }
              for (int a = 0; a < 3; ++a)
                for (int again = 0; again < 2; ++again) {
                  int c0 = calls;
                  Key k(a);
                  MC_CHECK(w(k).get() == a * 10, "wrong result afterwards");
                  MC_CHECK(!again || calls == c0, "a result is not cached afterwards");
                }
            }
            MC_CHECK(Key::live == 0 && Value::live == 0, "objects are leaked");
            if (!thrown) break;
            ++ctx.nontrivial;
          }
        --ctx.evaluations;
      },
      str("wrapped function, every history of ", depth, " calls, one failing at every place"));
}

void mc::register_jobs(bool thorough) {
  const bool more = thorough && !sanitized;
  // Negative: so many of some_histories().
  const int some = sanitized && !thorough ? -3 : -4;
#if VARIANT == 0
  if (!sanitized || thorough) faults<Untimed<0>>("plain", false, more ? 4 : 2, 1, false, 16);
  faults<Untimed<0>>("plain-some", false, some, 1, false, 16);
  grown<Untimed<0>>("grown", sanitized ? 14 : thorough ? 132 : 64, 8);
  if (!sanitized || thorough) faults<Untimed<0>>("plain-later", false, more ? 2 : -1, 2, false, 16);
  if (!sanitized || thorough) faults<Untimed<0>>("plain-twice", false, more ? 2 : -2, 1, true, 16);
#elif VARIANT == 1
  if (!sanitized || thorough) faults<Untimed<1>>("loaded", true, more ? 4 : 2, 1, false, 16);
  faults<Untimed<1>>("loaded-some", true, some, 1, false, 16);
  if (more) faults<Untimed<1>>("loaded-later", true, 2, 2, false, 16);
  if (more) faults<Untimed<1>>("loaded-twice", true, 2, 1, true, 16);
  wrapped<false>("wrapped", sanitized ? 3 : 4);
  wrapped<true>("wrapped-timed", sanitized ? 3 : 4);
#elif VARIANT == 2
  if (!sanitized || thorough) faults<TimedKind<0>>("timed", false, more ? 4 : 2, 1, false, 16);
  faults<TimedKind<0>>("timed-some", false, some, 1, false, 16);
  if (more) faults<TimedKind<0>>("timed-later", false, 2, 2, false, 16);
  grown<TimedKind<0>>("timed-grown", sanitized ? 5 : thorough ? 64 : 32, 8);
  if (!sanitized || thorough) faults<TimedKind<0>>("timed-twice", false, more ? 2 : -2, 1, true, 16);
#else
  if (!sanitized || thorough) faults<TimedKind<1>>("timed-loaded", true, more ? 3 : 2, 1, false, 16);
  faults<TimedKind<1>>("timed-loaded-some", true, some, 1, false, 16);
  if (more) faults<TimedKind<1>>("timed-loaded-twice", true, 2, 1, true, 16);
#endif
}
