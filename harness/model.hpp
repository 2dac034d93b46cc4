// The reference model: a plain, copyable description of what caches, their
// statistics, callbacks and held iterators are supposed to do. It shares no
// code with the library.
#pragma once
#include "mc.hpp"

namespace mc {

enum Kind : int {
  // lookups: a = key
  CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C,
  // lookups writing b through the result
  W_LOOKUP, W_SUB, W_FIND,
  // writes through iterators obtained by iterating (no lookup)
  W_UIT, W_OIT,
  // insertion: a = key, b = value
  INSERT, INSERT_T, EMPLACE, EMPLACE_L, EMPLACE_PW,
  // erasure: a = key
  ERASE, ERASE_U, ERASE_UC, ERASE_O, ERASE_OC,
  ERASE_SELF,  // the argument is the cache's own key object
  // a = new size
  CLEAR, SHRINK, CAPACITY,
  // time: a = nanoseconds / index of Cfg::times
  ADVANCE, CLEAR_EXPIRED, ALL_EXPIRED, HAS_EXPIRED,
  // whole caches; slot = destination, a = source
  COPY_ASSIGN, COPY_ASSIGN_NC, COPY_CTOR, COPY_CTOR_NC, MOVE_ASSIGN, MOVE_CTOR,
  SWAP_MEMBER, SWAP_FREE, REMAKE,
  // statistics of a cache
  MON_NEW, MON_KEY, MON_KEYS2, MON_SHARED, MON_SHARED_MOVE, MON_FROM, STOP,
  // statistics objects: a = key
  ST_MON, ST_UNMON, ST_UNMON_ALL, ST_RESET, ST_RESET_ALL,
  // the same on the shared object number b
  SO_MON, SO_UNMON, SO_UNMON_ALL, SO_RESET, SO_RESET_ALL,
  // callbacks
  CB_HIT, CB_MISS, CB_ACC, CB_CLR_HIT, CB_CLR_MISS, CB_CLR_ACC, CB_CLR_ALL,
  // held iterators: a = key (HOLD), then a = flavour
  HOLD, ERASE_HELD, W_HELD, DROP,
  // iteration as an operation of its own (must not change anything)
  ITERATE_O, ITERATE_U, ITERATE_BACK, DEREF_ALL, COMPARE,
  // range insertion: a = index of Cfg::lists
  INSERT_IT, INSERT_RANGE, INSERT_IL, INSERT_RV, ASSIGN_RANGE, ASSIGN_IL,
  ASSIGN_RV,
  NUM_KINDS
};

inline const char* kind_name(int k) {
  static const char* n[] = {
      "contains", "contains(const)", "find", "find(const)", "lookup",
      "lookup(const)", "operator[]", "operator[](const)", "lookup()=",
      "operator[]=", "find()->value=", "unordered iterator value=",
      "ordered iterator value=", "insert", "insert(temporaries)", "emplace",
      "emplace(lvalues)", "emplace(piecewise)", "erase(key)",
      "erase(unordered it)", "erase(unordered const it)", "erase(ordered it)",
      "erase(ordered const it)", "erase(own key object)", "clear", "shrink",
      "capacity", "advance clock", "clear_expired", "all_expired",
      "has_expired(key)", "= copy of slot", "= copy of non-const slot",
      "copy-construct from slot", "copy-construct from non-const slot",
      "= move of slot", "move-construct from slot", "swap(member) with slot",
      "swap(free) with slot", "make anew", "monitor()", "monitor(key)",
      "monitor(key,key+1)", "monitor(shared)", "monitor(move(shared))",
      "monitor(shared_stats of slot)", "stop_monitoring", "stats().monitor",
      "stats().unmonitor", "stats().unmonitor_all", "stats().reset_key",
      "stats().reset_all", "obj.monitor", "obj.unmonitor",
      "obj.unmonitor_all", "obj.reset_key", "obj.reset_all", "hit_callback",
      "miss_callback", "access_callback", "clear_hit_callbacks",
      "clear_miss_callbacks", "clear_access_callbacks", "clear_all_callbacks",
      "hold iterators to", "erase through held", "write through held",
      "drop held iterators", "iterate ordered", "iterate unordered",
      "iterate backwards", "dereference all", "compare with other slot",
      "insert(begin,end)", "insert(range)", "insert(initializer list)",
      "insert(rvalue range)", "= range", "= initializer list",
      "= rvalue range"};
  static_assert(sizeof n / sizeof *n == NUM_KINDS, "");
  return n[k];
}

struct Op {
  int kind = 0;
  int slot = 0;
  int64_t a = 0;
  int b = 0;
};

inline std::string op_str(const Op& o) {
  return str("c", o.slot, ".", kind_name(o.kind), "(", o.a, ",", o.b, ")");
}

// Codes for errors, in Outcome::r.
enum Err {
  E_NONE = 0,
  E_NOTFOUND = -1,
  E_EXPIRED = -2,
  E_INVALID = -3,
  E_CONVERSION = -4,
  E_EMPTY = -5,
  E_UNMONITORED = -6,
  E_NOTMONITORING = -7,
  E_OTHER = -90,
  // in the model only:
  E_LOOKUP = -50,    // KeyNotFound or KeyExpired
  ANY = -51,         // anything that is no error
};

struct Outcome {
  int r = 0;
  int x = 0, y = 0;
  bool operator==(const Outcome& o) const {
    return r == o.r && x == o.x && y == o.y;
  }
};

inline std::ostream& operator<<(std::ostream& s, const Outcome& o) {
  return s << "(" << o.r << "," << o.x << "," << o.y << ")";
}

inline bool matches(const Outcome& expected, const Outcome& got) {
  if (expected.r == E_LOOKUP) return got.r == E_NOTFOUND || got.r == E_EXPIRED;
  if (expected.r == ANY)
    return got.r >= 0 && got.x == expected.x && got.y == expected.y;
  return expected == got;
}

struct Event {
  int8_t type;  // 0 hit, 1 miss, 2 access
  int8_t id;
  int8_t slot = 0;
  int16_t key, val;
  bool operator==(const Event& o) const {
    return type == o.type && id == o.id && key == o.key && val == o.val;
  }
};

inline std::ostream& operator<<(std::ostream& s, const Event& e) {
  return s << (e.type == 0 ? "hit#" : e.type == 1 ? "miss#" : "access#")
           << int(e.id) << "(" << e.key << "," << e.val << ")";
}

template <class T, int N>
struct Vec {
  int n = 0;
  T d[N];
  T& operator[](int i) { return d[i]; }
  const T& operator[](int i) const { return d[i]; }
  int size() const { return n; }
  void push(const T& t) {
    if (n >= N) fail("harness error: Vec overflow");
    d[n++] = t;
  }
  void erase(int i) {
    for (int j = i; j + 1 < n; ++j) d[j] = d[j + 1];
    --n;
  }
  void clear() { n = 0; }
  T* begin() { return d; }
  T* end() { return d + n; }
  const T* begin() const { return d; }
  const T* end() const { return d + n; }
};

struct MEntry {
  int k, v;
  int64_t t;
  int serial;
};

struct MStats {
  long acc = 0, hits = 0;
  struct K {
    int k;
    long h, m;
  };
  Vec<K, 8> keys;
  K* find(int k) {
    for (auto& x : keys)
      if (x.k == k) return &x;
    return nullptr;
  }
};

// Everything that does not change along a history.
struct Cfg {
  int nkeys = 3, nvals = 2;
  int slots = 1;
  bool timed = false;
  int64_t cap[2] = {2, 2};
  int64_t ttl[2] = {0, 0};  // in ticks of the duration type (ns for double)
  // Expiry predicate: age in ns, ttl as given.
  bool (*expired)(int64_t age, int64_t ttl) = nullptr;
  bool stats = false;      // start with monitoring (key 0 monitored)
  bool callbacks = false;  // start with one callback of each kind
  std::vector<std::vector<std::pair<int, int>>> lists;
  std::vector<Op> ops;
  unsigned observe = 0;
  // Which keys are the same, depending on the functions of the cache.
  int (*canon)(int key, int funcs) = nullptr;
  // Ages above this are not distinguished as states (they must be expired).
  int64_t age_cap = INT64_MAX;
};

constexpr int MAXE = 12;
constexpr int64_t BIG = 1 << 20;

struct MCache {
  Vec<MEntry, MAXE> e;  // least recently used first
  int64_t cap = 0;
  int64_t ttl = 0;
  int stats = -1;
  int funcs = 0;  // which hash/equality functions it uses
  Vec<int8_t, 6> cb[3];
  int find(int k) const {
    for (int i = 0; i < e.n; ++i)
      if (e[i].k == k) return i;
    return -1;
  }
  void to_front(int i) {
    MEntry x = e[i];
    e.erase(i);
    e.push(x);
  }
};

struct MHold {
  int slot = -1;  // -1: nothing held (or the entry is gone)
  int serial = 0;
};

struct World {
  MCache c[2];
  Vec<MStats, 6> stats;
  int64_t now = 0;
  int next_serial = 1;
  int next_cb = 0;
  MHold hold;
  bool has_any_stats = false;
  Vec<Event, 64> events;  // of the last operation

  void init(const Cfg& g) {
    now = 0;
    for (int s = 0; s < 2; ++s) {
      c[s] = MCache();
      c[s].cap = g.cap[s];
      c[s].ttl = g.ttl[s];
      c[s].funcs = s;
      if (g.stats) {
        MStats st;
        st.keys.push({0, 0, 0});
        c[s].stats = stats.n;
        stats.push(st);
      }
      if (g.callbacks)
        for (int t = 0; t < 3; ++t) c[s].cb[t].push(next_cb++);
    }
  }

  bool expired(const Cfg& g, const MCache& m, const MEntry& e) const {
    return g.timed && g.expired(now - e.t, m.ttl);
  }

  void removed(int slot, const MEntry& e) {
    if (hold.slot == slot && hold.serial == e.serial) hold.slot = -1;
  }
  void remove(int slot, int i) {
    removed(slot, c[slot].e[i]);
    c[slot].e.erase(i);
  }

  static int same(const Cfg& g, const MCache& m, int64_t k) {
    return g.canon ? g.canon(int(k), m.funcs) : int(k);
  }

  // A lookup of the key: counts, calls back, and moves to the front.
  bool access(const Cfg& g, int slot, int k) {
    MCache& m = c[slot];
    k = same(g, m, k);
    int i = m.find(k);
    bool hit = i >= 0 && !expired(g, m, m.e[i]);
    if (m.stats >= 0) {
      MStats& st = stats[m.stats];
      ++st.acc;
      if (hit) ++st.hits;
      if (auto* x = st.find(k)) ++(hit ? x->h : x->m);
    }
    Event ev;
    ev.key = k;
    if (hit) {
      for (auto id : m.cb[0]) {
        ev.type = 0;
        ev.id = id;
        ev.val = m.e[i].v;
        events.push(ev);
      }
      m.to_front(i);
    } else {
      for (auto id : m.cb[1]) {
        ev.type = 1;
        ev.id = id;
        ev.val = 0;
        events.push(ev);
      }
    }
    for (auto id : m.cb[2]) {
      ev.type = 2;
      ev.id = id;
      ev.val = hit;
      events.push(ev);
    }
    return hit;
  }

  Outcome insert(const Cfg& g, int slot, int k, int v) {
    MCache& m = c[slot];
    k = same(g, m, k);
    if (m.cap == 0) return {0, -1, -1};
    int i = m.find(k);
    if (i >= 0) {
      bool ex = expired(g, m, m.e[i]);
      m.e[i].v = v;
      m.e[i].t = now;
      m.to_front(i);
      return {ex ? int(ANY) : 0, k, v};
    }
    if (m.e.n >= m.cap) remove(slot, 0);
    m.e.push({k, v, now, next_serial++});
    return {1, k, v};
  }

  void clear(int slot) {
    for (auto& e : c[slot].e) removed(slot, e);
    c[slot].e.clear();
  }

  Outcome insert_list(const Cfg& g, int slot, int list) {
    int n = 0;
    for (auto& p : g.lists[list])
      n += insert(g, slot, p.first, p.second).r == 1;
    return {n, 0, 0};
  }

  Outcome monitor(int slot, MStats st) {
    // Reuse the place of an object that no cache uses.
    for (int i = 0; i < stats.n; ++i) {
      if (i < reserved || c[0].stats == i || c[1].stats == i) continue;
      stats[i] = st;
      c[slot].stats = i;
      return {};
    }
    c[slot].stats = stats.n;
    stats.push(st);
    return {};
  }
  int reserved = 0;  // the first objects are held by the harness itself

  void copy(int dst, int src) {
    MCache x = c[src];
    clear(dst);
    c[dst] = x;
    for (auto& e : c[dst].e) e.serial = next_serial++;
  }

  bool enabled(const Cfg& g, const Op& o) const {
    const MCache& m = c[o.slot];
    switch (o.kind) {
      case W_UIT: case W_OIT: case ERASE_U: case ERASE_UC: case ERASE_O:
      case ERASE_OC: case HOLD: case ERASE_SELF:
        return m.find(same(g, m, o.a)) >= 0;
      case ERASE_HELD: case W_HELD: case DROP:
        return hold.slot == o.slot;
      case CB_HIT: return m.cb[0].n < 3;
      case CB_MISS: return m.cb[1].n < 3;
      case CB_ACC: return m.cb[2].n < 3;
      case INSERT_IT: case INSERT_RANGE: case INSERT_IL: case INSERT_RV:
        return true;
      case SO_MON: case SO_UNMON: case SO_UNMON_ALL: case SO_RESET:
      case SO_RESET_ALL:
        return o.b < reserved;
      // With an iterator held to it, a cache is not assigned to or moved (what
      // happens to iterators then is not promised).
      case COPY_ASSIGN: case COPY_ASSIGN_NC: case COPY_CTOR: case COPY_CTOR_NC:
      case REMAKE: case ASSIGN_RANGE: case ASSIGN_IL: case ASSIGN_RV:
        return hold.slot != o.slot;
      case MOVE_ASSIGN: case MOVE_CTOR: case SWAP_MEMBER: case SWAP_FREE:
        return hold.slot == -1;
      default: return true;
    }
  }

  Outcome apply(const Cfg& g, const Op& o) {
    MCache& m = c[o.slot];
    const int k = int(o.a);
    const int q = same(g, m, k);  // if it is a key
    events.clear();
    switch (o.kind) {
      case CONTAINS: case CONTAINS_C:
        return {access(g, o.slot, k) ? 1 : 0};
      case FIND: case FIND_C:
        if (!access(g, o.slot, k)) return {0};
        return {1, q, m.e[m.e.n - 1].v};
      case LOOKUP: case LOOKUP_C: case SUB: case SUB_C:
        if (!access(g, o.slot, k)) return {E_LOOKUP};
        return {1, m.e[m.e.n - 1].v};
      case W_LOOKUP: case W_SUB:
        if (!access(g, o.slot, k)) return {E_LOOKUP};
        m.e[m.e.n - 1].v = o.b;
        return {1};
      case W_FIND:
        if (!access(g, o.slot, k)) return {0};
        m.e[m.e.n - 1].v = o.b;
        return {1};
      case W_UIT: case W_OIT:
        m.e[m.find(q)].v = o.b;
        return {};
      case INSERT: case INSERT_T: case EMPLACE: case EMPLACE_L:
      case EMPLACE_PW:
        return insert(g, o.slot, k, o.b);
      case ERASE: {
        int i = m.find(q);
        if (i < 0) return {0};
        remove(o.slot, i);
        return {1};
      }
      case ERASE_SELF:
        remove(o.slot, m.find(q));
        return {1};
      case ERASE_U: case ERASE_UC: case ERASE_O: case ERASE_OC:
        remove(o.slot, m.find(q));
        return {};
      case CLEAR: clear(o.slot); return {};
      case SHRINK:
        while (m.e.n > o.a) remove(o.slot, 0);
        return {};
      case CAPACITY:
        while (m.e.n > o.a) remove(o.slot, 0);
        m.cap = o.a;
        return {};
      case ADVANCE: now += o.a; return {};
      case CLEAR_EXPIRED: {
        int n = 0;
        for (int i = 0; i < m.e.n;)
          if (expired(g, m, m.e[i])) {
            remove(o.slot, i);
            ++n;
          } else {
            ++i;
          }
        return {n};
      }
      case ALL_EXPIRED: {
        bool all = true;
        for (auto& e : m.e) all = all && expired(g, m, e);
        return {all};
      }
      case HAS_EXPIRED: {
        int i = m.find(q);
        return {i >= 0 && expired(g, m, m.e[i])};
      }
      case COPY_ASSIGN: case COPY_ASSIGN_NC:
        if (o.slot != o.a) copy(o.slot, k);
        return {};
      case COPY_CTOR: case COPY_CTOR_NC: copy(o.slot, k); return {};
      case MOVE_ASSIGN: case MOVE_CTOR: {
        // The source is reset by the harness afterwards.
        if (o.slot == o.a) return {};
        MCache moved = c[o.a];
        c[o.slot] = moved;
        fresh(g, k);
        return {};
      }
      case SWAP_MEMBER: case SWAP_FREE: {
        MCache t = c[o.slot];
        c[o.slot] = c[o.a];
        c[o.a] = t;
        return {};
      }
      case REMAKE: fresh(g, o.slot); return {};
      case MON_NEW: return monitor(o.slot, MStats());
      case MON_KEY: case MON_KEYS2: {
        MStats st;
        st.keys.push({k, 0, 0});
        if (o.kind == MON_KEYS2 && (k + 1) % g.nkeys != k)
          st.keys.push({(k + 1) % g.nkeys, 0, 0});
        return monitor(o.slot, st);
      }
      case MON_SHARED: case MON_SHARED_MOVE: m.stats = o.b; return {};
      case MON_FROM: m.stats = c[o.a].stats; return {};
      case STOP: m.stats = -1; return {};
      case ST_MON: case ST_UNMON: case ST_UNMON_ALL: case ST_RESET:
      case ST_RESET_ALL:
        if (m.stats < 0) return {E_NOTMONITORING};
        return edit(stats[m.stats], o.kind, k);
      case SO_MON: case SO_UNMON: case SO_UNMON_ALL: case SO_RESET:
      case SO_RESET_ALL:
        return edit(stats[o.b], o.kind - SO_MON + ST_MON, k);
      case CB_HIT: case CB_MISS: case CB_ACC:
        m.cb[o.kind - CB_HIT].push(next_cb++);
        return {};
      case CB_CLR_HIT: case CB_CLR_MISS: case CB_CLR_ACC:
        m.cb[o.kind - CB_CLR_HIT].clear();
        return {};
      case CB_CLR_ALL:
        for (auto& x : m.cb) x.clear();
        return {};
      case HOLD:
        hold = {o.slot, m.e[m.find(q)].serial};
        return {};
      case ERASE_HELD: {
        for (int i = 0; i < m.e.n; ++i)
          if (m.e[i].serial == hold.serial) {
            remove(o.slot, i);
            break;
          }
        return {};
      }
      case W_HELD:
        for (auto& e : m.e)
          if (e.serial == hold.serial) e.v = o.b;
        return {};
      case DROP: hold.slot = -1; return {};
      case ITERATE_O: case ITERATE_U: case ITERATE_BACK: case DEREF_ALL:
      case COMPARE:
        return {};
      case INSERT_IT: case INSERT_RANGE: case INSERT_IL: case INSERT_RV:
        return insert_list(g, o.slot, k);
      case ASSIGN_RANGE: case ASSIGN_IL: case ASSIGN_RV:
        clear(o.slot);
        m.cap = std::max<int64_t>(m.cap, int64_t(g.lists[k].size()));
        insert_list(g, o.slot, k);
        return {};
    }
    fail("harness error: unknown operation ", o.kind);
  }

  Outcome edit(MStats& st, int kind, int k) {
    auto* x = st.find(k);
    switch (kind) {
      case ST_MON:
        if (!x) st.keys.push({k, 0, 0});
        return {};
      case ST_UNMON:
        if (!x) return {E_UNMONITORED};
        st.keys.erase(int(x - st.keys.begin()));
        return {};
      case ST_UNMON_ALL: st.keys.clear(); return {};
      case ST_RESET:
        if (!x) return {E_UNMONITORED};
        x->h = x->m = 0;
        return {};
      default:
        for (auto& y : st.keys) y.h = y.m = 0;
        return {};
    }
  }

  // What the harness makes of a slot that has been moved from or remade.
  void fresh(const Cfg& g, int slot) {
    for (auto& e : c[slot].e) removed(slot, e);
    c[slot] = MCache();
    c[slot].cap = g.cap[slot];
    c[slot].ttl = g.ttl[slot];
    c[slot].funcs = slot;
  }

  // Two caches compare equal.
  bool equal(const Cfg& g, int a, int b) const {
    const MCache &x = c[a], &y = c[b];
    if (x.e.n != y.e.n) return false;
    for (int i = 0; i < x.e.n; ++i)
      if (x.e[i].k != y.e[i].k || x.e[i].v != y.e[i].v ||
          (g.timed && x.e[i].t != y.e[i].t))
        return false;
    return true;
  }

  // Canonical key of the state, for explicit-state search.
  std::string key(const Cfg& g) const {
    std::string s;
    auto put = [&](int64_t x) {
      while (x > 250 || x < 0) {
        s += char(251);
        int64_t low = x & 0xff;
        s += char(low);
        x = (x >> 8) & 0xffffffffffffffLL;
      }
      s += char(x);
    };
    int64_t oldest = now;
    for (int i = 0; i < g.slots; ++i)
      for (auto& e : c[i].e) oldest = std::min(oldest, e.t);
    for (int i = 0; i < g.slots; ++i) {
      put(c[i].cap);
      put(c[i].ttl);
      put(c[i].funcs);
      put(c[i].e.n);
      for (auto& e : c[i].e) {
        put(e.k);
        put(e.v);
        if (g.timed) put(std::min(now - e.t, g.age_cap));
        if (hold.slot == i) put(e.serial == hold.serial);
      }
      put(c[i].stats + 1);
      for (auto& x : c[i].cb) put(x.n);
    }
    put(hold.slot + 1);
    // Statistics: which keys are monitored; counters capped.
    for (auto& st : stats) {
      put(st.keys.n);
      for (auto& x : st.keys) {
        put(x.k);
        put(std::min<long>(x.h, 2));
        put(std::min<long>(x.m, 2));
      }
      put(std::min<long>(st.acc, 3));
      put(std::min<long>(st.hits, 3));
    }
    return s;
  }
};

}  // namespace mc
