// C22: single-key operations cost a constant number of hash computations (and
// key comparisons, and copies of entries); none for the key accessed last.
// VARIANTS: 2
// MODES: opt
#include "traits.hpp"
using namespace mc;

struct Counts {
  long hash = 0, std_hash = 0, equal = 0, moved = 0;
};
static Counts g_counts;
static int g_way;  // how hashes are spread

struct CKey {
  int id;
  CKey(int i = -1) : id(i) {}
  CKey(const CKey& o) : id(o.id) { ++g_counts.moved; }
  CKey& operator=(const CKey& o) {
    id = o.id;
    ++g_counts.moved;
    return *this;
  }
  bool operator==(const CKey& o) const {
    ++g_counts.equal;
    return id == o.id;
  }
};
struct CVal {
  int id;
  CVal(int i = -1) : id(i) {}
  CVal(const CVal& o) : id(o.id) { ++g_counts.moved; }
  CVal& operator=(const CVal& o) {
    id = o.id;
    ++g_counts.moved;
    return *this;
  }
  bool operator==(const CVal& o) const { return id == o.id; }
  bool operator!=(const CVal& o) const { return id != o.id; }
};
struct CHash {
  size_t operator()(const CKey& k) const {
    ++g_counts.hash;
    return g_way ? size_t(k.id) * 0x9e3779b97f4a7c15ull : size_t(k.id);
  }
};
namespace std {
template <>
struct hash<CKey> {  // used by statistics
  size_t operator()(const CKey& k) const {
    ++g_counts.std_hash;
    return size_t(k.id) * 31;
  }
};
}  // namespace std

struct Untimed {
  using C = LRU::Cache<CKey, CVal, CHash>;
  static constexpr bool timed = false;
  static C* make(size_t cap) { return new C(cap); }
};
struct Timed {
  using C = LRU::TimedCache<CKey, CVal, Ms, CHash>;
  static constexpr bool timed = true;
  static C* make(size_t cap) { return new C(Ms(1000), cap); }
};

// Generous: what matters is that they do not depend on the size.
static constexpr long MAX_HASH = 8, MAX_EQUAL = 12, MAX_MOVED = 14;

static void check_counts(const char* what, int n, long each = 1) {
  Counts c = g_counts;
  if (c.hash > MAX_HASH * each || c.std_hash > MAX_HASH * each)
    fail(what, " computes ", c.hash, " hashes (and ", c.std_hash, " for statistics) in a cache of ", n, " entries");
  if (c.equal > MAX_EQUAL * each) fail(what, " compares keys ", c.equal, " times in a cache of ", n, " entries");
  if (c.moved > MAX_MOVED * each)
    fail(what, " copies keys and values ", c.moved, " times in a cache of ", n, " entries");
}

// n entries; the key at position p (0: least recently used) is returned.
template <class T>
static std::unique_ptr<typename T::C> build(int n, int p, int extra, int& key, int monitor) {
  using C = typename T::C;
  vclock.now = 1000000000;
  std::unique_ptr<C> c(T::make(size_t(n + extra)));
  if (monitor) {
    c->monitor(CKey(0));
    c->hit_callback([](const CKey&, const CVal&) {});
    c->miss_callback([](const CKey&) {});
    c->access_callback([](const CKey&, bool) {});
  }
  for (int i = 0; i < n; ++i) c->emplace(i, i);
  key = p;
  return c;
}

static const char* names[] = {
    "contains", "const contains", "find", "const find", "lookup", "const lookup", "operator[]", "const operator[]",
    "insert (present)", "emplace (present)", "emplace (piecewise, present)", "insert (new)", "emplace (new)",
    "erase(key)", "erase(unordered iterator)", "erase(ordered iterator)", "erase(unordered const iterator)",
    "erase(ordered const iterator)", "shrink by one", "capacity less by one", "contains (absent)", "find (absent)",
    "lookup (absent)", "erase (absent)", "capacity more by one", "begin and dereference", "ordered_begin and dereference",
    "end, back by one", "conversion to an ordered iterator", "is_valid", "move construction", "move assignment",
    "swap", "free swap", "front and back or expiry", "size and capacity", "erase and insert again",
    "shared statistics", "update through find", "returned iterator"};
static constexpr int OPERATIONS = sizeof names / sizeof *names;

template <class T>
static void perform(std::unique_ptr<typename T::C>& c, int op, int key, int n) {
  using C = typename T::C;
  const C& cc = *c;
  CKey k(key), absent(100000), absent2(100001);
  CVal v(7);
  std::unique_ptr<C> other;
  typename C::UnorderedIterator u = c->unordered_begin();
  typename C::OrderedIterator o = c->ordered_begin();
  for (int i = 0; i < key; ++i) ++o;  // entries are in the order of insertion
  while (u != c->end() && u->first.id != key) ++u;
  typename C::UnorderedConstIterator uc = u;
  typename C::OrderedConstIterator oc = o;
  if (op == 31 || op == 32 || op == 33) {
    other.reset(T::make(5));
    for (int i = 0; i < 5; ++i) other->emplace(i, i);
  }
  g_counts = Counts();
  switch (op) {
    case 0: c->contains(k); break;
    case 1: cc.contains(k); break;
    case 2: c->find(k); break;
    case 3: cc.find(k); break;
    case 4: c->lookup(k); break;
    case 5: cc.lookup(k); break;
    case 6: (*c)[k]; break;
    case 7: cc[k]; break;
    case 8: c->insert(k, v); break;
    case 9: c->emplace(k, v); break;
    case 10: c->emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(3)); break;
    case 11: c->insert(absent, v); break;
    case 12: c->emplace(100000, 3); break;
    case 13: c->erase(k); break;
    case 14: c->erase(u); break;
    case 15: c->erase(o); break;
    case 16: c->erase(uc); break;
    case 17: c->erase(oc); break;
    case 18: c->shrink(size_t(n - 1)); break;
    case 19: c->capacity(size_t(n - 1)); break;
    case 20: c->contains(absent); break;
    case 21: c->find(absent); break;
    case 22:
      try {
        c->lookup(absent);
      } catch (const LRU::Error::KeyNotFound&) {
      }
      break;
    case 23: c->erase(absent); break;
    case 24: c->capacity(size_t(n + 5)); break;
    case 25: {
      auto it = c->begin();
      (void)it->second;
      (void)(*it).first;
      break;
    }
    case 26: {
      auto it = c->ordered_begin();
      (void)it->second;
      (void)(*it).second;
      break;
    }
    case 27: {
      auto it = c->ordered_end();
      --it;
      (void)it->second;
      break;
    }
    case 28: {
      typename C::OrderedIterator x(u);
      (void)x->second;
      break;
    }
    case 29:
      c->is_valid(u);
      cc.is_valid(oc);
      break;
    case 30: {
      std::unique_ptr<C> d(new C(std::move(*c)));
      check_counts("move construction", n);
      c = std::move(d);
      break;
    }
    case 31: *other = std::move(*c); break;
    case 32: c->swap(*other); break;
    case 33: {
      using std::swap;
      swap(*c, *other);
      break;
    }
    case 34:
      if constexpr (T::timed) {
        c->has_expired(k);
        c->has_expired(u);
      } else {
        c->front();
        c->back();
      }
      break;
    case 35: (void)(c->size() + c->capacity() + c->space_left() + c->is_full() + c->is_empty()); break;
    case 36:
      c->erase(k);
      c->insert(k, v);
      break;
    case 37: {
      auto s = std::make_shared<LRU::Statistics<CKey>>();
      c->monitor(s);
      c->contains(k);
      break;
    }
    case 38: {
      auto it = c->find(k);
      it->second.id = 4;
      break;
    }
    default: {
      auto r = c->insert(k, v);
      (void)r.iterator()->second;
      break;
    }
  }
  check_counts(names[op], n, op == 36 ? 2 : 1);
}

static std::vector<int> sizes(bool thorough, int& all) {
  all = thorough ? 60 : 20;
  std::vector<int> s;
  for (int n = 1; n <= (thorough ? 300 : 70); ++n) s.push_back(n);
  for (int n : {97, 127, 128, 129, 130, 257, 541, 1000}) s.push_back(n);
  if (thorough)
    for (int n : {1109, 1500, 2357, 5000, 10007}) s.push_back(n);
  return s;
}
static int position(Chooser& ch, int n, int all) {
  if (n <= all) return ch.choose(n);
  const int at[] = {0, 1, n / 3, n / 2, n - 2, n - 1};
  return at[ch.choose(6)];
}

template <class T>
static void single(Chooser& ch, Ctx& ctx) {
  int all;
  auto s = sizes(ctx.thorough && !sanitized, all);
  const int n = s[size_t(ch.choose(int(s.size())))];
  const int op = ch.choose(OPERATIONS);
  ch.split();
  g_way = ch.choose(2);
  const int extra = ch.flag() ? 3 : 0;
  const int monitor = ch.choose(2);
  const int p = position(ch, n, all);
  int key;
  auto c = build<T>(n, p, extra, key, monitor);
  switch (ch.choose(3)) {  // what was accessed last
    case 0: break;
    case 1: c->contains(CKey(n - 1)); break;
    default: c->contains(CKey(100000)); break;
  }
  say("  ", names[op], " at position ", p, " of ", n, " entries, room for ", extra);
  perform<T>(c, op, key, n);
  ctx.states += 1;
  ctx.transitions += 1;
  ctx.nontrivial += 1;
  if (ctx.evaluations % 9973 == 1) ctx.sample(str(names[op], " at position ", p, " of ", n));
}

// Steps through all entries cost a constant each.
template <class T>
static void iteration(Chooser& ch, Ctx& ctx) {
  using C = typename T::C;
  int all;
  auto s = sizes(ctx.thorough && !sanitized, all);
  const int n = s[size_t(ch.choose(int(s.size())))];
  const int how = ch.choose(5);
  ch.split();
  int key;
  auto c = build<T>(n, 0, 0, key, ch.choose(2));
  const C& cc = *c;
  g_counts = Counts();
  auto step = [&] {
    check_counts("a step of an iteration", n);
    g_counts = Counts();
  };
  switch (how) {
    case 0:
      for (auto it = c->begin(); it != c->end(); ++it) (void)it->second, step();
      break;
    case 1:
      for (auto it = cc.begin(); it != cc.end(); ++it) (void)(*it).value(), step();
      break;
    case 2:
      for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it) (void)it->second, step();
      break;
    case 3:
      for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it) (void)(*it).value(), step();
      break;
    default: {
      auto it = c->ordered_end();
      while (it != c->ordered_begin()) {
        --it;
        (void)it->second;
        step();
      }
      break;
    }
  }
  ctx.states += 1;
  ctx.transitions += uint64_t(n);
  ctx.nontrivial += 1;
}

// The key accessed last.
template <class T>
static void again(Chooser& ch, Ctx& ctx) {
  using C = typename T::C;
  int all;
  auto s = sizes(ctx.thorough && !sanitized, all);
  const int n = s[size_t(ch.choose(int(s.size())))];
  const int first = ch.choose(15);
  ch.split();
  g_way = ch.choose(2);
  const int extra = ch.flag() ? 3 : 0;
  const int monitor = ch.choose(2);
  const int p = position(ch, n, all);
  int key;
  auto c = build<T>(n, p, extra, key, monitor);
  const C& cc = *c;
  const bool fresh = first == 8 || first == 10;  // inserts a new key
  CKey k(fresh ? 100000 : key);
  if (ch.flag()) c->contains(CKey(n / 2));
  g_counts = Counts();
  switch (first) {
    case 0: c->contains(k); break;
    case 1: cc.contains(k); break;
    case 2: c->lookup(k); break;
    case 3: cc.lookup(k); break;
    case 4: (*c)[k]; break;
    case 5: cc[k]; break;
    case 6: c->find(k); break;
    case 7: cc.find(k); break;
    case 8: case 9: c->insert(k, CVal(3)); break;
    case 10: case 11: c->emplace(k, CVal(3)); break;
    case 12: c->find(k)->second.id = 5; break;
    case 13: c->lookup(k).id = 6; break;
    default: (*c)[k] = CVal(8); break;
  }
  const bool lookup = first < 6 || first >= 13;
  if (lookup) MC_CHECK(g_counts.hash <= 1, names[std::min(first, 4)], " of a present key computes ", g_counts.hash, " hashes");
  const int second = ch.choose(6);
  const int third = ch.choose(7);
  say("  size ", n, ", position ", p, ": access ", first, ", then ", second, ", then ", third);
  for (int a : {second, third}) {
    g_counts.hash = 0;
    switch (a) {
      case 0: c->contains(k); break;
      case 1: cc.contains(k); break;
      case 2: c->lookup(k); break;
      case 3: cc.lookup(k); break;
      case 4: (*c)[k]; break;
      case 5: cc[k]; break;
      default: break;
    }
    MC_CHECK(g_counts.hash == 0, "accessing the key accessed last again computes ", g_counts.hash, " hashes [", n,
             " entries, position ", p, ", access ", first, ", then ", a, "]");
  }
  ctx.states += 1;
  ctx.transitions += 3;
  ctx.nontrivial += 1;
}

// Tuples of keys, hashed by the library itself, as wrapped functions use them.
template <size_t... I>
static auto key_tuple(int i, int position, int base, std::index_sequence<I...>) {
  auto digit = [&](int at) {
    if (position < int(sizeof...(I))) return at == position ? i : 7;
    int d = i;
    while (at-- > 0) d /= base;
    return d % base;
  };
  return std::make_tuple(CKey(digit(int(I)))...);
}

template <class F, class Tuple, size_t... I>
static auto std_apply(F& f, const Tuple& t, std::index_sequence<I...>) {
  return f(std::get<I>(t)...);
}

template <size_t N>
static void tuples_of(Chooser& ch, Ctx& ctx, bool wrapped) {
  const auto indices = std::make_index_sequence<N>();
  using Key = decltype(key_tuple(0, 0, 2, indices));
  static const int sizes[] = {1, 16, 100, 1000};
  const int n = sizes[ch.choose(4)];
  const int position = ch.choose(int(N) + 1);  // the one that differs, or all of them
  int base = 2;
  while (std::pow(base, N) < n) ++base;
  std::vector<Key> keys;
  for (int i = 0; i < n; ++i) keys.push_back(key_tuple(i, position, base, indices));
  auto check = [&](const char* what) {
    const long each = long(N) * n;
    // Equal hashes are no error as such, hence only all keys together count.
    if (g_counts.std_hash > MAX_HASH * each)
      fail(what, " computes ", g_counts.std_hash / n, " hashes for ", N, " elements");
    if (g_counts.equal > MAX_EQUAL * each)
      fail(what, " compares elements ", g_counts.equal / n, " times per key of ", N, " elements, in a cache of ", n,
           " entries");
    g_counts = Counts();
    ctx.transitions += uint64_t(n);
  };
  ++ctx.states;
  if (wrapped) {
    long calls = 0;
    auto f = LRU::wrap(
        [&](const auto&... a) {
          ++calls;
          int sum = 0;
          (void)std::initializer_list<int>{sum = sum * 31 + a.id...};
          return sum;
        },
        size_t(n));
    auto call = [&](const Key& k) { return std_apply(f, k, indices); };
    std::vector<int> results;
    g_counts = Counts();
    for (auto& k : keys) results.push_back(call(k));
    check("calling a wrapped function");
    for (int i = 0; i < n; ++i)
      if (call(keys[size_t(i)]) != results[size_t(i)]) fail("a wrapped function gives another result");
    check("calling a wrapped function again");
    if (calls != n) fail("a wrapped function was called ", calls, " times for ", n, " different arguments");
    return;
  }
  LRU::Cache<Key, int> c(static_cast<size_t>(n));
  g_counts = Counts();
  for (int i = 0; i < n; ++i) c.insert(keys[size_t(i)], i);
  check("insert");
  if (c.size() != size_t(n)) fail(n, " different tuples were inserted, the size is ", c.size());
  for (auto& k : keys) c.contains(k);
  check("contains");
  for (int i = 0; i < n; ++i)
    if (c.lookup(keys[size_t(i)]) != i) fail("lookup gives a wrong value for a tuple");
  check("lookup");
  for (int i = 0; i < n; ++i) c.emplace(keys[size_t(i)], i + 1);
  check("emplace (present)");
  int absent = 0;
  for (int i = 0; i < n; ++i) absent += c.contains(key_tuple(i + 5000, 0, base, indices)) ? 0 : 1;
  check("contains (absent)");
  if (absent != n) fail("contains finds tuples that were never inserted");
  for (auto& k : keys) c.erase(k);
  check("erase");
  if (!c.is_empty()) fail("erase left something behind");
}

static void tuples(Chooser& ch, Ctx& ctx) {
  const bool wrapped = ch.flag();
  switch (ch.choose(5)) {
    case 0: return tuples_of<1>(ch, ctx, wrapped);
    case 1: return tuples_of<2>(ch, ctx, wrapped);
    case 2: return tuples_of<3>(ch, ctx, wrapped);
    case 3: return tuples_of<4>(ch, ctx, wrapped);
    default: return tuples_of<5>(ch, ctx, wrapped);
  }
}

void mc::register_jobs(bool) {
#if VARIANT == 0
  using T = Untimed;
#else
  using T = Timed;
#endif
  search_job("single", 8, single<T>,
             "every size up to 70 and some up to 1000 (thorough: 300 and 10007), every operation, every position (else "
             "6), full or not, monitored or not, 2 hash functions");
  search_job("iteration", 2, iteration<T>, "the same sizes, 5 ways to iterate");
  if (!T::timed)
    search_job("tuples", 1, tuples,
               "tuples of 1 to 5 elements, all or any one of them different, 4 sizes, as keys and as arguments of a "
               "wrapped function");
  search_job("again", 8, again<T>, "the same sizes and positions, every access followed by every two others");
}
