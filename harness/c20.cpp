// C20: custom hash and key equality decide key identity everywhere.
// VARIANTS: 8
// SAN: 0 2 4
#include "sweep.hpp"
using namespace mc;

// A key that can be spelled in many ways. Its operator== is not the equality
// the caches are given: it is finer (compares the spelling), coarser, or takes
// no key to be equal to any, not even to itself.
enum { FINER, COARSER, NEVER };
template <int Op>
struct Spelled {
  int id;
  int spelling;
  bool operator==(const Spelled& o) const {
    return Op == COARSER || (Op == FINER && id == o.id && spelling == o.spelling);
  }
  bool operator!=(const Spelled& o) const { return !(*this == o); }
  bool operator<(const Spelled& o) const { return spelling < o.spelling; }
};
namespace std {
template <int Op>
struct hash<Spelled<Op>> {  // not the one the caches are given either
  size_t operator()(const Spelled<Op>& k) const { return Op == COARSER ? 0 : size_t(k.id * 1000 + k.spelling); }
};
}  // namespace std

// Number 0 tells all keys apart, number 1 takes keys 0 and 1 for the same.
static int canonical(int k, int funcs) {
  return funcs == 1 && k == 1 ? 0 : k;
}
// How the hash function spreads the keys.
enum { COLLIDE, SPREAD };
template <class K, int How>
struct StatefulHash {
  int number;
  explicit StatefulHash(int n = 7) : number(n) {}
  size_t operator()(const K& k) const {
    return How == COLLIDE ? 7 : size_t(canonical(k.id, number)) * 11 + size_t(number) * 1000003;
  }
};
template <class K>
struct StatefulEqual {
  int number;
  explicit StatefulEqual(int n = 7) : number(n) {}
  bool operator()(const K& a, const K& b) const {
    return canonical(a.id, number) == canonical(b.id, number);
  }
};

// How keys are spelled when they are mentioned again.
enum { ALWAYS_NEW, ALTERNATE };
static int g_spelling = 0;


template <class Base, int Op, int Spelling>
struct SpelledBase : Base {
  using K = Spelled<Op>;
  static K mk(int i) {
    ++g_spelling;
    return K{i, Spelling == ALWAYS_NEW ? g_spelling : g_spelling % 2};
  }
  static int ki(const K& k) { return k.id; }
  static int mv(int i) { return i; }
  static int vi(int v) { return v; }
  template <class C>
  static int funcs(const C& c) {
    return c.hash_function().number == c.key_equal().number ? c.hash_function().number : 99;
  }
  template <class C>
  static int canon(const C& c, int k) { return canonical(k, c.key_equal().number); }
};
template <int Op, int How, int Spelling>
struct SpelledTraits
    : SpelledBase<TraitsBase<Spelled<Op>, int, StatefulHash<Spelled<Op>, How>, StatefulEqual<Spelled<Op>>>, Op, Spelling> {
  using C = typename SpelledTraits::Cache;
  static C* make(const Cfg& g, int slot) {
    if (slot == 0) g_spelling = 0;
    return new C(size_t(g.cap[slot]), StatefulHash<Spelled<Op>, How>(slot), StatefulEqual<Spelled<Op>>(slot));
  }
};
template <int Op, int How, int Spelling>
struct TimedSpelledTraits
    : SpelledBase<TimedTraitsBase<Spelled<Op>, int, Ns, StatefulHash<Spelled<Op>, How>, StatefulEqual<Spelled<Op>>>, Op, Spelling> {
  using C = typename TimedSpelledTraits::Cache;
  static C* make(const Cfg& g, int slot) {
    if (slot == 0) g_spelling = 0;
    return new C(Ns(g.ttl[slot]), size_t(g.cap[slot]), StatefulHash<Spelled<Op>, How>(slot),
                 StatefulEqual<Spelled<Op>>(slot));
  }
};

// Functions that are pointers, or std::functions, of one type whatever they do.
template <int Number>
static size_t hash_number(const Spelled<FINER>& k) {
  return size_t(canonical(k.id, Number)) * 11 + size_t(Number) * 1000003;
}
template <int Number>
static bool equal_number(const Spelled<FINER>& a, const Spelled<FINER>& b) {
  return canonical(a.id, Number) == canonical(b.id, Number);
}
using HashPointer = size_t (*)(const Spelled<FINER>&);
using EqualPointer = bool (*)(const Spelled<FINER>&, const Spelled<FINER>&);
static int number_of(HashPointer h) {
  return h == hash_number<0> ? 0 : h == hash_number<1> ? 1 : 99;
}
static int number_of(EqualPointer e) {
  return e == equal_number<0> ? 0 : e == equal_number<1> ? 1 : 98;
}
static int number_of(const std::function<size_t(const Spelled<FINER>&)>& h) {
  return h && h.target<HashPointer>() ? number_of(*h.target<HashPointer>()) : 99;
}
static int number_of(const std::function<bool(const Spelled<FINER>&, const Spelled<FINER>&)>& e) {
  return e && e.target<EqualPointer>() ? number_of(*e.target<EqualPointer>()) : 98;
}
template <class Base>
struct PointedTraits : SpelledBase<Base, FINER, ALWAYS_NEW> {
  using C = typename Base::Cache;
  static int funcs(const C& c) {
    const int n = number_of(c.hash_function());
    return n == number_of(c.key_equal()) ? n : 99;
  }
  static int canon(const C& c, int k) { return canonical(k, number_of(c.key_equal())); }
  static C* make(const Cfg& g, int slot) {
    if (slot == 0) g_spelling = 0;
    return make(g, slot, slot ? hash_number<1> : hash_number<0>, slot ? equal_number<1> : equal_number<0>,
                std::integral_constant<bool, Base::timed>());
  }
  static C* make(const Cfg& g, int slot, HashPointer h, EqualPointer e, std::false_type) {
    return new C(size_t(g.cap[slot]), h, e);
  }
  static C* make(const Cfg& g, int slot, HashPointer h, EqualPointer e, std::true_type) {
    return new C(Ns(g.ttl[slot]), size_t(g.cap[slot]), h, e);
  }
};
using HashStd = std::function<size_t(const Spelled<FINER>&)>;
using EqualStd = std::function<bool(const Spelled<FINER>&, const Spelled<FINER>&)>;

template <class T>
static void identity(bool thorough, bool small, std::string pre = "") {
  Cfg g;
  g.lists = {{}, {{1, 1}, {0, 0}}, {{2, 0}, {0, 1}, {2, 1}}, {{0, 1}, {1, 0}, {2, 1}, {0, 0}}};
  g.canon = canonical;
  g.timed = T::timed;
  g.expired = expired_ns;
  g.ttl[0] = g.ttl[1] = 10;
  g.cap[0] = g.cap[1] = 2;
  g.nkeys = 3;
  g.nvals = 2;
  g.age_cap = 11;
  g.observe = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT | O_FUNCS | P_LOOKUP;
  const bool less = small || sanitized;
  auto no_compare = [&] {
    g.ops.erase(std::remove_if(g.ops.begin(), g.ops.end(), [](const Op& o) { return o.kind == COMPARE; }), g.ops.end());
  };
  auto time = [&](int slots) {
    if (T::timed) add(g.ops, Ops(3, 1, slots).plain({CLEAR_EXPIRED, ALL_EXPIRED}).k({HAS_EXPIRED}));
    if (T::timed) g.ops.push_back({ADVANCE, 0, 11, 0});
  };
  // One cache of either kind: with the functions of slot 0 and of slot 1.
  g.slots = 2;
  g.nvals = 1;
  g.ops = everything(3, 2);
  no_compare();
  time(2);
  tree_job<T>(pre + "tree-all", g, thorough && !less ? 3 : 2, 16);
  g.nvals = 2;
  // Histories over two caches with different functions.
  g.ops = Ops(3, 1, 2).k({CONTAINS, INSERT, LOOKUP_C, ERASE}).between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, MOVE_CTOR, SWAP_MEMBER, SWAP_FREE});
  if (T::timed) g.ops.push_back({ADVANCE, 0, 11, 0});
  tree_job<T>(pre + "two", g, 3 + (thorough && !less ? 1 : 0), 16);
  std::vector<Op> l = Ops(3, 1, 2).k({CONTAINS, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C, FIND, CONTAINS_C, ERASE, INSERT, EMPLACE});
  std::vector<Op> moves = Ops(1, 1, 2).between({COPY_ASSIGN, COPY_CTOR, MOVE_ASSIGN, MOVE_CTOR, SWAP_MEMBER, SWAP_FREE});
  std::vector<Op> setup = Ops(3, 1, 2).k({INSERT});
  staged_job<T>(pre + "moved", g, setup, {l, moves, l}, 8, 0, 0, (less ? 1 : 2) + (thorough ? 1 : 0));
  staged_job<T>(pre + "moved-twice", g, setup, {moves, moves, l}, 8, 0, 0, less ? 2 : 50);
  if (thorough) staged_job<T>(pre + "moved-twice-2", g, setup, {moves, moves, l, l}, 8, 0, 0, less ? 1 : 4);
  // Histories over one.
  g.slots = 1;
  g.cap[0] = 3;
  g.ops = Ops(3, 1).k({CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C, INSERT, EMPLACE, ERASE, ERASE_SELF});
  if (T::timed) g.ops.push_back({ADVANCE, 0, 11, 0});
  tree_job<T>(pre + "one", g, (less ? 3 : 4) + (thorough && !sanitized ? 1 : 0), 8);
  g.cap[0] = 2;
  g.ops = everything(3);
  no_compare();
  time(1);
  bfs_job<T>(pre + "bfs", g, thorough && !less ? 1 : 0, 30, 8);
}

// The functions given at construction, by every constructor that takes them.
template <class C, class... First>
static std::unique_ptr<C> construct(int how, int number, const std::vector<std::pair<Spelled<FINER>, int>>& v,
                                    First... first) {
  using K = Spelled<FINER>;
  using P = std::pair<K, int>;
  typename C::InitializerList il{};
  (void)il;
  StatefulHash<K, SPREAD> h(number);
  StatefulEqual<K> e(number);
  auto copy = v;
  std::list<P> l(v.begin(), v.end());
  std::unique_ptr<C> c;
  switch (how) {
    case 0: c.reset(new C(first..., size_t(9), h, e)); c->insert(v.begin(), v.end()); break;
    case 1: c.reset(new C(first..., size_t(9), v.begin(), v.end(), h, e)); break;
    case 2: c.reset(new C(first..., v.begin(), v.end(), h, e)); break;
    case 3: c.reset(new C(first..., size_t(9), copy, h, e)); break;
    case 4: c.reset(new C(first..., copy, h, e)); break;
    case 5: c.reset(new C(first..., size_t(9), std::move(copy), h, e)); break;
    case 6: c.reset(new C(first..., std::move(copy), h, e)); break;
    case 7: c.reset(new C(first..., std::initializer_list<P>{v[0], v[1], v[2], v[3]}, h, e)); break;
    case 8: c.reset(new C(first..., size_t(9), std::initializer_list<P>{v[0], v[1], v[2], v[3]}, h, e)); break;
    default: c.reset(new C(first..., l.begin(), l.end(), h, e)); break;
  }
  return c;
}
template <class C, class... First>
static void constructors(Chooser& ch, Ctx& ctx, First... first) {
  using K = Spelled<FINER>;
  const int how = ch.choose(10);
  const int number = ch.choose(2);
  std::vector<std::pair<K, int>> v;
  for (int i = 0; i < 4; ++i) v.emplace_back(K{ch.choose(3), i}, i);
  auto c = construct<C>(how, number, v, first...);
  // Then copied, moved, swapped, or used as it is.
  std::unique_ptr<C> d;
  StatefulHash<K, SPREAD> h(1 - number);
  StatefulEqual<K> e(1 - number);
  const int then = ch.choose(7);
  switch (then) {
    case 0: d = std::move(c); break;
    case 1: d.reset(new C(*c)); break;
    case 2: d.reset(new C(std::move(*c))); break;
    case 3: d.reset(new C(first..., size_t(1), h, e)); *d = *c; break;
    case 4: d.reset(new C(first..., size_t(1), h, e)); *d = std::move(*c); break;
    case 5: d.reset(new C(first..., size_t(1), h, e)); d->swap(*c); break;
    default: {
      using std::swap;
      d.reset(new C(first..., size_t(1), h, e));
      swap(*d, *c);
      break;
    }
  }
  std::map<int, int> m;
  for (auto& p : v) m[canonical(p.first.id, number)] = p.second;
  auto check = [&](C& x, int n, const char* what) {
    MC_CHECK(x.hash_function().number == n && x.key_equal().number == n, what, ": hash_function() and key_equal() are number ",
             x.hash_function().number, " and ", x.key_equal().number, ", expected ", n);
  };
  check(*d, number, "the cache");
  if (then == 1 || then == 3) check(*c, number, "the original");
  if (then >= 5) check(*c, 1 - number, "the other");
  MC_CHECK(d->size() == m.size(), "the cache has ", d->size(), " entries, expected ", m.size());
  for (int k = 0; k < 3; ++k)
    for (int pass = 0; pass < 3; ++pass) {
      auto it = m.find(canonical(k, number));
      bool found = d->contains(K{k, 100 + pass});
      MC_CHECK(found == (it != m.end()), "contains(", k, ") is ", found);
      if (found) MC_CHECK(d->lookup(K{k, 200 + pass}) == it->second, "lookup(", k, ") gives a wrong value");
    }
  MC_CHECK(!d->insert(v[0].first, 77).was_inserted() && d->lookup(v[0].first) == 77, "updating fails");
  for (int k = 0; k < 3; ++k) {
    bool erased = d->erase(K{k, 300});
    MC_CHECK(erased == (m.erase(canonical(k, number)) == 1), "erase(", k, ") gives ", erased);
  }
  MC_CHECK(d->is_empty(), "not empty at the end");
  ctx.states += 1;
  ctx.transitions += 20;
}

// Sizes, with all keys colliding or spread over few buckets.
template <int M>
struct ModHash {
  size_t operator()(int k) const { return size_t(k % M); }
};

void mc::register_jobs(bool thorough) {
  const bool t = thorough;
  const unsigned see = O_SIZE | O_ORDER | O_UNORD | O_VALUES | O_RESULT;
#if VARIANT == 0
  identity<SpelledTraits<FINER, SPREAD, ALWAYS_NEW>>(t, false);
#elif VARIANT == 1
  identity<SpelledTraits<COARSER, COLLIDE, ALTERNATE>>(t, false);
#elif VARIANT == 2
  identity<TimedSpelledTraits<FINER, SPREAD, ALWAYS_NEW>>(t, true);
#elif VARIANT == 3
  identity<TimedSpelledTraits<COARSER, COLLIDE, ALWAYS_NEW>>(t, true);
#elif VARIANT == 4
  using K = Spelled<FINER>;
  using H = StatefulHash<K, SPREAD>;
  using E = StatefulEqual<K>;
  search_job("constructors", 2, [](Chooser& ch, Ctx& c) { constructors<LRU::Cache<K, int, H, E>>(ch, c); },
             "10 constructors, 2 functions, all lists of 4 of 3 keys, 7 ways to copy, move and swap");
  search_job("constructors-timed", 2, [](Chooser& ch, Ctx& c) {
    constructors<LRU::TimedCache<K, int, Ms, H, E>>(ch, c, Ms(1000));
  }, "10 constructors, 2 functions, all lists of 4 of 3 keys, 7 ways to copy, move and swap");
#elif VARIANT == 5
  identity<SpelledTraits<NEVER, SPREAD, ALTERNATE>>(t, true);
  identity<TimedSpelledTraits<NEVER, COLLIDE, ALTERNATE>>(t, true, "timed-");
#elif VARIANT == 7
  identity<PointedTraits<TraitsBase<Spelled<FINER>, int, HashPointer, EqualPointer>>>(t, true, "pointers-");
  identity<PointedTraits<TimedTraitsBase<Spelled<FINER>, int, Ns, HashStd, EqualStd>>>(t, true, "std-function-");
#else
  sweep_job<HashTraits<ConstHash>>("sizes-all-collide", t ? 120 : 50, t ? 120 : 20, 8, see, {128, 129});
  sweep_job<HashTraits<ModHash<3>>>("sizes-three-buckets", t ? 120 : 50, t ? 120 : 20, 8, see, {128, 129, 257});
  sweep_job<HashTraits<FarHash>>("sizes-far", t ? 120 : 50, t ? 120 : 20, 8, see, {128, 129, 257});
#endif
}
