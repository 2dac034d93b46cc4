// C21: arguments are forwarded faithfully.
// VARIANTS: 6
#include "traits.hpp"
using namespace mc;

// A source a key or value can be constructed from.
struct Src {
  int id;
};
struct Movable {  // cannot be copied
  int id;
  explicit Movable(int i) : id(i) {}
  Movable(Movable&& o) : id(o.id) { o.id = -1; }
};
enum { INT = 1, PAIR, NOTHING, LV, CLV, RV, MOVABLE, CRV, FOUR };

// Remembers what it was constructed from; counts copies and moves.
template <int Tag>
struct Arg {
  inline static int copies = 0, moves = 0, live = 0;
  int id;
  int how;
  Arg() : id(0), how(NOTHING) { ++live; }
  explicit Arg(int i) : id(i), how(INT) { ++live; }
  Arg(int a, int b) : id(2 * a + b), how(PAIR) { ++live; }
  Arg(Src&& a, const Src& b, int c, int&& d) : id(8 * a.id + 4 * b.id + 2 * c + d), how(FOUR) {
    a.id = -1;
    d = -1;
    ++live;
  }
  explicit Arg(Src& s) : id(s.id), how(LV) { ++live; }
  explicit Arg(const Src& s) : id(s.id), how(CLV) { ++live; }
  explicit Arg(Src&& s) : id(s.id), how(RV) {
    s.id = -1;
    ++live;
  }
  explicit Arg(const Src&& s) : id(s.id), how(CRV) { ++live; }
  explicit Arg(Movable m) : id(m.id), how(MOVABLE) { ++live; }
  Arg(const Arg& o) : id(o.id), how(o.how) {
    ++copies;
    ++live;
  }
  Arg(Arg&& o) : id(o.id), how(o.how) {
    o.id = -1;
    o.how = -1;
    ++moves;
    ++live;
  }
  Arg& operator=(const Arg& o) {
    id = o.id;
    how = o.how;
    ++copies;
    return *this;
  }
  Arg& operator=(Arg&& o) {
    int i = o.id, h = o.how;
    if (this != &o) o.id = o.how = -1;
    id = i;
    how = h;
    ++moves;
    return *this;
  }
  ~Arg() {
    id = -2;
    how = -2;
    --live;
  }
  bool operator==(const Arg& o) const { return id == o.id; }
  bool operator!=(const Arg& o) const { return id != o.id; }
};
using AKey = Arg<0>;
using AVal = Arg<1>;
namespace std {
template <int Tag>
struct hash<Arg<Tag>> {
  size_t operator()(const Arg<Tag>& a) const { return size_t(a.id); }
};
}  // namespace std

static void reset_counts() {
  AKey::copies = AKey::moves = AVal::copies = AVal::moves = 0;
}

struct Untimed {
  using C = LRU::Cache<AKey, AVal>;
  static constexpr bool timed = false;
  static C* make(size_t cap) { return new C(cap); }
};
struct Timed {
  using C = LRU::TimedCache<AKey, AVal, Ns>;
  static constexpr bool timed = true;
  static C* make(size_t cap) { return new C(Ns(10), cap); }
};

struct E {
  int k, khow, v, vhow;
};
struct World21 {
  std::vector<E> e;  // least recently used first
  size_t cap = 0;
  int find(int k) const {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].k == k) return int(i);
    return -1;
  }
  void use(int k) {
    int i = find(k);
    std::rotate(e.begin() + i, e.begin() + i + 1, e.end());
  }
  std::string show() const {
    std::string s = "[";
    for (auto& x : e) s += str(s.size() > 1 ? " " : "", x.k, "/", x.khow, ":", x.v, "/", x.vhow);
    return s + "]";
  }
};

template <class C>
static void compare(C& c, const World21& w) {
  const C& cc = c;
  std::string got = "[";
  int n = 0;
  for (auto it = cc.ordered_begin(); it != cc.ordered_end() && n < 50; ++it, ++n) {
    got += str(got.size() > 1 ? " " : "", it->first.id, "/", it->first.how, ":", it->second.id, "/", it->second.how);
  }
  got += "]";
  MC_CHECK(got == w.show(), "the cache holds ", got, ", expected ", w.show());
  MC_CHECK(cc.size() == w.e.size(), "size() is ", cc.size(), ", expected ", w.e.size());
  size_t i = 0;
  for (auto it = cc.begin(); it != cc.end(); ++it, ++i) {
    int at = w.find(it->first.id);
    MC_CHECK(at >= 0 && w.e[size_t(at)].v == it->second.id, "unordered iteration gives ", it->first.id, ":",
             it->second.id, " unexpectedly, expected ", w.show());
  }
  MC_CHECK(i == w.e.size(), "unordered iteration gives ", i, " entries");
}

// Contents: keys 0, .., n - 1 with values 20, .., with some order of use and
// something accessed last.
template <class T>
static std::unique_ptr<typename T::C> build(Chooser& ch, World21& w, int max_cap) {
  using C = typename T::C;
  vclock.now = 1000000000;
  const int cap = ch.choose(max_cap + 1);
  const int n = ch.choose(cap + 1);
  std::unique_ptr<C> c(T::make(size_t(cap)));
  w.cap = size_t(cap);
  for (int i = 0; i < n; ++i) {
    c->emplace(i, 20 + i);
    w.e.push_back({i, INT, 20 + i, INT});
  }
  // What was used, and how the last access was left.
  const int use = ch.choose(n + 1);
  if (use < n) {
    c->contains(AKey(use));
    w.use(use);
  }
  if (ch.flag()) c->contains(AKey(99));
  if (T::timed && ch.flag()) vclock.now += 11;  // all have expired
  return c;
}

// ----------------------------------------------------------------- arguments
// What is passed for the key or the value: calls f(tuple of references).
enum Kind {
  A_LV, A_CLV, A_RV, A_CRV, A_INT, A_SLV, A_SCLV, A_SRV, A_MOVABLE, A_STORED, A_STORED_C, A_STORED_RV, A_PAIR,
  A_NOTHING, A_FOUR, A_LAST
};
static const char* arg_name(int k) {
  static const char* t[] = {"lvalue", "const lvalue", "rvalue", "const rvalue", "int", "source lvalue",
                            "const source lvalue", "source rvalue", "rvalue that cannot be copied",
                            "stored object", "stored object (const)", "stored object (moved)",
                            "two arguments", "no argument", "four arguments"};
  return t[k];
}
static int how_of(int kind, int stored_how) {
  switch (kind) {
    case A_LV: case A_CLV: case A_RV: case A_CRV: case A_INT: return INT;
    case A_SLV: return LV;
    case A_SCLV: return CLV;
    case A_SRV: return RV;
    case A_MOVABLE: return MOVABLE;
    case A_PAIR: return PAIR;
    case A_NOTHING: return NOTHING;
    case A_FOUR: return FOUR;
    default: return stored_how;
  }
}
// Not to be copied into a new entry.
static bool moved(int kind) {
  return kind == A_RV || kind == A_INT || kind == A_SRV || kind == A_MOVABLE || kind == A_STORED_RV;
}

template <class A>
struct Passed {
  int id;
  A object;
  Src src;
  Movable mov;
  A* stored;
  int stored_how;
  Passed(int i, A* s) : id(i), object(i), src{i}, mov(i), stored(s), stored_how(s ? s->how : 0) {}
  // After the call: lvalues are intact.
  void check(int kind, const char* what) const {
    if (kind == A_LV || kind == A_CLV || kind == A_CRV)
      MC_CHECK(object.id == id && object.how == INT, "the ", what, " passed as ", arg_name(kind), " was modified");
    if (kind == A_SLV || kind == A_SCLV)
      MC_CHECK(src.id == id, "the ", what, " source passed as ", arg_name(kind), " was modified");
  }
};

// Single arguments.
template <class A, class F>
static void with_single(int kind, Passed<A>& p, F f) {
  const A& c = p.object;
  const Src& s = p.src;
  const A& cs = p.stored ? *p.stored : p.object;
  switch (kind) {
    case A_LV: f(p.object); break;
    case A_CLV: f(c); break;
    case A_RV: f(std::move(p.object)); break;
    case A_CRV: f(std::move(c)); break;
    case A_INT: f(int(p.id)); break;
    case A_SLV: f(p.src); break;
    case A_SCLV: f(s); break;
    case A_SRV: f(std::move(p.src)); break;
    case A_MOVABLE: f(std::move(p.mov)); break;
    case A_STORED: f(*p.stored); break;
    case A_STORED_C: f(cs); break;
    case A_STORED_RV: f(std::move(*p.stored)); break;
    default: fail("harness error: kind ", kind);
  }
}
// Objects of the type itself (what insert takes).
template <class A, class F>
static void with_object(int kind, Passed<A>& p, F f) {
  const A& c = p.object;
  const A& cs = p.stored ? *p.stored : p.object;
  switch (kind) {
    case A_LV: f(p.object); break;
    case A_CLV: f(c); break;
    case A_RV: f(std::move(p.object)); break;
    case A_CRV: f(std::move(c)); break;
    case A_STORED: f(*p.stored); break;
    case A_STORED_C: f(cs); break;
    case A_STORED_RV: f(std::move(*p.stored)); break;
    default: fail("harness error: kind ", kind);
  }
}
template <class A, class F>
static void with_tuple(int kind, Passed<A>& p, F f) {
  if (kind == A_PAIR) {
    int a = p.id / 2, b = p.id % 2;
    f(std::forward_as_tuple(std::move(a), b));
    MC_CHECK(b == p.id % 2, "an int passed as lvalue was modified");
  } else if (kind == A_FOUR) {
    Src a{p.id / 8}, b{p.id / 4 % 2};
    int c = p.id / 2 % 2, d = p.id % 2;
    f(std::forward_as_tuple(std::move(a), b, c, std::move(d)));
    MC_CHECK(b.id == p.id / 4 % 2 && c == p.id / 2 % 2, "an argument passed as lvalue was modified");
  } else if (kind == A_NOTHING) {
    f(std::tuple<>());
  } else {
    with_single(kind, p, [&](auto&& x) { f(std::forward_as_tuple(std::forward<decltype(x)>(x))); });
  }
}

enum { INSERT_, EMPLACE_, PIECEWISE_ };

template <class T, int Form>
static void insertion(Chooser& ch, Ctx& ctx) {
  using C = typename T::C;
  World21 w;
  auto c = build<T>(ch, w, ctx.thorough ? 8 : 4);
  ch.split();
  const int n = int(w.e.size());
  // The key: one that is present, or a new one.
  static const std::vector<int> objects{A_LV, A_CLV, A_RV, A_CRV, A_STORED, A_STORED_C, A_STORED_RV};
  static const std::vector<int> singles{A_LV, A_CLV, A_RV, A_CRV, A_INT, A_SLV, A_SCLV, A_SRV, A_MOVABLE,
                                        A_STORED, A_STORED_C, A_STORED_RV};
  static const std::vector<int> all{A_LV, A_CLV, A_RV, A_CRV, A_INT, A_SLV, A_SCLV, A_SRV, A_MOVABLE,
                                    A_STORED, A_STORED_C, A_STORED_RV, A_PAIR, A_NOTHING, A_FOUR};
  const std::vector<int>& kinds = Form == INSERT_ ? objects : Form == EMPLACE_ ? singles : all;
  const int kk = kinds[size_t(ch.choose(int(kinds.size())))];
  const int vk = kinds[size_t(ch.choose(int(kinds.size())))];
  if (kk == A_STORED_RV || kk == A_STORED) return;  // keys are const
  int target = ch.choose(n + 1);  // n: new
  if (kk == A_NOTHING) {  // constructs key 0
    if (target != 0) return;
  }
  if (kk == A_STORED_C && target == n) return;
  int donor = -1;
  if (vk == A_STORED || vk == A_STORED_C || vk == A_STORED_RV) {
    if (n == 0) return;
    donor = ch.choose(n);
  }
  int which = kk == A_STORED_C ? ch.choose(T::timed ? 2 : 4) : 0;

  // Pointers to stored objects.
  AKey* key = nullptr;
  AVal* value = nullptr;
  for (auto it = c->begin(); it != c->end(); ++it) {
    if (it->first.id == target) key = const_cast<AKey*>(&it->first);
    if (it->first.id == donor) value = &it->second;
  }
  if (which == 1) {
    auto it = c->ordered_begin();
    while (it->first.id != target) ++it;
    key = const_cast<AKey*>(&it->first);
  }
  if constexpr (!T::timed) {
    if (which == 2) {
      if (c->back().id != target) return;
      key = const_cast<AKey*>(&c->back());
    }
    if (which == 3) {
      if (c->front().id != target) return;
      key = const_cast<AKey*>(&c->front());
    }
  }
  const int vid = vk == A_NOTHING ? 0 : donor >= 0 ? 20 + donor : 30;
  Passed<AKey> pk(target, key);
  Passed<AVal> pv(vid, value);
  if (verbose)
    say("  ", Form == INSERT_ ? "insert" : Form == EMPLACE_ ? "emplace" : "piecewise emplace", " into ", w.show(),
        ", capacity ", w.cap, T::timed && vclock.now > 1000000000 ? ", expired" : "", "; key ", target, " as ",
        arg_name(kk), ", value ", vid, " as ", arg_name(vk));

  // What is expected.
  bool news = false, stored = false;
  if (w.cap > 0) {
    stored = true;
    int at = w.find(target);
    const int vhow = how_of(vk, pv.stored_how);
    if (vk == A_STORED_RV) {
      // The value it is taken from is left in whatever state.
      w.e[size_t(w.find(donor))].v = -1;
      w.e[size_t(w.find(donor))].vhow = -1;
    }
    if (at >= 0) {
      w.e[size_t(at)].v = vid;
      w.e[size_t(at)].vhow = vhow;
      w.use(target);
    } else {
      news = true;
      if (w.e.size() == w.cap) w.e.erase(w.e.begin());
      w.e.push_back({target, how_of(kk, pk.stored_how), vid, vhow});
    }
  }

  // Do it.
  bool inserted = false;
  int result_key = -1, result_value = -1;
  auto result = [&](auto r) {
    inserted = r.was_inserted();
    if (r.iterator() != c->end()) {
      result_key = r.iterator()->first.id;
      result_value = r.iterator()->second.id;
    }
  };
  reset_counts();
  int key_copies = 0, value_copies = 0;
  auto count = [&] {
    key_copies = AKey::copies;
    value_copies = AVal::copies;
  };
  if constexpr (Form == INSERT_) {
    with_object(kk, pk, [&](auto&& k) {
      with_object(vk, pv, [&](auto&& v) {
        auto r = c->insert(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v));
        count();
        result(r);
      });
    });
  } else if constexpr (Form == EMPLACE_) {
    with_single(kk, pk, [&](auto&& k) {
      with_single(vk, pv, [&](auto&& v) {
        auto r = c->emplace(std::forward<decltype(k)>(k), std::forward<decltype(v)>(v));
        count();
        result(r);
      });
    });
  } else {
    with_tuple(kk, pk, [&](auto&& k) {
      with_tuple(vk, pv, [&](auto&& v) {
        auto r = c->emplace(std::piecewise_construct, k, v);
        count();
        result(r);
      });
    });
  }
  // A value given away as an rvalue may be left in any state.
  if (stored && vk == A_STORED_RV && donor != target) {
    int d = w.find(donor);
    if (d >= 0) {
      w.e[size_t(d)].v = value->id;
      w.e[size_t(d)].vhow = value->how;
    }
  }
  if (!stored && vk == A_STORED_RV && n > 0) fail("harness error: entries without capacity");
  MC_CHECK(inserted == news, "was_inserted() is ", inserted, ", expected ", news);
  MC_CHECK(result_key == (stored ? target : -1) && result_value == (stored ? vid : -1),
           "the result refers to ", result_key, ":", result_value, ", expected ", stored ? target : -1, ":",
           stored ? vid : -1);
  compare(*c, w);
  pk.check(kk, "key");
  pv.check(vk, "value");
  if (news && Form != INSERT_) {
    if (moved(kk)) MC_CHECK(key_copies == 0, "the key passed as ", arg_name(kk), " was copied ", key_copies, " times");
    if (moved(vk))
      MC_CHECK(value_copies == 0, "the value passed as ", arg_name(vk), " was copied ", value_copies, " times");
  }
  // The cache goes on as usual.
  if (w.cap > 0) {
    c->emplace(40, 41);
    if (w.e.size() == w.cap) w.e.erase(w.e.begin());
    w.e.push_back({40, INT, 41, INT});
    compare(*c, w);
  }
  c.reset();
  MC_CHECK(AKey::live == 1 && AVal::live == 1, AKey::live, " keys and ", AVal::live, " values are alive, expected 1");
  ctx.nontrivial += 1;
  ctx.states += 1;
  ctx.transitions += uint64_t(n) + 2;
}

// Keys stored in the cache passed to everything else.
template <class T>
static void stored_keys(Chooser& ch, Ctx& ctx) {
  using C = typename T::C;
  World21 w;
  auto c = build<T>(ch, w, ctx.thorough ? 10 : 6);
  ch.split();
  const int n = int(w.e.size());
  if (n == 0) return;
  const bool expired = vclock.now > 1000000000;
  const int where = ch.choose(T::timed ? 3 : 5);
  const int target = ch.choose(n);
  const int op = ch.choose(13);
  const C& cc = *c;
  const AKey* key = nullptr;
  switch (where) {
    case 0:
      for (auto it = c->begin(); it != c->end(); ++it)
        if (it->first.id == target) key = &it->first;
      break;
    case 1:
      for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it)
        if (it->first.id == target) key = &it->first;
      break;
    case 2:
      for (auto it = cc.begin(); it != cc.end(); ++it)
        if ((*it).key().id == target) key = &(*it).key();
      break;
    default:
      if constexpr (!T::timed) {
        if (n == 0) return;
        key = where == 3 ? &c->front() : &c->back();
        if (key->id != target) return;
      }
      break;
  }
  say("  operation ", op, " on stored key ", target, " of ", w.show());
  reset_counts();
  bool removed = false, used = !expired;
  auto same = [&](int got, int e) { MC_CHECK(got == e, "the result is ", got, ", expected ", e); };
  auto looked = [&](auto f) {
    try {
      same(f().id, 20 + target);
      MC_CHECK(!expired, "the lookup of an expired key does not throw");
    } catch (const LRU::Error::KeyExpired&) {
      MC_CHECK(expired, "KeyExpired");
    } catch (const LRU::Error::KeyNotFound&) {
      MC_CHECK(expired, "KeyNotFound");
    }
  };
  switch (op) {
    case 0: same(c->contains(*key), !expired); break;
    case 1: same(cc.contains(*key), !expired); break;
    case 2: same(c->find(*key) != c->end(), !expired); break;
    case 3: same(cc.find(*key) != cc.end(), !expired); break;
    case 4: looked([&]() -> const AVal& { return c->lookup(*key); }); break;
    case 5: looked([&]() -> const AVal& { return cc.lookup(*key); }); break;
    case 6: looked([&]() -> const AVal& { return (*c)[*key]; }); break;
    case 7: looked([&]() -> const AVal& { return cc[*key]; }); break;
    case 8:
    case 9:
    case 10:
      if (op == 9 && !expired) c->contains(*key);  // accessed last
      if (op == 10) c->contains(AKey(0));
      if (op == 10 && !expired) w.use(0);
      same(c->erase(*key), true);
      removed = true;
      break;
    case 11: {  // monitored, then looked up
      c->monitor(*key);
      same(c->contains(*key), !expired);
      same(int(c->stats().accesses_for(AKey(target))), 1);
      c->stop_monitoring();
      break;
    }
    default: {  // a pair of references to a stored entry
      auto it = c->begin();
      while (it->first.id != target) ++it;
      std::pair<const AKey&, const AVal&> p(it->first, it->second);
      std::vector<std::pair<AKey, AVal>> l{{AKey(p.first), AVal(p.second)}};
      same(int(c->insert(l)), 0);
      used = true;
      break;
    }
  }
  if (removed)
    w.e.erase(w.e.begin() + w.find(target));
  else if (used)
    w.use(target);
  compare(*c, w);
  c.reset();
  MC_CHECK(AKey::live == 0 && AVal::live == 0, AKey::live, " keys and ", AVal::live, " values are alive");
  ctx.nontrivial += 1;
  ctx.states += 1;
  ctx.transitions += uint64_t(n) + 1;
}

// Ranges of pairs as lvalues and rvalues.
template <class T, class C, class L>
static C* construct(int how, size_t cap, L& l) {
  if constexpr (T::timed) {
    switch (how) {
      case 0: return new C(Ns(10), cap, l);
      case 1: return new C(Ns(10), l);
      case 2: return new C(Ns(10), cap, std::move(l));
      case 3: return new C(Ns(10), std::move(l));
      case 4: return new C(Ns(10), cap, l.begin(), l.end());
      default: return new C(Ns(10), l.begin(), l.end());
    }
  } else {
    switch (how) {
      case 0: return new C(cap, l);
      case 1: return new C(l);
      case 2: return new C(cap, std::move(l));
      case 3: return new C(std::move(l));
      case 4: return new C(cap, l.begin(), l.end());
      default: return new C(l.begin(), l.end());
    }
  }
}
template <class T>
static void ranges(Chooser& ch, Ctx& ctx) {
  using C = typename T::C;
  using P = std::pair<AKey, AVal>;
  World21 w;
  const int form = ch.choose(15);
  const int len = ch.choose(ctx.thorough ? 8 : 5);
  std::vector<int> ks;
  for (int i = 0; i < len; ++i) ks.push_back(ch.choose(4));
  ch.split();
  std::vector<P> l;
  for (int i = 0; i < len; ++i) l.emplace_back(AKey(ks[size_t(i)]), AVal(50 + i));
  const std::vector<P>& cl = l;
  std::unique_ptr<C> c;
  bool rvalue = form == 2 || form == 6 || form == 9 || form == 10;
  int updates = 0;
  size_t ret = 0, expected = 0;
  size_t cap = 0;
  const bool built = form < 8;
  if (built) c = build<T>(ch, w, 3);
  else if (form != 8 && form != 10 && form != 12 && form != 14) cap = size_t(ch.choose(4));
  say("  range form ", form, ", ", len, " pairs");
  // What is expected.
  if (form >= 4 && form < 8) {  // assignment
    w.e.clear();
    if (size_t(len) > w.cap) w.cap = size_t(len);
  } else if (!built) {
    w.cap = form == 8 || form == 12 ? std::max<size_t>(size_t(len), 128)
            : form == 10 || form == 14 ? size_t(len) : cap;
  }
  for (int i = 0; i < len; ++i) {
    if (w.cap == 0) break;
    int k = ks[size_t(i)];
    int at = w.find(k);
    if (at >= 0) {
      ++updates;
      w.e[size_t(at)].v = 50 + i;
      w.e[size_t(at)].vhow = INT;
      w.use(k);
    } else {
      ++expected;
      if (w.e.size() == w.cap) w.e.erase(w.e.begin());
      w.e.push_back({k, INT, 50 + i, INT});
    }
  }
  auto il = [&](auto f) {
    switch (len) {
      case 0: return f(std::initializer_list<P>{});
      case 1: return f(std::initializer_list<P>{l[0]});
      case 2: return f(std::initializer_list<P>{l[0], l[1]});
      case 3: return f(std::initializer_list<P>{l[0], l[1], l[2]});
      case 4: return f(std::initializer_list<P>{l[0], l[1], l[2], l[3]});
      case 5: return f(std::initializer_list<P>{l[0], l[1], l[2], l[3], l[4]});
      case 6: return f(std::initializer_list<P>{l[0], l[1], l[2], l[3], l[4], l[5]});
      case 7: return f(std::initializer_list<P>{l[0], l[1], l[2], l[3], l[4], l[5], l[6]});
      default: fail("harness error: list too long");
    }
  };
  reset_counts();
  const size_t none = size_t(-1);
  ret = none;
  switch (form) {
    case 0: ret = c->insert(l); break;
    case 1: ret = c->insert(cl); break;
    case 2: ret = c->insert(std::move(l)); break;
    case 3: ret = c->insert(cl.begin(), cl.end()); break;
    case 4: *c = l; break;
    case 5: *c = cl; break;
    case 6: *c = std::move(l); break;
    case 7: il([&](auto x) { *c = x; }); break;
    case 8: c.reset(construct<T, C>(1, cap, l)); break;
    case 9: c.reset(construct<T, C>(2, cap, l)); break;
    case 10: c.reset(construct<T, C>(3, cap, l)); break;
    case 11: c.reset(construct<T, C>(0, cap, l)); break;
    case 12: c.reset(construct<T, C>(5, cap, l)); break;
    case 13: c.reset(construct<T, C>(4, cap, cl)); break;
    default:
      il([&](auto x) {
        if constexpr (T::timed) c.reset(new C(Ns(10), x));
        else c.reset(new C(x));
      });
      break;
  }
  MC_CHECK(ret == none || ret == expected, "insert() returns ", ret, ", expected ", expected);
  const int kc = AKey::copies, vc = AVal::copies;
  compare(*c, w);
  if (!rvalue) {
    for (int i = 0; i < len; ++i)
      MC_CHECK(l[size_t(i)].first.id == ks[size_t(i)] && l[size_t(i)].second.id == 50 + i,
               "element ", i, " of a range passed as lvalue was modified");
  } else if (updates == 0) {
    MC_CHECK(kc == 0 && vc == 0, "elements of a range passed as rvalue were copied (", kc, " keys, ", vc, " values)");
  }
  MC_CHECK(c->capacity() == w.cap, "capacity() is ", c->capacity(), ", expected ", w.cap);
  c.reset();
  l.clear();
  MC_CHECK(AKey::live == 0 && AVal::live == 0, AKey::live, " keys and ", AVal::live, " values are alive");
  ctx.nontrivial += 1;
  ctx.states += 1;
  ctx.transitions += uint64_t(len);
}

template <class T, int Form>
static void insertion_job(const char* name) {
  search_job(name, 8, insertion<T, Form>,
             "all capacities up to 4 (thorough: 8) and numbers of entries, every order by one use, last access to any "
             "key or an absent one, expired or not; every category of key and value argument, every present key or "
             "a new one, every stored value as the argument");
}
void mc::register_jobs(bool) {
#if VARIANT < 3
  using T = Untimed;
#else
  using T = Timed;
#endif
#if VARIANT % 3 == 0
  insertion_job<T, INSERT_>("insert");
  search_job("stored-keys", 2, stored_keys<T>, "up to 6 (thorough: 10) entries, each of their keys by 5 routes, 13 operations");
  search_job("ranges", 8, ranges<T>, "15 ways to pass a range; all lists of up to 4 (thorough: 7) out of 4 keys");
#elif VARIANT % 3 == 1
  insertion_job<T, EMPLACE_>("emplace");
#else
  insertion_job<T, PIECEWISE_>("piecewise");
#endif
}
