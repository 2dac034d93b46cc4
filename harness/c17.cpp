// C17: bulk construction, insertion and assignment equal one-by-one insertion.
// VARIANTS: 7
#include "traits.hpp"
using namespace mc;

using Num = std::pair<int, int>;  // (key number, value number)
using List = std::vector<Num>;

// ----------------------------------------------------------------- the model
struct Ref {
  struct E {
    int k, v;
    bool operator==(const E& o) const { return k == o.k && v == o.v; }
  };
  std::vector<E> e;  // least recently used first
  size_t cap = 0;
  bool insert(int k, int v) {
    if (cap == 0) return false;
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].k == k) {
        e[i].v = v;
        std::rotate(e.begin() + long(i), e.begin() + long(i) + 1, e.end());
        return false;
      }
    if (e.size() == cap) e.erase(e.begin());
    e.push_back({k, v});
    return true;
  }
  size_t insert(const List& l) {
    size_t n = 0;
    for (auto& x : l) n += insert(x.first, x.second);
    return n;
  }
  std::string show() const {
    std::string s = "[";
    for (auto& x : e) s += str(s.size() > 1 ? " " : "", x.k, ":", x.v);
    return s + "]";
  }
};
static std::string show(const List& l) {
  std::string s = "{";
  for (auto& x : l) s += str(s.size() > 1 ? " " : "", x.first, ":", x.second);
  return s + "}";
}

// An iterator that can be run through only once.
template <class P>
struct SinglePass {
  using iterator_category = std::input_iterator_tag;
  using value_type = P;
  using difference_type = std::ptrdiff_t;
  using pointer = const P*;
  using reference = const P&;
  struct State {
    const std::vector<P>* v;
    size_t at = 0;
  };
  State* s = nullptr;  // null: the end
  bool end() const { return !s || s->at == s->v->size(); }
  const P& operator*() const {
    MC_CHECK(!end(), "the end of a range is dereferenced");
    return (*s->v)[s->at];
  }
  const P* operator->() const { return &**this; }
  SinglePass& operator++() {
    MC_CHECK(!end(), "the end of a range is passed");
    ++s->at;
    return *this;
  }
  SinglePass operator++(int) {
    ++*this;
    return *this;
  }
  bool operator==(const SinglePass& o) const { return end() == o.end(); }
  bool operator!=(const SinglePass& o) const { return !(*this == o); }
};

// -------------------------------------------------------------------- types
struct Ints {
  using K = int;
  using V = int;
  using K2 = short;  // convertible to K and V
  using V2 = char;
  static K key(int i) { return i == 4 ? INT_MIN : i - 1; }
  static V val(int i) { return i; }
  static K2 key2(int i) { return short(i == 4 ? 0 : i - 1); }
  static V2 val2(int i) { return char(i); }
  static constexpr bool convertible_4 = false;
};
struct Strings {
  using K = std::string;
  using V = std::string;
  using K2 = const char*;
  using V2 = const char*;
  static K key(int i) { return key_string(i); }
  static V val(int i) { return std::string(40, 'v') + char('0' + i); }
  static K2 key2(int i) {
    static const std::string t[] = {key_string(0), key_string(1), key_string(2), key_string(3), key_string(4)};
    return t[i].c_str();
  }
  static V2 val2(int i) {
    static const std::string t[] = {val(0), val(1), val(2), val(3), val(4)};
    return t[i].c_str();
  }
};
struct TrackedTypes {
  using K = TKey;
  using V = TValue;
  using K2 = TKey;
  using V2 = TValue;
  static K key(int i) { return TKey(TKey::Make(), i); }
  static V val(int i) { return TValue(TValue::Make(), i); }
  static K2 key2(int i) { return key(i); }
  static V2 val2(int i) { return val(i); }
};
template <class T>
struct Plain : T {
  static constexpr bool timed = false;
  using C = LRU::Cache<typename T::K, typename T::V>;
  using Other = LRU::TimedCache<typename T::K, typename T::V>;
  static Other other(size_t n) { return Other(Sec(1), n); }
  // How to write "construct": with a capacity, and without.
  template <class F>
  static void construct(int, F&& f) { f(); }
  template <class... A>
  static C* make(A&&... a) { return new C(std::forward<A>(a)...); }
  template <class... A>
  static C* make_list(std::initializer_list<std::pair<typename T::K, typename T::V>> l) { return new C(l); }
};
// The time to live is given in one unit, kept in another.
template <class T, class D, class Given>
struct TimedWith : T {
  static constexpr bool timed = true;
  using C = LRU::TimedCache<typename T::K, typename T::V, D>;
  using Other = LRU::Cache<typename T::K, typename T::V>;
  static Other other(size_t n) { return Other(n); }
  static Given given() { return std::chrono::duration_cast<Given>(std::chrono::hours(1)); }
  template <class... A>
  static C* make(A&&... a) { return new C(given(), std::forward<A>(a)...); }
};
// The functions are given too: the hash alone, or both.
template <class T, bool Both>
struct Functions : T {
  using C = typename T::C;
  template <class... A>
  static C* make(A&&... a) {
    using H = std::hash<typename T::K>;
    if constexpr (Both)
      return T::make(std::forward<A>(a)..., H(), std::equal_to<typename T::K>());
    else
      return T::make(std::forward<A>(a)..., H());
  }
};

template <class T>
struct Bulk {
  using C = typename T::C;
  using K = typename T::K;
  using V = typename T::V;
  using P = std::pair<K, V>;
  using P2 = std::pair<typename T::K2, typename T::V2>;

  static std::vector<P> pairs(const List& l) {
    std::vector<P> p;
    p.reserve(l.size());
    for (auto& x : l) p.emplace_back(T::key(x.first), T::val(x.second));
    return p;
  }
  static int kn(const K& k) {
    for (int i = 0; i < 5; ++i)
      if (T::key(i) == k) return i;
    return -1;
  }
  static int vn(const V& v) {
    for (int i = 0; i < 5; ++i)
      if (T::val(i) == v) return i;
    return -1;
  }
  template <class Range>
  static void unmodified(const Range& r, const List& l) {
    size_t i = 0;
    for (auto& x : r) {
      MC_CHECK(i < l.size() && x.first == T::key(l[i].first) && x.second == T::val(l[i].second),
               "the source passed as an lvalue was modified");
      ++i;
    }
    MC_CHECK(i == l.size(), "the source passed as an lvalue was modified");
  }
  template <class F>
  static auto with_list(const List& l, F&& f) {
    auto p = pairs(l);
    using I = std::initializer_list<P>;
    switch (p.size()) {
      case 0: return f(I{});
      case 1: return f(I{p[0]});
      case 2: return f(I{p[0], p[1]});
      case 3: return f(I{p[0], p[1], p[2]});
      case 4: return f(I{p[0], p[1], p[2], p[3]});
      case 5: return f(I{p[0], p[1], p[2], p[3], p[4]});
      case 6: return f(I{p[0], p[1], p[2], p[3], p[4], p[5]});
      default: fail("harness error: list too long");
    }
  }

  // Everything the cache reports is as in the model.
  static void compare(C& c, const Ref& r) {
    MC_CHECK(c.size() == r.e.size(), "size ", c.size(), ", expected ", r.e.size());
    MC_CHECK(c.capacity() == r.cap, "capacity ", c.capacity(), ", expected ", r.cap);
    size_t i = 0;
    for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it, ++i) {
      MC_CHECK(i < r.e.size(), "too many entries in the order");
      MC_CHECK(kn(it->key()) == r.e[i].k && vn(it->value()) == r.e[i].v, "position ", i, " of the order has ",
               kn(it->key()), ":", vn(it->value()), ", expected ", r.show());
    }
    MC_CHECK(i == r.e.size(), "too few entries in the order");
    i = 0;
    for (auto& e : c) {
      bool found = false;
      for (auto& x : r.e) found = found || (kn(e.key()) == x.k && vn(e.value()) == x.v);
      MC_CHECK(found, "unordered iteration shows something else than ", r.show());
      ++i;
    }
    MC_CHECK(i == r.e.size(), "unordered iteration shows ", i, " entries");
  }
  // And it goes on in the same way.
  static void go_on(C& c, Ref r, int probe) {
    if (T::timed) {
      auto& t = static_cast<C&>(c);
      time(t, r);
    }
    if (!r.e.empty() && probe % 2) {
      const auto x = r.e[size_t(probe / 2) % r.e.size()];
      MC_CHECK(vn(c.lookup(T::key(x.k))) == x.v, "wrong value of ", x.k);
      r.insert(x.k, x.v);
    }
    const auto key = T::key(4);
    const auto value = T::val(4);
    c.insert(key, value);
    r.insert(4, 4);
    compare(c, r);
    if (!r.e.empty()) {
      c.erase(T::key(r.e[0].k));
      r.e.erase(r.e.begin());
      compare(c, r);
    }
  }
  template <class X>
  static auto time(X& c, const Ref& r) -> decltype(c.clear_expired(), void()) {
    const int64_t now = vclock.now;
    MC_CHECK(c.all_expired() == r.e.empty(), "expired at once");
    vclock.now = now + 3600000000000LL;
    for (auto& x : r.e) MC_CHECK(!c.has_expired(T::key(x.k)), "expired too early");
    vclock.now = now + 2 * 3600000000000LL;
    for (auto& x : r.e) MC_CHECK(c.has_expired(T::key(x.k)), "does not expire");
    vclock.now = now;
  }
  static void time(...) {}

  // ------------------------------------------------------------ construction
  enum {
    CAP_IT, CAP_RANGE, CAP_CRANGE, CAP_RV, CAP_IL, IT, RANGE, CRANGE, RV, IL, CAP_LIST, LIST, CAP_MAP, MAP, CAP_ONCE,
    CAP_CONV, CONV, CACHE, CAP_CACHE, FORWARD, PTR, FORMS
  };
  static const char* form_name(int f) {
    static const char* n[] = {
        "capacity, iterators", "capacity, range", "capacity, const range", "capacity, range&&", "capacity, {list}",
        "iterators", "range", "const range", "range&&", "{list}", "capacity, std::list", "std::list",
        "capacity, std::map&&", "std::map", "capacity, single-pass iterators", "capacity, range of other types",
        "range of other types", "another kind of cache", "capacity, iterators of another cache", "std::forward_list",
        "pointers"};
    return n[f];
  }
  static std::unique_ptr<C> construct(int form, const List& l, size_t cap, Ref& r) {
    auto v = pairs(l);
    const auto& cv = v;
    std::unique_ptr<C> c;
    const size_t fixed = std::max<size_t>(l.size(), 128);
    r = Ref();
    r.cap = cap;
    List order = l;
    bool intact = true;
    switch (form) {
      case CAP_IT: c.reset(T::make(cap, v.begin(), v.end())); break;
      case CAP_RANGE: c.reset(T::make(cap, v)); break;
      case CAP_CRANGE: c.reset(T::make(cap, cv)); break;
      case CAP_RV: c.reset(T::make(cap, std::move(v))); intact = false; break;
      case CAP_IL: with_list(l, [&](auto il) { c.reset(T::make(cap, il)); }); break;
      case IT: c.reset(T::make(v.begin(), v.end())); r.cap = fixed; break;
      case RANGE: c.reset(T::make(v)); r.cap = fixed; break;
      case CRANGE: c.reset(T::make(cv)); r.cap = fixed; break;
      case RV: c.reset(T::make(std::move(v))); r.cap = l.size(); intact = false; break;
      case IL: with_list(l, [&](auto il) { c.reset(T::make(il)); }); r.cap = l.size(); break;
      case CAP_LIST: {
        std::list<P> s(v.begin(), v.end());
        c.reset(T::make(cap, s));
        unmodified(s, l);
        break;
      }
      case LIST: {
        std::list<P> s(v.begin(), v.end());
        c.reset(T::make(s.begin(), s.end()));
        unmodified(s, l);
        r.cap = fixed;
        break;
      }
      case CAP_MAP: case MAP: {
        std::unordered_map<K, V> m(v.begin(), v.end());  // without duplicates
        order.clear();
        for (auto& x : m) order.push_back({kn(x.first), vn(x.second)});
        if (form == MAP) {
          c.reset(T::make(m));
          unmodified(m, order);
          r.cap = fixed;
        } else {
          c.reset(T::make(cap, std::move(m)));
        }
        break;
      }
      case CAP_ONCE: {
        typename SinglePass<P>::State s{&v, 0};
        c.reset(T::make(cap, SinglePass<P>{&s}, SinglePass<P>{}));
        break;
      }
      case CAP_CONV: case CONV: {
        std::vector<P2> w;
        order.clear();
        for (auto& x : l) {
          if (x.first == 4) continue;
          order.push_back(x);
          w.emplace_back(T::key2(x.first), T::val2(x.second));
        }
        if (form == CONV) c.reset(T::make(w));
        else c.reset(T::make(cap, std::move(w)));
        if (form == CONV) r.cap = std::max<size_t>(order.size(), 128);
        break;
      }
      case CACHE: case CAP_CACHE: {
        auto o = T::other(3);
        Ref ro;
        ro.cap = 3;
        for (auto& x : v) o.insert(x.first, x.second);
        ro.insert(l);
        order.clear();
        if (form == CACHE) {
          for (auto& e : o) order.push_back({kn(e.key()), vn(e.value())});
          c.reset(T::make(o));
          r.cap = 128;
        } else {
          for (auto& x : ro.e) order.push_back({x.k, x.v});
          c.reset(T::make(cap, o.ordered_begin(), o.ordered_end()));
        }
        size_t i = 0;
        for (auto it = o.ordered_cbegin(); it != o.ordered_cend(); ++it, ++i)
          MC_CHECK(kn(it->key()) == ro.e[i].k && vn(it->value()) == ro.e[i].v, "the source cache was modified");
        break;
      }
      case FORWARD: {
        std::forward_list<P> s(v.begin(), v.end());
        c.reset(T::make(s));
        unmodified(s, l);
        r.cap = fixed;
        break;
      }
      case PTR: c.reset(T::make(cv.data(), cv.data() + cv.size())); r.cap = fixed; break;
      default: fail("harness error");
    }
    if (intact) unmodified(v, l);
    r.insert(order);
    return c;
  }

  // --------------------------------------------------- insertion, assignment
  enum {
    I_IT, I_RANGE, I_CRANGE, I_RV, I_IL, I_LIST, I_ONCE, I_CONV, I_CONV_RV, I_CACHE, I_CACHE_RV, I_MAP,
    A_RANGE, A_CRANGE, A_RV, A_IL, A_LIST, A_MAP_RV, A_CONV, A_CACHE, ACTIONS
  };
  static const char* action_name(int a) {
    static const char* n[] = {
        "insert(iterators)", "insert(range)", "insert(const range)", "insert(range&&)", "insert({list})",
        "insert(std::list)", "insert(single-pass iterators)", "insert(range of other types)",
        "insert(range of other types &&)", "insert(another cache)", "insert(another cache &&)", "insert(map)",
        "= range", "= const range", "= range&&", "= {list}", "= std::list", "= map&&", "= range of other types",
        "= another kind of cache"};
    return n[a];
  }
  static void act(C& c, Ref& r, int action, const List& l) {
    auto v = pairs(l);
    const auto& cv = v;
    List order = l;
    bool intact = true;
    size_t n = size_t(-1);
    switch (action) {
      case I_IT: n = c.insert(v.begin(), v.end()); break;
      case I_RANGE: n = c.insert(v); break;
      case I_CRANGE: n = c.insert(cv); break;
      case I_RV: n = c.insert(std::move(v)); intact = false; break;
      case I_IL: n = with_list(l, [&](auto il) { return c.insert(il); }); break;
      case I_LIST: {
        std::list<P> s(v.begin(), v.end());
        n = c.insert(s);
        unmodified(s, l);
        break;
      }
      case I_ONCE: {
        typename SinglePass<P>::State s{&v, 0};
        n = c.insert(SinglePass<P>{&s}, SinglePass<P>{});
        break;
      }
      case I_CONV: case I_CONV_RV: case A_CONV: {
        std::vector<P2> w;
        order.clear();
        for (auto& x : l) {
          if (x.first == 4) continue;
          order.push_back(x);
          w.emplace_back(T::key2(x.first), T::val2(x.second));
        }
        if (action == I_CONV) n = c.insert(w);
        else if (action == A_CONV) c = w;
        else n = c.insert(std::move(w));
        break;
      }
      case I_CACHE: case I_CACHE_RV: case A_CACHE: {
        auto o = T::other(3);
        for (auto& x : v) o.insert(x.first, x.second);
        order.clear();
        for (auto& e : o) order.push_back({kn(e.key()), vn(e.value())});
        if (action == I_CACHE) n = c.insert(o);
        else if (action == I_CACHE_RV) n = c.insert(std::move(o));
        else c = o;
        if (action != I_CACHE_RV)
          for (auto& x : order) MC_CHECK(vn(o.lookup(T::key(x.first))) == x.second, "the source cache was modified");
        break;
      }
      case I_MAP: case A_MAP_RV: {
        std::unordered_map<K, V> m(v.begin(), v.end());
        order.clear();
        for (auto& x : m) order.push_back({kn(x.first), vn(x.second)});
        if (action == I_MAP) {
          n = c.insert(m);
          unmodified(m, order);
        } else {
          c = std::move(m);
        }
        break;
      }
      case A_RANGE: c = v; break;
      case A_CRANGE: c = cv; break;
      case A_RV: c = std::move(v); intact = false; break;
      case A_IL: with_list(l, [&](auto il) { c = il; return 0; }); break;
      case A_LIST: {
        std::list<P> s(v.begin(), v.end());
        c = s;
        unmodified(s, l);
        break;
      }
      default: fail("harness error");
    }
    if (intact) unmodified(v, l);
    if (action >= A_RANGE) {
      r.e.clear();
      r.cap = std::max(r.cap, order.size());
    }
    size_t expected = r.insert(order);
    if (n != size_t(-1)) MC_CHECK(n == expected, action_name(action), " reports ", n, " new entries, expected ", expected);
  }

  static void check_live(C& c, const char* what) { live(c.size(), what); }
  static void live(size_t n, const char* what) {
    if (std::is_same<K, TKey>::value && (TKey::live != long(n) || TValue::live != long(n)))
      fail(what, ": ", TKey::live, " keys and ", TValue::live, " values are alive, expected ", n);
  }
};

// A list, chosen element by element.
static List choose_list(Chooser& ch, int max, int nk, int nv) {
  List l;
  int n = ch.choose(max + 1);
  for (int i = 0; i < n; ++i) {
    int x = ch.choose(nk * nv);
    l.push_back({x % nk, x / nk});
    if (i == 1) ch.split();
  }
  ch.split();
  return l;
}

template <class T>
static void construction(std::string name, int max, int nk, int nv, int parts) {
  using B = Bulk<T>;
  search_job(
      name, parts,
      [=](Chooser& ch, Ctx& ctx) {
        vclock.now = 1000000000;
        TKey::live = TValue::live = 0;
        const List l = choose_list(ch, max, nk, nv);
        for (int form = 0; form < B::FORMS; ++form)
          for (size_t cap = 0; cap <= 5; ++cap) {
            Ref r;
            say("construction from (", B::form_name(form), "), capacity ", cap, ", ", show(l));
            auto c = B::construct(form, l, cap, r);
            B::compare(*c, r);
            B::check_live(*c, B::form_name(form));
            B::go_on(*c, r, int(l.size()) + form);
            c.reset();
            B::live(0, "after destruction");
            ++ctx.evaluations;
            if (r.e.size() > 1) ++ctx.nontrivial;
            if (r.cap != cap) break;  // the capacity was not given
          }
      },
      str("every list of up to ", max, " pairs of ", nk, " keys and ", nv,
          " values, every way of construction, capacities 0-5"));
}

// First some insertions and an access, then bulk operations.
template <class T>
static void actions(std::string name, int before, int max, int nk, int nv, int twice, int parts) {
  using B = Bulk<T>;
  search_job(
      name, parts,
      [=](Chooser& ch, Ctx& ctx) {
        vclock.now = 1000000000;
        TKey::live = TValue::live = 0;
        const size_t cap = size_t(ch.choose(4));
        List first;
        for (int i = 0, n = ch.choose(before + 1); i < n; ++i) first.push_back({ch.choose(nk), i % 2});
        ch.split();
        const int look = ch.choose(nk + 1);
        const List l = choose_list(ch, max, nk, nv);
        const List l2 = twice ? List{{1, 1}, {3, 0}, {1, 0}} : List();
        for (int a = 0; a < B::ACTIONS; ++a)
          for (int b = 0; b < (twice ? B::ACTIONS : 1); ++b) {
            Ref r;
            r.cap = cap;
            std::unique_ptr<typename T::C> c(T::make(cap));
            for (auto& x : first) {
              const auto k = T::key(x.first);
              const auto v = T::val(x.second);
              c->insert(k, v);
              r.insert(x.first, x.second);
            }
            if (look < nk && c->contains(T::key(look)))
              for (auto& x : r.e)
                if (x.k == look) {
                  r.insert(x.k, int(x.v));
                  break;
                }
            say("capacity ", cap, ", ", r.show(), ", then ", B::action_name(a), " ", show(l));
            B::act(*c, r, a, l);
            B::compare(*c, r);
            B::check_live(*c, B::action_name(a));
            if (twice) {
              say("  then ", B::action_name(b), " ", show(l2));
              B::act(*c, r, b, l2);
              B::compare(*c, r);
            }
            B::go_on(*c, r, a + look);
            c.reset();
            B::live(0, "after destruction");
            ++ctx.evaluations;
            if (r.e.size() > 1) ++ctx.nontrivial;
          }
      },
      str("capacities 0-3, every history of up to ", before, " insertions, an access, every list of up to ", max, " pairs of ", nk,
          " keys and ", nv, " values, every bulk operation", twice ? ", two in a row" : ""));
}

// Many elements.
template <class C, class Make>
static void large(std::string name, Make make, int max, int step) {
  range_job(
      name, 4, int64_t(max) * 4,
      [=](int64_t i) {
        const int n = int(i / 4) * step, shape = int(i % 4);
        vclock.now = 1000000000;
        std::vector<std::pair<int, int>> v;
        for (int j = 0; j < n; ++j) {
          int k = shape == 0 ? j : shape == 1 ? j % (n / 2 + 1) : shape == 2 ? (j * 7) % (n / 3 + 1) : n - j;
          v.push_back({k, j});
        }
        for (int form = 0; form < 9; ++form) {
          auto w = v;
          Ref r;
          r.cap = size_t(std::max(n, 128));
          std::unique_ptr<C> c;
          size_t count = size_t(-1), expected = 0;
          switch (form) {
            case 0: c = make(v.begin(), v.end()); break;
            case 1: c = make(v); break;
            case 2: c = make(std::move(w)); r.cap = size_t(n); break;
            case 3: c = make(size_t(n / 2), v); r.cap = size_t(n / 2); break;
            case 4: c = make(size_t(n), v.begin(), v.end()); r.cap = size_t(n); break;
            case 5: c = make(size_t(3)); *c = v; r.cap = size_t(std::max(n, 3)); break;
            case 6: c = make(size_t(3)); c->insert(999999, 1); *c = std::move(w); r.cap = size_t(std::max(n, 3)); break;
            case 7: c = make(size_t(n / 2 + 1)); count = c->insert(v); r.cap = size_t(n / 2 + 1); break;
            default: c = make(); count = c->insert(std::move(w)); r.cap = 128; break;
          }
          expected = r.insert(v);
          MC_CHECK(count == size_t(-1) || count == expected, "form ", form, " reports ", count, ", expected ", expected);
          MC_CHECK(c->size() == r.e.size() && c->capacity() == r.cap, "form ", form, " of ", n, " elements: size ", c->size(),
                   ", capacity ", c->capacity(), ", expected ", r.e.size(), ", ", r.cap);
          size_t j = 0;
          for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it, ++j)
            MC_CHECK(j < r.e.size() && it->key() == r.e[j].k && it->value() == r.e[j].v, "form ", form, " of ", n,
                     " elements: wrong entry at position ", j);
          MC_CHECK(j == r.e.size(), "wrong number of entries");
          for (auto& e : r.e) MC_CHECK(c->contains(e.k), "entry not found");
        }
      },
      "sizes and shapes of the source, 9 ways");
}

void mc::register_jobs(bool thorough) {
  const bool more = thorough && !sanitized;
  const int s = sanitized ? 1 : 0;
#if VARIANT == 0
  construction<Plain<Ints>>("ints", (more ? 6 : 4) - s, 3, 2, 16);
  construction<Plain<Ints>>("ints-keys", more ? 6 : 4 - s, 5, 1, 16);
  actions<Plain<Ints>>("ints-actions", 3 - s, (more ? 4 : 3) - s, 3, 2, 0, 16);
  actions<Plain<Ints>>("ints-actions-keys", 2, (more ? 4 : 3) - s, 4, 1, 0, 16);
#elif VARIANT == 1
  construction<Plain<Strings>>("strings", (more ? 5 : 3) - s, 4, 2, 16);
  actions<Plain<Strings>>("strings-actions", 2, (more ? 4 : 3) - s, 3, 2, 0, 16);
  actions<Plain<Strings>>("strings-twice", 1, more ? 2 : 1, 4, 1, 1, 16);
#elif VARIANT == 2
  construction<TimedWith<Ints, Ms, Sec>>("timed-ints", (more ? 6 : 4) - s, 3, 2, 16);
  actions<TimedWith<Ints, Ms, Min>>("timed-ints-actions", 3 - s, (more ? 4 : 3) - s, 3, 2, 0, 16);
#elif VARIANT == 3
  construction<TimedWith<Strings, MsDouble, Sec>>("timed-strings", (more ? 5 : 3) - s, 4, 2, 16);
  actions<TimedWith<Strings, Sec, std::chrono::hours>>("timed-strings-actions", 2, (more ? 4 : 3) - s, 3, 2, 0, 16);
  actions<TimedWith<Strings, Ns, Us>>("timed-strings-twice", 1, more ? 2 : 1, 4, 1, 1, 16);
#elif VARIANT == 6
  construction<Functions<Plain<Strings>, false>>("hash-given", (more ? 5 : 3) - s, 4, 1, 16);
  construction<Functions<Plain<Strings>, true>>("functions-given", 3 - s, 4, 1, 16);
  construction<Functions<Plain<Ints>, true>>("functions-given-ints", 3 - s, 3, 2, 16);
  construction<Functions<TimedWith<Strings, MsDouble, Sec>, false>>("timed-hash-given", 3 - s, 4, 1, 16);
  construction<Functions<TimedWith<Strings, Ms, Min>, true>>("timed-functions-given", (more ? 5 : 3) - s, 4, 1, 16);
#elif VARIANT == 4
  construction<Plain<TrackedTypes>>("tracked", (more ? 5 : 3) - s, 4, 2, 16);
  actions<Plain<TrackedTypes>>("tracked-actions", 2, (more ? 4 : 3) - s, 3, 2, 0, 16);
  construction<TimedWith<TrackedTypes, MsDouble, Min>>("timed-tracked", 3 - s, 4, 1, 16);
  actions<TimedWith<TrackedTypes, Ms, Ms>>("timed-tracked-actions", 2, 3 - s, 3, 1, 0, 16);
#else
  const int n = sanitized ? 40 : more ? 600 : 200;
  large<LRU::Cache<int, int>>(
      "large", [](auto&&... a) { return std::make_unique<LRU::Cache<int, int>>(std::forward<decltype(a)>(a)...); }, n, 1);
  large<LRU::Cache<int, int>>(
      "larger", [](auto&&... a) { return std::make_unique<LRU::Cache<int, int>>(std::forward<decltype(a)>(a)...); }, n / 4, 9);
  large<LRU::TimedCache<int, int>>(
      "large-timed",
      [](auto&&... a) { return std::make_unique<LRU::TimedCache<int, int>>(Sec(5), std::forward<decltype(a)>(a)...); }, n, 1);
#endif
}
