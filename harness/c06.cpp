// C06: iteration visits each entry exactly once, in every iterator flavour;
// iterators compare, copy, move, swap, assign and convert as pointers to
// entries do.
// VARIANTS: 6
// MODES: opt san std c++14
// STD: 0 1 2
// CXX14: 3
// SAN: 0 1 2 5
#include "traits.hpp"
using namespace mc;

// What a variable of the model holds: a position is the key of an entry.
enum { UNSET = -2, END = -1 };

// ----------------------------------------------------- sequences of operations
// Two ordered and two unordered iterators of types X and Y into a cache of
// type C (which may be const).
template <class T, class C, class X, class Y>
struct Play {
  static constexpr bool writable = !std::is_const<C>::value;
  typename T::Cache real;
  C& c;
  std::vector<int> order, un;  // keys, as the iteration is expected
  std::map<int, int> value;
  X o[2];
  Y u[2];
  int at[4] = {UNSET, UNSET, UNSET, UNSET};  // o[0], o[1], u[0], u[1]
  size_t hits = 0, misses = 0;
  int called = 0;
  const size_t n;

  static typename T::Cache make(int n, const std::vector<int>& keys, int& called) {
    Cfg g;
    g.cap[0] = 4;
    g.ttl[0] = 1000000;
    std::unique_ptr<typename T::Cache> p(T::make(g, 0));
    (void)n;
    (void)called;
    for (int k : keys) p->insert(T::mk(k), T::mv(k));
    return std::move(*p);
  }

  explicit Play(int n_, const std::vector<int>& keys)
  : real(make(n_, keys, called)), c(real), order(keys), n(keys.size()) {
    for (auto it = real.unordered_begin(); it != real.unordered_end(); ++it) {
      un.push_back(T::ki(it->first));
      if (un.size() > n) break;
    }
    if (!std::is_permutation(un.begin(), un.end(), order.begin(), order.end()) || un.size() != n)
      fail("unordered iteration does not visit each entry once");
    for (int k : keys) value[k] = k;
    real.monitor();
    real.access_callback([this](const typename T::Key&, bool) { ++called; });
  }

  int next(int v, bool unordered) const {
    auto& s = unordered ? un : order;
    auto it = std::find(s.begin(), s.end(), v);
    return it + 1 == s.end() ? END : *(it + 1);
  }
  int prev(int v) const {
    if (v == END) return order.back();
    return *(std::find(order.begin(), order.end(), v) - 1);
  }

  // Reads through the iterator in one of the possible ways.
  template <class It>
  void read(It& it, int k, int way) {
    auto eq = [&](const char* what, int got, int expected) {
      if (got != expected) fail(what, " of an iterator to key ", k, " is ", got, ", expected ", expected);
    };
    switch (way) {
      case 0:
        eq("(*it).first", T::ki((*it).first), k);
        eq("(*it).second", T::vi((*it).second), value[k]);
        break;
      case 1:
        eq("it->key()", T::ki(it->key()), k);
        eq("it->value()", T::vi(it->value()), value[k]);
        break;
      case 2: eq("it.key()", T::ki(it.key()), k); break;
      case 3: eq("it.value()", T::vi(it.value()), value[k]); break;
      default:
        eq("it.entry().key()", T::ki(it.entry().key()), k);
        eq("it.entry().second", T::vi(it.entry().second), value[k]);
        break;
    }
  }
  template <class It>
  void write(It& it, int k, int way, std::true_type) {
    value[k] += 10;
    switch (way) {
      case 0: (*it).second = T::mv(value[k]); break;
      case 1: it->value() = T::mv(value[k]); break;
      case 2: it.value() = T::mv(value[k]); break;
      default: it.entry().second = T::mv(value[k]); break;
    }
  }
  template <class It>
  void write(It&, int, int, std::false_type) {}

  enum { EACH = 13, ALL = 4 * EACH + 16 };
  static const char* name(int op) {
    static const char* each[] = {"= begin", "= end", "++it", "it++", "read", "read again", "write", "= copy of itself",
                                 "= itself", "--it", "it--", "member swap with the other", "free swap with the other"};
    static const char* rest[] = {"o0 = o1", "o1 = o0", "o0 = move(o1)", "o1 = move(o0)", "u0 = u1", "u1 = u0",
                                 "u0 = move(u1)", "u1 = move(u0)", "o0 = ordered(u0)", "o1 = ordered(u0)",
                                 "o0 = ordered(move(u0))", "o1 = ordered(u1)", "u0 = find(0)", "u1 = find(1)",
                                 "o0 = ordered(find(2))", "fresh copies in place of all"};
    return op < 4 * EACH ? each[op % EACH] : rest[op - 4 * EACH];
  }

  // Returns false if the operation is not enabled.
  bool step(int op, int turn) {
    if (op < 4 * EACH) {
      int v = op / EACH;
      if (v < 2) return each(o[v], o[1 - v], at[v], at[1 - v], op % EACH, turn, false, std::true_type());
      return each(u[v - 2], u[3 - v], at[v], at[5 - v], op % EACH, turn, true, std::false_type());
    }
    switch (op - 4 * EACH) {
      case 0: if (at[1] == UNSET) return false; o[0] = o[1]; at[0] = at[1]; break;
      case 1: if (at[0] == UNSET) return false; o[1] = o[0]; at[1] = at[0]; break;
      case 2: if (at[1] == UNSET) return false; o[0] = std::move(o[1]); at[0] = at[1]; at[1] = UNSET; break;
      case 3: if (at[0] == UNSET) return false; o[1] = std::move(o[0]); at[1] = at[0]; at[0] = UNSET; break;
      case 4: if (at[3] == UNSET) return false; u[0] = u[1]; at[2] = at[3]; break;
      case 5: if (at[2] == UNSET) return false; u[1] = u[0]; at[3] = at[2]; break;
      case 6: if (at[3] == UNSET) return false; u[0] = std::move(u[1]); at[2] = at[3]; at[3] = UNSET; break;
      case 7: if (at[2] == UNSET) return false; u[1] = std::move(u[0]); at[3] = at[2]; at[2] = UNSET; break;
      case 8: if (at[2] == UNSET) return false; convert(o[0], at[0], u[0], at[2]); break;
      case 9: if (at[2] == UNSET) return false; convert(o[1], at[1], u[0], at[2]); break;
      case 10:
        if (at[2] < 0) return false;
        o[0] = X(std::move(u[0]));
        at[0] = at[2];
        at[2] = UNSET;
        break;
      case 11: if (at[3] == UNSET) return false; convert(o[1], at[1], u[1], at[3]); break;
      case 12: find(u[0], at[2], 0); break;
      case 13: find(u[1], at[3], 1); break;
      case 14: {
        if (n < 3) return false;
        int k = UNSET;
        Y y;
        find(y, k, 2);
        o[0] = X(std::move(y));
        at[0] = k;
        break;
      }
      default: {
        X a(o[0]), b(o[1]);
        Y d(u[0]), e(u[1]);
        o[0] = std::move(a);
        o[1] = std::move(b);
        u[0] = std::move(d);
        u[1] = std::move(e);
        break;
      }
    }
    return true;
  }
  void find(Y& y, int& where, int k) {
    y = c.find(T::mk(k));
    auto it = std::find(order.begin(), order.end(), k);
    if (it == order.end()) {
      where = END;
      ++misses;
    } else {
      order.erase(it);
      order.push_back(k);
      where = k;
      ++hits;
    }
    ++expected_calls;
  }
  int expected_calls = 0;

  void convert(X& x, int& to, Y& y, int from) {
    try {
      x = X(y);
      MC_CHECK(from != END, "converting a past-the-end iterator does not fail");
      to = from;
    } catch (LRU::Error::InvalidIteratorConversion&) {
      MC_CHECK(from == END, "converting an iterator to key ", from, " fails");
    }
  }

  template <class It, class Ordered>
  bool each(It& it, It& other, int& v, int& w, int op, int turn, bool unordered, Ordered ordered) {
    if (v == UNSET && (op > 1 && op != 11 && op != 12)) return false;
    switch (op) {
      case 0: begin(it, ordered, turn); v = n ? (unordered ? un : order).front() : END; return true;
      case 1: end(it, ordered, turn); v = END; return true;
      case 2: {
        if (v == END) return false;
        auto& r = ++it;
        MC_CHECK(&r == &it, "++it does not return the iterator");
        v = next(v, unordered);
        return true;
      }
      case 3: {
        if (v == END) return false;
        auto old = it++;
        read(old, v, turn % 5);
        v = next(v, unordered);
        return true;
      }
      case 4: if (v == END) return false; read(it, v, turn % 5); return true;
      case 5: if (v == END) return false; read(it, v, (turn + 3) % 5); read(it, v, turn % 2); return true;
      case 6:
        if (v == END || !writable) return false;
        write(it, v, turn % 4, std::integral_constant<bool, writable>());
        return true;
      case 7: {
        It copy(it);
        it = copy;
        if (v != END) read(copy, v, turn % 5);
        return true;
      }
      case 8: {
        It& same = it;
        it = same;
        return true;
      }
      case 9: return back(it, v, turn, ordered, false);
      case 10: return back(it, v, turn, ordered, true);
      case 11: it.swap(other); std::swap(v, w); return true;
      default: {
        using std::swap;
        swap(it, other);
        std::swap(v, w);
        return true;
      }
    }
  }
  bool back(X& it, int& v, int turn, std::true_type, bool post) {
    if (n == 0 || v == order.front()) return false;
    if (post) {
      auto old = it--;
      if (v != END) read(old, v, turn % 5);
    } else {
      auto& r = --it;
      MC_CHECK(&r == &it, "--it does not return the iterator");
    }
    v = prev(v);
    return true;
  }
  bool back(Y&, int&, int, std::false_type, bool) { return false; }
  void begin(X& it, std::true_type, int) { it = c.ordered_begin(); }
  void begin(Y& it, std::false_type, int turn) {
    if (turn % 2) it = c.begin();
    else it = c.unordered_begin();
  }
  void end(X& it, std::true_type, int) { it = c.ordered_end(); }
  void end(Y& it, std::false_type, int turn) {
    if (turn % 2) it = c.end();
    else it = c.unordered_end();
  }

  // Comparisons of everything with everything.
  void compare() {
    auto eq = [&](const char* what, bool e, bool ne, int a, int b) {
      if (e != (a == b) || ne != (a != b))
        fail(what, ": iterators to ", a, " and ", b, " (-1: end) compare ", e ? "equal" : "not equal", " and ",
             ne ? "unequal" : "not unequal");
    };
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) {
        if (at[i] != UNSET && at[j] != UNSET)
          eq("ordered/ordered", o[i] == o[j], o[i] != o[j], at[i], at[j]);
        if (at[2 + i] != UNSET && at[2 + j] != UNSET)
          eq("unordered/unordered", u[i] == u[j], u[i] != u[j], at[2 + i], at[2 + j]);
        if (at[i] != UNSET && at[2 + j] != UNSET) {
          eq("ordered/unordered", o[i] == u[j], o[i] != u[j], at[i], at[2 + j]);
          eq("unordered/ordered", u[j] == o[i], u[j] != o[i], at[i], at[2 + j]);
        }
      }
    for (int i = 0; i < 2; ++i) {
      if (at[i] != UNSET) {
        int v = at[i];
        eq("with ordered_end", o[i] == c.ordered_end(), o[i] != c.ordered_end(), v, END);
        eq("with unordered_end", o[i] == c.unordered_end(), c.unordered_end() != o[i], v, END);
        eq("with ordered_begin", o[i] == c.ordered_begin(), o[i] != c.ordered_begin(), v, n ? order.front() : int(END));
        eq("with begin", o[i] == c.begin(), c.begin() != o[i], v, n ? un.front() : int(END));
      }
      if (at[2 + i] != UNSET) {
        int v = at[2 + i];
        eq("with unordered_end", u[i] == c.end(), u[i] != c.end(), v, END);
        eq("with ordered_end", u[i] == c.ordered_end(), c.ordered_end() != u[i], v, END);
        eq("with unordered_begin", u[i] == c.begin(), u[i] != c.begin(), v, n ? un.front() : int(END));
        eq("with ordered_begin", u[i] == c.ordered_begin(), c.ordered_begin() != u[i], v, n ? order.front() : int(END));
      }
    }
  }

  // Where every iterator is, by using it up; and that nothing has changed.
  void finish() {
    compare();
    for (int i = 0; i < 2; ++i) {
      if (at[i] != UNSET) {
        if (at[i] != END) read(o[i], at[i], i);
        int v = at[i];
        X it(o[i]);
        size_t steps = 0;
        while (it != c.ordered_end()) {
          MC_CHECK(v != END && ++steps <= n, "ordered iteration goes too far");
          read(it, v, 1);
          ++it;
          v = next(v, false);
        }
        MC_CHECK(v == END, "ordered iteration ends early");
      }
      if (at[2 + i] != UNSET) {
        if (at[2 + i] != END) read(u[i], at[2 + i], i);
        int v = at[2 + i];
        Y it(u[i]);
        size_t steps = 0;
        while (it != c.end()) {
          MC_CHECK(v != END && ++steps <= n, "unordered iteration goes too far");
          read(it, v, 1);
          ++it;
          v = next(v, true);
        }
        MC_CHECK(v == END, "unordered iteration ends early");
      }
    }
    const auto& cc = real;
    MC_CHECK(cc.size() == n && cc.capacity() == 4, "iterating changed the size or capacity");
    size_t i = 0;
    for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it, ++i)
      MC_CHECK(i < n && T::ki(it->first) == order[i] && T::vi(it->second) == value[order[i]],
               "iterating or dereferencing changed the order or a value");
    MC_CHECK(cc.stats().total_hits() == hits && cc.stats().total_misses() == misses && called == expected_calls,
             "iterating counted as an access");
    for (int k = 0; k < 4; ++k) {
      auto it = value.find(k);
      auto f = cc.find(T::mk(k));
      MC_CHECK((f != cc.end()) == (it != value.end()), "a key is lost");
      if (it != value.end()) MC_CHECK(T::vi(f->second) == it->second, "a lookup does not see the value written");
    }
  }
};

static const std::vector<std::vector<int>>& contents() {
  static const std::vector<std::vector<int>> v = {{}, {0}, {1, 0}, {0, 1}, {2, 0, 1}};
  return v;
}

template <class T, class C, class X, class Y>
static void play_job(const std::string& name, int depth, int parts) {
  search_job(
      name, parts,
      [depth](Chooser& ch, Ctx& ctx) {
        using P = Play<T, C, X, Y>;
        auto& keys = contents()[size_t(ch.choose(int(contents().size())))];
        P p(0, keys);
        const int n = int(keys.size());
        // Where the first iterators are, and whether they have been used.
        std::string story;
        int a = ch.choose(2 * (n + 1)), b = ch.choose(2 * (n + 1));
        p.step(0, 0);
        for (int i = 0; i < a / 2; ++i) p.step(2, 0);
        if (a % 2) p.step(4, 0);
        p.step(2 * P::EACH, 0);
        for (int i = 0; i < b / 2; ++i) p.step(2 * P::EACH + 2, 0);
        if (b % 2) p.step(2 * P::EACH + 4, 1);
        const int d = 1 + ch.choose(depth);
        for (int i = 0; i < d; ++i) {
          int op = ch.choose(P::ALL);
          if (i == 0) ch.split();
          if (verbose) say("  ", op < 4 * P::EACH ? str("ou"[op / P::EACH / 2], op / P::EACH % 2, ": ") : "", P::name(op));
          if (!p.step(op, i + op + a)) return;
          p.compare();
          ++ctx.transitions;
        }
        p.finish();
        ++ctx.traces;
        ++ctx.states;
      },
      str("caches of up to 3 entries; all sequences of up to ", depth, " of ", int(Play<T, C, X, Y>::ALL),
          " operations on 4 iterators, from every position"));
}

// ------------------------------------------------------------- conversions
// An iterator of any kind to any position, converted along every path.
template <class T>
static void conversions(Chooser& ch, Ctx& ctx) {
  using C = typename T::Cache;
  using S = Sut<T>;
  using UIt = typename S::UIt;
  using UCIt = typename S::UCIt;
  using OIt = typename S::OIt;
  using OCIt = typename S::OCIt;
  auto& keys = contents()[size_t(ch.choose(int(contents().size())))];
  const int n = int(keys.size());
  int unused = 0;
  C c = Play<T, C, OIt, UIt>::make(0, keys, unused);
  C other = Play<T, C, OIt, UIt>::make(0, keys, unused);
  const C& cc = c;
  std::vector<int> un;
  for (auto& e : c) un.push_back(T::ki(e.key()));
  const int k = ch.choose(n + 1) - 1;  // the key's number in unordered order
  UIt u = c.unordered_begin();
  for (int i = 0; i <= k; ++i)
    if (i > 0) ++u;
  if (k < 0) u = c.unordered_end();
  if (ch.flag() && k >= 0) (void)*u;
  const int key = k < 0 ? END : un[size_t(k)];
  auto position = [&](auto& it) {  // of an ordered iterator, from the end
    int n_after = 0;
    OCIt x(it);
    for (; x != cc.ordered_cend(); ++x) MC_CHECK(++n_after <= n, "iteration does not end");
    return n_after;
  };
  auto expected_after = key == END ? 0 : int(keys.end() - std::find(keys.begin(), keys.end(), key));
  auto check_o = [&](auto& o) {
    MC_CHECK(position(o) == expected_after, "an ordered iterator made from an unordered one is at the wrong position");
    if (key != END) {
      MC_CHECK(T::ki(o->first) == key && T::vi((*o).second) == key, "an ordered iterator made from an unordered one has the wrong entry");
      MC_CHECK(o == u && u == o && !(o != u) && !(u != o), "iterators to the same entry compare unequal");
    } else {
      MC_CHECK(o == c.unordered_end() && c.unordered_end() == o, "end iterators compare unequal");
    }
    MC_CHECK(o != other.unordered_begin() && other.unordered_begin() != o && !(o == other.unordered_end()) &&
                 o != other.unordered_end(),
             "iterators into different caches compare equal");
  };
  auto check_u = [&](auto& x) {
    if (key != END) MC_CHECK(T::ki(x->first) == key && T::vi((*x).second) == key, "a converted unordered iterator has the wrong entry");
    else MC_CHECK(x == cc.unordered_end() && x == cc.ordered_end(), "a converted end iterator is not the end");
    int steps = 0;
    for (UCIt y(x); y != cc.unordered_cend(); ++y) MC_CHECK(++steps <= n, "iteration does not end");
    MC_CHECK(steps == (k < 0 ? 0 : n - k), "a converted unordered iterator is at the wrong position");
  };
  const int path = ch.choose(12);
  const bool fails = key == END && path != 0 && path != 1 && path != 9 && path != 10 && path != 11;
  bool failed = false;
  try {
    switch (path) {
      case 0: {
        UCIt x(u);
        check_u(x);
        UCIt y;
        y = u;
        check_u(y);
        break;
      }
      case 1: {
        UIt tmp(u);
        UCIt x(std::move(tmp));
        check_u(x);
        break;
      }
      case 2: { OIt x(u); check_o(x); break; }
      case 3: { UIt tmp(u); OIt x(std::move(tmp)); check_o(x); break; }
      case 4: { OCIt x(u); check_o(x); break; }
      case 5: { UIt tmp(u); OCIt x(std::move(tmp)); check_o(x); break; }
      case 6: { UCIt t(u); OCIt x(t); check_o(x); break; }
      case 7: { UCIt t(u); OCIt x(std::move(t)); check_o(x); break; }
      case 8: {
        OIt x(u);
        if (key != END) (void)*x;
        OCIt y(x), z;
        z = x;
        OCIt w(std::move(x));
        check_o(y);
        check_o(z);
        check_o(w);
        break;
      }
      case 9: {  // ordered iterators to the place by walking
        OIt x = c.ordered_begin();
        for (int i = 0; i < n - expected_after; ++i) ++x;
        check_o(x);
        OCIt y(x);
        check_o(y);
        break;
      }
      case 10: {
        OIt x = c.ordered_end();
        for (int i = 0; i < expected_after; ++i) --x;
        check_o(x);
        OCIt y;
        y = x;
        check_o(y);
        break;
      }
      default: {
        OCIt x = cc.ordered_cend();
        for (int i = 0; i < expected_after; ++i) x--;
        check_o(x);
        OCIt y;
        using std::swap;
        swap(x, y);
        check_o(y);
        break;
      }
    }
  } catch (LRU::Error::InvalidIteratorConversion&) {
    failed = true;
  }
  MC_CHECK(failed == fails, "converting an iterator ", failed ? "fails" : "does not fail");
  ++ctx.states;
  ctx.transitions += 3;
}

// -------------------------------------------------------------- traversals
// Every way to walk over a cache of n entries.
template <class T>
static void traversals(Chooser& ch, Ctx& ctx, int max) {
  using C = typename T::Cache;
  const int n = ch.choose(max + 1);
  const int how = ch.choose(5);
  Cfg g;
  g.cap[0] = std::max(n, 1);
  g.ttl[0] = 1000;
  std::unique_ptr<C> p(T::make(g, 0));
  C& c = *p;
  const C& cc = c;
  std::vector<int> order;
  for (int k = 0; k < n; ++k) {
    c.insert(T::mk(k), T::mv(k));
    order.push_back(k);
  }
  auto use = [&](int k) {
    order.erase(std::find(order.begin(), order.end(), k));
    order.push_back(k);
  };
  switch (how) {
    case 0: break;
    case 1:
      for (int k = 0; k < n; k += 2) c.contains(T::mk(k)), use(k);
      break;
    case 2:
      for (int k = 0; k < n; k += 3) {
        c.erase(T::mk(k));
        c.insert(T::mk(k), T::mv(k));
        use(k);
      }
      break;
    case 3:
      for (int k = n; k-- > 0;) c.emplace(T::mk(k), T::mv(k)), use(k);
      break;
    default:
      if (n > 1) {
        c.erase(T::mk(0));
        c.insert(T::mk(0), T::mv(0));
        use(0);
        c.lookup(T::mk(n / 2));
        use(n / 2);
      }
      break;
  }
  // Expired entries are visited all the same (but only by dereferencing).
  const bool old = T::timed && ch.flag();
  if (old) vclock.now += 5000;
  c.monitor();
  std::vector<int> seen;
  auto see = [&](int k, int v) {
    MC_CHECK(int(seen.size()) < n, "iteration visits too many entries");
    MC_CHECK(k == v, "iteration gives value ", v, " for key ", k);
    seen.push_back(k);
  };
  auto ordered = [&](auto b, auto e, int way) {
    switch (way) {
      case 0: for (; b != e; ++b) see(T::ki(b->first), T::vi(b->second)); break;
      case 1: for (; b != e; b++) see(T::ki((*b).key()), T::vi((*b).value())); break;
      default:
        for (; !(b == e); ++b) {
          auto copy = b;
          see(T::ki(copy->key()), T::vi(copy->value()));
          (void)*b;
        }
    }
    MC_CHECK(seen == order, "ordered iteration does not follow the order");
  };
  auto backward = [&](auto b, auto e, int way) {
    while (e != b) {
      if (way % 2) {
        e--;
      } else {
        --e;
      }
      see(T::ki(e->first), T::vi(e->second));
    }
    std::reverse(seen.begin(), seen.end());
    MC_CHECK(seen == order, "backward iteration does not follow the order");
  };
  auto unordered = [&](auto b, auto e, int way) {
    switch (way) {
      case 0: for (; b != e; ++b) see(T::ki(b->first), T::vi(b->second)); break;
      case 1: for (; b != e; b++) see(T::ki((*b).key()), T::vi((*b).value())); break;
      default:
        for (; !(b == e); ++b) {
          auto copy = b;
          see(T::ki(copy->key()), T::vi(copy->value()));
          (void)*b;
        }
    }
    MC_CHECK(std::is_permutation(seen.begin(), seen.end(), order.begin(), order.end()) && seen.size() == order.size(),
             "unordered iteration does not visit each entry once");
  };
  const int flavour = ch.choose(16);
  const int way = ch.choose(3);
  switch (flavour) {
    case 0: ordered(c.ordered_begin(), c.ordered_end(), way); break;
    case 1: ordered(c.ordered_cbegin(), c.ordered_cend(), way); break;
    case 2: ordered(cc.ordered_begin(), cc.ordered_end(), way); break;
    case 3: ordered(cc.ordered_cbegin(), cc.ordered_cend(), way); break;
    case 4: backward(c.ordered_begin(), c.ordered_end(), way); break;
    case 5: backward(cc.ordered_begin(), cc.ordered_end(), way); break;
    case 6: unordered(c.begin(), c.end(), way); break;
    case 7: unordered(cc.begin(), cc.end(), way); break;
    case 8: unordered(c.cbegin(), c.cend(), way); break;
    case 9: unordered(c.unordered_begin(), c.unordered_end(), way); break;
    case 10: unordered(cc.unordered_begin(), cc.unordered_end(), way); break;
    case 11: unordered(cc.unordered_cbegin(), cc.unordered_cend(), way); break;
    case 12:  // range-based for
      for (auto& e : c) see(T::ki(e.key()), T::vi(e.value()));
      MC_CHECK(std::is_permutation(seen.begin(), seen.end(), order.begin(), order.end()) && seen.size() == order.size(),
               "unordered iteration does not visit each entry once");
      break;
    case 13:
      for (auto& e : cc) see(T::ki(e.first), T::vi(e.second));
      MC_CHECK(std::is_permutation(seen.begin(), seen.end(), order.begin(), order.end()) && seen.size() == order.size(),
               "unordered iteration does not visit each entry once");
      break;
    case 14: {  // every unordered iterator leads on in the order
      for (auto u = c.unordered_begin(); u != c.unordered_end(); ++u) {
        typename Sut<T>::OIt o(u);
        size_t at = size_t(std::find(order.begin(), order.end(), T::ki(u->first)) - order.begin());
        for (; o != c.ordered_end(); ++o, ++at)
          MC_CHECK(at < order.size() && T::ki(o->first) == order[at],
                   "an ordered iterator made from an unordered one does not continue in recency order");
        MC_CHECK(at == order.size(), "iteration ends early");
      }
      break;
    }
    default: {  // writing through all of them
      if (way == 0) for (auto& e : c) e.value() = T::mv(T::ki(e.key()) + 100);
      if (way == 1)
        for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) it->second = T::mv(T::ki(it->first) + 100);
      if (way == 2)
        for (auto it = c.unordered_begin(); it != c.unordered_end(); it++) (*it).second = T::mv(T::ki(it->first) + 100);
      for (auto it = cc.begin(); it != cc.end(); ++it) MC_CHECK(T::vi(it->second) == T::ki(it->first) + 100, "a written value is not seen");
      break;
    }
  }
  MC_CHECK(c.size() == size_t(n) && c.stats().total_accesses() == 0, "iterating changes the size or counts as access");
  if (flavour == 14 || flavour == 15 || n <= 8) {
    size_t i = 0;
    for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it, ++i)
      MC_CHECK(i < order.size() && T::ki(it->first) == order[i], "iterating changes the order");
    for (int k = 0; !old && k < n; ++k)
      MC_CHECK(T::vi(c.lookup(T::mk(k))) == (flavour == 15 ? k + 100 : k), "a lookup gives a wrong value after iterating");
  }
  ++ctx.states;
  ctx.transitions += uint64_t(n);
}

// Entries compare with and convert to pairs.
static void entries(Chooser& ch, Ctx& ctx) {
  LRU::Cache<int, int> c(3);
  const auto& cc = c;
  int k = ch.choose(3), v = ch.choose(3);
  c.insert(k, v);
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b) {
      const bool same = a == k && b == v;
      auto pair = std::make_pair(a, b);
      auto check = [&](auto it) {
        MC_CHECK((*it == pair) == same && (pair == *it) == same && (*it != pair) == !same && (pair != *it) == !same,
                 "an entry compares wrongly with a pair");
        MC_CHECK((it.entry() == pair) == same, "an entry compares wrongly with a pair");
      };
      check(c.begin());
      check(cc.begin());
      check(c.ordered_begin());
      check(cc.ordered_begin());
    }
  // Entries, of either kind, compare with each other.
  c.insert(k + 1, v);
  c.insert(k + 2, 7);
  auto both = [&](const auto& x, const auto& y) {
    const bool same = x.key() == y.key() && x.value() == y.value();
    MC_CHECK((x == y) == same && (y == x) == same && (x != y) == !same && (y != x) == !same,
             "entries compare wrongly with each other");
  };
  for (auto x = c.begin(); x != c.end(); ++x) {
    for (auto y = c.begin(); y != c.end(); ++y) both(*x, *y);
    for (auto y = cc.begin(); y != cc.end(); ++y) both(*x, *y), both(x.entry(), y.entry());
    for (auto y = cc.ordered_begin(); y != cc.ordered_end(); ++y) both(*x, *y);
  }
  for (auto x = cc.ordered_begin(); x != cc.ordered_end(); ++x)
    for (auto y = cc.begin(); y != cc.end(); ++y) both(*x, *y);
  LRU::Cache<int, int> other{{k, v}};
  both(*c.begin(), *other.begin());
  both(*c.ordered_begin(), *other.ordered_begin());
  MC_CHECK(*c.ordered_begin() == *other.begin() && !(*c.ordered_begin() != *other.begin()),
           "equal entries of two caches compare wrongly");
  c.erase(k + 1);
  c.erase(k + 2);
  std::pair<const int&, int&> p = *c.ordered_begin();
  MC_CHECK(p.first == k && p.second == v, "an entry converts to a wrong pair");
  p.second = 9;
  MC_CHECK(c.lookup(k) == 9, "a pair made of an entry does not refer to the value");
  auto it = c.begin();
  auto e = *it;
  e.value() = 8;
  MC_CHECK(cc.lookup(k) == 8 && e.key() == k && e.first == k && e.second == 8, "a copied entry does not refer to the value");
  const auto& ce = e;
  auto first = cc.ordered_begin();
  const auto& cit = *first;
  MC_CHECK(ce.value() == 8 && ce.key() == k && ce.second == 8 && cit.value() == 8 && cit.key() == k,
           "a const entry does not give its key and value");
  MC_CHECK(std::distance(c.begin(), c.end()) == 1 && std::distance(cc.ordered_begin(), cc.ordered_end()) == 1,
           "wrong distance");
  ++ctx.states;
  ctx.transitions += 9;
}

template <class T>
static void plays(bool thorough, bool small, std::string pre = "") {
  using S = Sut<T>;
  using C = typename T::Cache;
  const int depth = (sanitized ? 2 : small ? 2 : 3) + (thorough && !sanitized ? 1 : 0);
  play_job<T, C, typename S::OIt, typename S::UIt>(pre + "mutable", depth, 16);
  play_job<T, const C, typename S::OCIt, typename S::UCIt>(pre + "const", depth, 16);
  search_job(pre + "conversions", 1, conversions<T>, "caches of up to 3 entries, every position, 12 paths of conversion");
}

void mc::register_jobs(bool thorough) {
#if VARIANT == 0
  plays<IntTraits>(thorough, false);
#elif VARIANT == 1
  plays<TimedIntTraits<Ms>>(thorough, true);
#elif VARIANT == 2
  plays<TrackedTraits>(thorough, true);
#elif VARIANT == 3
  plays<HashTraits<ConstHash>>(thorough, true);
#elif VARIANT == 4
  plays<TimedHashTraits<Ms, FarHash>>(thorough, true);
#else
  const int max = thorough ? 60 : sanitized ? 8 : 20;
  search_job("entries", 1, entries, "all entries of 3 keys and values, against all pairs");
  search_job("traversals", 4, [=](Chooser& ch, Ctx& c) { traversals<IntTraits>(ch, c, max); },
             str("every size up to ", max, ", 5 ways to fill, 16 flavours, 3 ways to walk"));
  search_job("traversals-timed", 4, [=](Chooser& ch, Ctx& c) { traversals<TimedIntTraits<Ns>>(ch, c, max); },
             str("every size up to ", max, ", 5 ways to fill, expired or not, 16 flavours, 3 ways to walk"));
  search_job("traversals-colliding", 4, [=](Chooser& ch, Ctx& c) { traversals<HashTraits<ConstHash>>(ch, c, max); },
             str("every size up to ", max, ", 5 ways to fill, 16 flavours, 3 ways to walk"));
  search_job("traversals-tracked", 4, [=](Chooser& ch, Ctx& c) { traversals<TrackedTraits>(ch, c, max); },
             str("every size up to ", max, ", 5 ways to fill, 16 flavours, 3 ways to walk"));
#endif
}
