// Sizes: for every number of entries up to a bound, every position and every
// operation, the effect on a cache of that size. Complements the histories
// over few keys: thresholds in the size, the default capacity, rehashing.
#pragma once
#include "traits.hpp"

namespace mc {

// A plain list of entries in the order of use.
struct Ref {
  std::vector<std::pair<int, int>> e;
  size_t cap = 0;
  int find(int k) const {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].first == k) return int(i);
    return -1;
  }
  bool use(int k) {
    int i = find(k);
    if (i < 0) return false;
    std::rotate(e.begin() + i, e.begin() + i + 1, e.end());
    return true;
  }
  bool insert(int k, int v) {
    if (cap == 0) return false;
    if (use(k)) {
      e.back().second = v;
      return false;
    }
    if (e.size() >= cap) e.erase(e.begin());
    e.emplace_back(k, v);
    return true;
  }
  bool erase(int k) {
    int i = find(k);
    if (i < 0) return false;
    e.erase(e.begin() + i);
    return true;
  }
  void shrink(size_t n) {
    if (e.size() > n) e.erase(e.begin(), e.end() - long(n));
  }
};

template <class T>
struct Large {
  using C = typename T::Cache;

  static C* make(size_t cap) {
    Cfg g;
    g.cap[0] = int64_t(cap);
    g.ttl[0] = 1000000000;
    return T::make(g, 0);
  }

  static void compare(C& c, const Ref& r, const char* what, unsigned mask) {
    const C& cc = c;
    const size_t n = r.e.size();
    auto eq = [&](const char* name, auto got, auto expected) {
      if (got != decltype(got)(expected))
        fail(what, ": ", name, " is ", got, ", expected ", expected);
    };
    if (mask & O_SIZE) {
      eq("size()", cc.size(), n);
      eq("capacity()", cc.capacity(), r.cap);
      eq("space_left()", cc.space_left(), r.cap - n);
      eq("is_full()", cc.is_full(), n == r.cap);
      eq("is_empty()", cc.is_empty(), n == 0);
    }
    if (mask & O_ORDER) {
      size_t i = 0;
      for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it, ++i) {
        if (i >= n) fail(what, ": ordered iteration does not end");
        if (T::ki(it->first) != r.e[i].first)
          fail(what, ": position ", i, " of ", n, " in the order holds key ",
               T::ki(it->first), ", expected ", r.e[i].first);
        if ((mask & O_VALUES) && T::vi(it->second) != r.e[i].second)
          fail(what, ": value of key ", r.e[i].first, " is ",
               T::vi(it->second), ", expected ", r.e[i].second);
      }
      eq("number of entries by ordered iteration", i, n);
    }
    if (mask & O_BACK) {
      size_t i = n;
      auto it = c.ordered_end();
      while (it != c.ordered_begin()) {
        --it;
        if (i-- == 0) fail(what, ": backward iteration does not end");
        if (T::ki(it.key()) != r.e[i].first)
          fail(what, ": backward iteration gives key ", T::ki(it.key()),
               " at position ", i, " of ", n, ", expected ", r.e[i].first);
      }
      eq("rest of backward iteration", i, 0);
    }
    if (mask & O_UNORD) {
      static std::vector<int> value, stamp;
      static int now = 0;
      ++now;
      if (value.size() < 20000) value.resize(20000), stamp.resize(20000);
      for (auto& p : r.e) value[size_t(p.first)] = p.second, stamp[size_t(p.first)] = now;
      size_t i = 0;
      for (auto it = cc.begin(); it != cc.end(); ++it, ++i) {
        int k = T::ki((*it).first);
        if (i >= n || k < 0 || k >= 20000 || stamp[size_t(k)] != now)
          fail(what, ": unordered iteration unexpectedly gives key ", k,
               " as entry number ", i, " of ", n);
        stamp[size_t(k)] = 0;
        if ((mask & O_VALUES) && T::vi((*it).second) != value[size_t(k)])
          fail(what, ": value of key ", k, " is ", T::vi((*it).second),
               ", expected ", value[size_t(k)]);
      }
      eq("number of entries by unordered iteration", i, n);
    }
    if (mask & O_FRONT) front(cc, r, what, std::integral_constant<bool, !T::timed>());
  }
  static void front(const C&, const Ref&, const char*, std::false_type) {}
  static void front(const C& cc, const Ref& r, const char* what,
                    std::true_type) {
    if (r.e.empty()) return;
    if (T::ki(cc.front()) != r.e.back().first)
      fail(what, ": front() is ", T::ki(cc.front()), ", expected ",
           r.e.back().first);
    if (T::ki(cc.back()) != r.e.front().first)
      fail(what, ": back() is ", T::ki(cc.back()), ", expected ",
           r.e.front().first);
  }

  // A lookup in one of 8 forms.
  static bool access(C& c, int key, int form) {
    const C& cc = c;
    const auto k = T::mk(key);
    try {
      switch (form) {
        case 0: return c.contains(k);
        case 1: return cc.contains(k);
        case 2: return c.find(k) != c.end();
        case 3: return cc.find(k) != cc.end();
        case 4: (void)c.lookup(k); return true;
        case 5: (void)cc.lookup(k); return true;
        case 6: (void)c[k]; return true;
        default: (void)cc[k]; return true;
      }
    } catch (const LRU::Error::KeyNotFound&) {
    } catch (const LRU::Error::KeyExpired&) {
    }
    return false;
  }

  // How the cache gets its entries.
  static std::unique_ptr<C> build(int how, int n, Ref& r) {
    std::unique_ptr<C> c;
    switch (how) {
      case 0:  // exactly full
        c.reset(make(size_t(n)));
        r.cap = size_t(n);
        for (int i = 0; i < n; ++i) c->insert(T::mk(i), T::mv(i + 1)), r.insert(i, i + 1);
        break;
      case 1:  // full by evicting
        c.reset(make(size_t(n)));
        r.cap = size_t(n);
        for (int i = 0; i < n + 3; ++i) {
          int k = (i + n) % (n + 3);
          c->emplace(T::mk(k), T::mv(k + 1));
          r.insert(k, k + 1);
        }
        break;
      case 2:  // with room
        c.reset(make(size_t(n + 2)));
        r.cap = size_t(n + 2);
        for (int i = n; i-- > 0;) c->insert(T::mk(i), T::mv(i + 1)), r.insert(i, i + 1);
        break;
      default: {  // a copy, shuffled by lookups and with its capacity changed
        std::unique_ptr<C> o(make(size_t(2 * n)));
        Ref s;
        s.cap = size_t(2 * n);
        for (int i = 0; i < n; ++i) o->insert(T::mk(i), T::mv(i + 1)), s.insert(i, i + 1);
        for (int i = 0; i < n; i += 2) o->contains(T::mk(i)), s.use(i);
        c.reset(new C(*o));
        c->capacity(size_t(n));
        r = s;
        r.cap = size_t(n);
        break;
      }
    }
    return c;
  }
  static constexpr int HOWS = 4;
  static constexpr int OPS = 18;

  static const char* op_name(int op) {
    static const char* t[] = {
        "contains", "find(const)", "lookup", "operator[]", "update",
        "emplace of a present key", "erase(key)", "erase(unordered iterator)",
        "erase(ordered iterator)", "shrink", "capacity", "insert of new keys",
        "erase and insert again", "clear and refill", "write through find",
        "move and go on", "lookup of an absent key", "insert of a range"};
    return t[op];
  }

  // One execution: n entries, operation op at position p.
  static void one(int how, int n, int op, int p, unsigned mask) {
    Ref r;
    auto c = build(how, n, r);
    if (r.e.empty()) return;
    apply(c, r, op, p, mask);
    go_on(*c, r, mask);
  }

  // Operation op at position p (of at least one entry).
  static void apply(std::unique_ptr<C>& c, Ref& r, int op, int p, unsigned mask) {
    const int n = int(r.e.size());
    p = std::min(p, n - 1);
    const int k = r.e[size_t(p)].first;
    const int value = r.e[size_t(p)].second;
    const C& cc = *c;
    auto check = [&](bool ok) {
      if ((mask & O_RESULT) && !ok)
        fail(op_name(op), " gives a wrong result with ", n, " entries at ", p);
    };
    const int fresh = 10000;
    switch (op) {
      case 0: check(c->contains(T::mk(k))); r.use(k); break;
      case 1: {
        auto it = cc.find(T::mk(k));
        check(it != cc.end() && T::vi(it->second) == value);
        r.use(k);
        break;
      }
      case 2: check(T::vi(c->lookup(T::mk(k))) == value); r.use(k); break;
      case 3: check(T::vi((*c)[T::mk(k)]) == value); r.use(k); break;
      case 4: check(!c->insert(T::mk(k), T::mv(7)).was_inserted()); r.insert(k, 7); break;
      case 5: check(!c->emplace(T::mk(k), T::mv(7)).was_inserted()); r.insert(k, 7); break;
      case 6: check(c->erase(T::mk(k))); r.erase(k); break;
      case 7: {
        auto it = c->unordered_begin();
        while (it != c->unordered_end() && T::ki(it->first) != k) ++it;
        c->erase(it);
        r.erase(k);
        break;
      }
      case 8: {
        auto it = c->ordered_begin();
        while (it != c->ordered_end() && T::ki(it->first) != k) ++it;
        c->erase(it);
        r.erase(k);
        break;
      }
      case 9: c->shrink(size_t(p)); r.shrink(size_t(p)); break;
      case 10: c->capacity(size_t(p)); r.shrink(size_t(p)); r.cap = size_t(p); break;
      case 11:
        for (int i = 0; i <= p; ++i) {
          check(c->insert(T::mk(fresh + i), T::mv(3)).was_inserted());
          r.insert(fresh + i, 3);
        }
        break;
      case 12:
        check(c->erase(T::mk(k)));
        r.erase(k);
        check(c->insert(T::mk(k), T::mv(5)).was_inserted());
        r.insert(k, 5);
        break;
      case 13:
        c->clear();
        r.e.clear();
        for (int i = 0; i <= p; ++i) c->insert(T::mk(i), T::mv(9)), r.insert(i, 9);
        break;
      case 14: {
        auto it = c->find(T::mk(k));
        if (it != c->end()) it->second = T::mv(11);
        r.use(k);
        r.e.back().second = 11;
        break;
      }
      case 15: {
        std::unique_ptr<C> d(new C(std::move(*c)));
        c = std::move(d);
        check(c->contains(T::mk(k)));
        r.use(k);
        break;
      }
      case 16: check(!c->contains(T::mk(fresh)) && c->find(T::mk(fresh + 1)) == c->end()); break;
      default: {
        std::vector<std::pair<typename T::Key, typename T::Value>> l;
        size_t news = 0;
        for (int i = 0; i <= p; ++i) {
          int x = i % 2 ? fresh + i : i;
          l.emplace_back(T::mk(x), T::mv(2));
          news += r.insert(x, 2);
        }
        check(c->insert(l) == news);
        break;
      }
    }
    compare(*c, r, op_name(op), mask);
  }

  static void go_on(C& c_, Ref& r, unsigned mask) {
    C* c = &c_;
    // Going on: two new entries, and the least recently used ones go.
    for (int i = 0; i < 2; ++i) {
      if (i == 1 && !r.e.empty()) {
        int y = r.e[0].first;
        c->contains(T::mk(y));
        r.use(y);
      }
      bool b = c->insert(T::mk(15000 + i), T::mv(1)).was_inserted();
      bool e = r.insert(15000 + i, 1);
      if ((mask & O_RESULT) && b != e)
        fail("insertion says that the key was ", b ? "new" : "present",
             ", with ", r.e.size(), " entries now");
    }
    compare(*c, r, "going on", mask);
  }
};

inline std::vector<std::array<int, 4>>& n_events() {
  static std::vector<std::array<int, 4>> e;
  return e;
}
// Every size up to max_n; every position up to `all` entries, else the
// positions next to the ends and the middle.
template <class T>
void sweep_job(const std::string& name, int max_n, int all, int parts,
               unsigned mask, std::vector<int> more = {}) {
  std::string bounds =
      str("every size up to ", max_n, more.empty() ? "" : " and some more",
          ", ", Large<T>::HOWS, " ways to fill the cache, ", Large<T>::OPS,
          " operations at every position (up to ", all,
          " entries; else 9 positions)");
  search_job(
      name, parts,
      [=](Chooser& ch, Ctx& ctx) {
        int i = ch.choose(max_n + int(more.size()));
        int n = i < max_n ? i + 1 : more[size_t(i - max_n)];
        int how = ch.choose(Large<T>::HOWS);
        int op = ch.choose(Large<T>::OPS);
        ch.split();
        int p;
        if (n <= all) {
          p = ch.choose(n);
        } else {
          const int at[] = {0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2,
                            n - 1};
          p = at[ch.choose(9)];
        }
        if (verbose)
          say("  ", n, " entries (way ", how, "), ", Large<T>::op_name(op),
              " at position ", p);
        try {
          Large<T>::one(how, n, op, p, mask);
        } catch (Fail& f) {
          f.what += str(" [", n, " entries, filled in way ", how, ", ",
                        Large<T>::op_name(op), " at position ", p, "]");
          throw;
        }
        ctx.states += 1;
        ctx.transitions += uint64_t(n) + 3;
        if (ctx.evaluations % 9973 == 0)
          ctx.sample(str(n, " entries, ", Large<T>::op_name(op), " at ", p));
      },
      bounds);
}

// Two caches of every size: one is copied or moved to the other or swapped
// with it, then anything happens to one of them. The entries, the counts of
// accesses and the calls of the callbacks of both are compared.
enum class Between { COPY_CTOR, COPY_ASSIGN, COPY_SELF, MOVE_CTOR, MOVE_ASSIGN, SWAP, SWAP_FREE };
inline const char* between_name(Between b) {
  static const char* t[] = {"copy construction", "copy assignment", "self-assignment", "move construction",
                            "move assignment", "swap (member)", "swap (free)"};
  return t[int(b)];
}
template <class T>
void pair_job(const std::string& name, std::vector<Between> kinds, int max_n, int all, int parts, unsigned mask,
              std::vector<int> more = {}) {
  using L = Large<T>;
  using C = typename T::Cache;
  search_job(
      name, parts,
      [=](Chooser& ch, Ctx& ctx) {
        const int i = ch.choose(max_n + int(more.size()));
        const int n = i < max_n ? i + 1 : more[size_t(i - max_n)];
        const int how = ch.choose(L::HOWS);
        // The other one: empty, with one entry, smaller, as large, larger.
        const int others[] = {0, 1, n / 2, n, n + 2, 2 * n};
        const int m = others[ch.choose(6)];
        const Between kind = kinds[size_t(ch.choose(int(kinds.size())))];
        const bool touched = ch.flag();
        ch.split();
        const int op = ch.choose(L::OPS);
        const bool on_second = ch.flag();
        int p;
        if (n <= all) {
          p = ch.choose(n);
        } else {
          const int at[] = {0, n / 2, n - 1};
          p = at[ch.choose(3)];
        }
        if (verbose)
          say("  ", n, " entries (way ", how, ") and ", m, ", ", between_name(kind), touched ? " after an access" : "", ", ",
              L::op_name(op), " at ", p, on_second ? " of the second" : " of the first");
        Ref r, s;
        long hits[2] = {0, 0};  // callbacks of the first and of the second
        auto a = L::build(how, n, r);
        a->hit_callback([&hits](const typename T::Key&, const typename T::Value&) { ++hits[0]; });
        a->monitor(T::mk(1));
        std::unique_ptr<C> b;
        if (m == 0) {
          b.reset(L::make(3));
          s.cap = 3;
        } else {
          b = L::build((how + 1) % L::HOWS, m, s);
        }
        for (size_t j = 0; j < s.e.size(); ++j) s.e[j].second += 5000;
        for (auto it = b->begin(); it != b->end(); ++it) it->second = T::mv(T::vi(it->second) + 5000);
        b->hit_callback([&hits](const typename T::Key&, const typename T::Value&) { ++hits[1]; });
        if (touched) {
          const int k = r.e[size_t(n / 3)].first;
          a->lookup(T::mk(k));
          r.use(k);
          if (m > 0) {
            const int l = s.e[size_t(m / 2)].first;
            b->contains(T::mk(l));
            s.use(l);
          }
        }
        hits[0] = hits[1] = 0;
        int ca = 0, cb = 1;  // whose callbacks they have
        bool ma = true, mb = false;
        switch (kind) {
          case Between::COPY_CTOR: { const C& ac = *a; b.reset(new C(ac)); s = r; cb = ca; mb = ma; break; }
          case Between::COPY_ASSIGN: { const C& ac = *a; *b = ac; s = r; cb = ca; mb = ma; break; }
          case Between::COPY_SELF: { const C& ac = *a; *a = ac; break; }
          case Between::MOVE_CTOR: b.reset(new C(std::move(*a))); a.reset(L::make(2)); s = r; r = Ref(); r.cap = 2; cb = ca; mb = ma; ca = -1; ma = false; break;
          case Between::MOVE_ASSIGN: *b = std::move(*a); a.reset(L::make(2)); s = r; r = Ref(); r.cap = 2; cb = ca; mb = ma; ca = -1; ma = false; break;
          case Between::SWAP: a->swap(*b); std::swap(r, s); std::swap(ca, cb); std::swap(ma, mb); break;
          case Between::SWAP_FREE: { using std::swap; swap(*a, *b); std::swap(r, s); std::swap(ca, cb); std::swap(ma, mb); break; }
        }
        L::compare(*a, r, "the first, afterwards", mask);
        L::compare(*b, s, "the second, afterwards", mask);
        MC_CHECK(a->is_monitoring() == ma && b->is_monitoring() == mb, "monitoring is not as expected after ", between_name(kind));
        std::unique_ptr<C>& x = on_second ? b : a;
        Ref& y = on_second ? s : r;
        if (!y.e.empty()) {
          const int k = y.e[0].first;
          const int id = on_second ? cb : ca;
          const bool mon = on_second ? mb : ma;
          const size_t was = mon ? x->stats().total_accesses() : 0;
          MC_CHECK(x->contains(T::mk(k)), "key ", k, " is not found after ", between_name(kind));
          y.use(k);
          MC_CHECK(hits[0] == (id == 0) && hits[1] == (id == 1), "the callbacks are not as expected after ", between_name(kind));
          if (mon) MC_CHECK(x->stats().total_accesses() == was + 1, "the access is not counted after ", between_name(kind));
          L::apply(x, y, op, p, mask);
        }
        L::compare(*a, r, "the first, later", mask);
        L::compare(*b, s, "the second, later", mask);
        L::go_on(on_second ? *a : *b, on_second ? r : s, mask);
        L::compare(*x, y, "the changed one, at last", mask);
        x.reset();
        L::go_on(on_second ? *a : *b, on_second ? r : s, mask);
        ctx.states += 1;
        ctx.transitions += uint64_t(n) + 3;
        if (ctx.evaluations % 9973 == 0) ctx.sample(str(n, " and ", m, " entries, ", between_name(kind), ", ", L::op_name(op), " at ", p));
      },
      str("every size up to ", max_n, more.empty() ? "" : " and some more", ", ", L::HOWS, " ways to fill, 6 sizes of the other, ",
          kinds.size(), " operations between them, then ", L::OPS, " operations on either"));
}

// Statistics and callbacks at every size: lookups of every form, of every
// position and of absent keys, with this key monitored and another.
template <class T>
void access_job(const std::string& name, int max_n, int all, int parts, bool counts, bool calls, std::vector<int> more = {}) {
  using L = Large<T>;
  using C = typename T::Cache;
  using Key = typename T::Key;
  using Value = typename T::Value;
  search_job(
      name, parts,
      [=](Chooser& ch, Ctx& ctx) {
        const int i = ch.choose(max_n + int(more.size()));
        const int n = i < max_n ? i + 1 : more[size_t(i - max_n)];
        const int how = ch.choose(L::HOWS);
        int p;  // n: absent
        if (n <= all) {
          p = ch.choose(n + 1);
        } else {
          const int at[] = {0, 1, n / 2, n - 2, n - 1, n};
          p = at[ch.choose(6)];
        }
        ch.split();
        const int form = ch.choose(8), form2 = ch.choose(8);
        const int gap = ch.choose(4);
        Ref r;
        auto c = L::build(how, n, r);
        n_events().clear();
        const int k = p < n ? r.e[size_t(p)].first : 9999;
        const int other = r.e[size_t(n / 2)].first;
        c->monitor(T::mk(k), T::mk(9998));
        for (int j = 0; j < 2; ++j) {
          c->hit_callback([j](const Key& key, const Value& v) { n_events().push_back({0, j, T::ki(key), T::vi(v)}); });
          c->miss_callback([j](const Key& key) { n_events().push_back({1, j, T::ki(key), 0}); });
          c->access_callback([j](const Key& key, bool hit) { n_events().push_back({2, j, T::ki(key), int(hit)}); });
        }
        long total = 0, hits = 0, khits = 0, kmisses = 0;
        auto access = [&](int key, int f) {
          n_events().clear();
          const bool hit = r.use(key);
          const bool got = L::access(*c, key, f);
          MC_CHECK(got == hit, "a lookup of ", key, " gives ", got, ", expected ", hit);
          ++total;
          hits += hit;
          if (key == k) ++(hit ? khits : kmisses);
          if (!calls) return;
          for (int type = 0; type < 3; ++type) {
            std::vector<std::array<int, 4>> expected, seen;
            if (type == 2 || (type == 0) == hit)
              for (int j = 0; j < 2; ++j) expected.push_back({type, j, key, type == 0 ? r.e.back().second : type == 2 ? int(hit) : 0});
            for (auto& e : n_events())
              if (e[0] == type) seen.push_back(e);
            MC_CHECK(seen == expected, seen.size(), " calls of callbacks of type ", type, " (0 hit, 1 miss, 2 access) for key ", key,
                     ", expected ", expected.size(), " (or other arguments)");
          }
        };
        access(k, form);
        // Something in between that counts for nothing.
        n_events().clear();
        switch (gap) {
          case 0: break;
          case 1: c->insert(T::mk(other), T::mv(77)); r.insert(other, 77); break;
          case 2: c->emplace(T::mk(9000), T::mv(78)); r.insert(9000, 78); break;
          default: c->erase(T::mk(k)); r.erase(k); break;
        }
        if (calls) MC_CHECK(n_events().empty(), "a callback was called by something that is no lookup");
        access(k, form2);
        access(9998, form);
        access(other, form2);
        if (counts) {
          auto& s = c->stats();
          MC_CHECK(long(s.total_accesses()) == total && long(s.total_hits()) == hits && long(s.total_misses()) == total - hits,
                   s.total_accesses(), " accesses, ", s.total_hits(), " hits, ", s.total_misses(), " misses, expected ", total, " and ", hits, " hits");
          auto ks = s.stats_for(T::mk(k));
          const bool own = k == other;
          MC_CHECK(long(ks.hits) == khits && long(ks.misses) == kmisses, "hits and misses of the key: ", ks.hits, " and ", ks.misses,
                   ", expected ", khits, " and ", kmisses, own ? " (looked up three times)" : "");
          auto ms = s.stats_for(T::mk(9998));
          MC_CHECK(ms.hits == 0 && ms.misses == 1, "hits and misses of an absent key: ", ms.hits, " and ", ms.misses);
        }
        ctx.states += 1;
        ctx.transitions += 5;
        if (ctx.evaluations % 9973 == 0) ctx.sample(str(n, " entries, forms ", form, " and ", form2, " at ", p));
      },
      str("every size up to ", max_n, ", ", L::HOWS, " ways to fill, every position (up to ", all,
          " entries) and an absent key, 8 x 8 forms of lookups with 4 things between them"));
}

// A long run: the same pattern of accesses very many times (counters).
template <class T>
void long_run(const char* what, long rounds, unsigned mask) {
  (void)what;
  Ref r;
  auto c = Large<T>::build(0, 3, r);
  for (long i = 0; i < rounds; ++i) {
    int k = int(i % 4);
    bool got = c->contains(T::mk(k));
    bool expected = r.use(k);
    if (got != expected)
      fail("access number ", i, " gives ", got, ", expected ", expected);
    if (i % 5 == 0) {
      c->insert(T::mk(k), T::mv(int(i % 7)));
      r.insert(k, int(i % 7));
    }
    if (i % 4096 == 0) beat();
    if (i % 97 == 0) Large<T>::compare(*c, r, "long run", mask);
  }
  Large<T>::compare(*c, r, "long run", mask);
}
template <class T>
void long_job(const std::string& name, long rounds, unsigned mask) {
  search_job(
      name, 1, [=](Chooser&, Ctx& ctx) {
        long_run<T>(name.c_str(), rounds, mask);
        ctx.transitions += uint64_t(rounds);
        ctx.states += 1;
      },
      str("one run of ", rounds, " accesses"));
}

}  // namespace mc
