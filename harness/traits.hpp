// Key, value and function types the caches are instantiated with.
#pragma once
#include "machine.hpp"

namespace mc {

// Extreme and look-alike values: anything treated as "no value" by accident.
struct EdgeTraits : TraitsBase<int, int> {
  static int mk(int i) {
    static const int t[] = {0, -1, INT_MIN, INT_MAX, 1};
    return t[i];
  }
  static int ki(int k) {
    for (int i = 0; i < 5; ++i)
      if (mk(i) == k) return i;
    return -1;
  }
  static int mv(int i) { return mk(i); }
  static int vi(int v) { return ki(v); }
};

// Strings, short ones and long ones.
inline std::string key_string(int i) {
  static const std::string t[] = {
      "", std::string(70, 'x'), "a", std::string(69, 'x') + "y", "b"};
  return t[i];
}
inline int index_of_string(const std::string& s) {
  for (int i = 0; i < 5; ++i)
    if (key_string(i) == s) return i;
  return -1;
}
struct StrTraits : TraitsBase<std::string, std::string> {
  static std::string mk(int i) { return key_string(i); }
  static int ki(const std::string& s) { return index_of_string(s); }
  static std::string mv(int i) { return key_string(i + 1); }
  static int vi(const std::string& s) { return index_of_string(s) - 1; }
};
template <class D>
struct TimedStrTraits : TimedTraitsBase<std::string, std::string, D> {
  static std::string mk(int i) { return key_string(i); }
  static int ki(const std::string& s) { return index_of_string(s); }
  static std::string mv(int i) { return key_string(i + 1); }
  static int vi(const std::string& s) { return index_of_string(s) - 1; }
};

// All keys collide / keys collide in pairs / neighbours far apart.
struct ConstHash {
  size_t operator()(int) const { return 42; }
};
struct PairHash {
  size_t operator()(int k) const { return size_t(k / 2); }
};
struct FarHash {
  size_t operator()(int k) const { return size_t(k) * 0x9e3779b97f4a7c15ull; }
};
template <class H>
struct HashTraits : TraitsBase<int, int, H> {
  static int mk(int i) { return i; }
  static int ki(int k) { return k; }
  static int mv(int i) { return i; }
  static int vi(int v) { return v; }
};
template <class D, class H>
struct TimedHashTraits : TimedTraitsBase<int, int, D, H> {
  static int mk(int i) { return i; }
  static int ki(int k) { return k; }
  static int mv(int i) { return i; }
  static int vi(int v) { return v; }
};

// Objects that know where they live: detects use before construction, after
// destruction and after being moved from, double destruction and leaks.
template <int Tag>
struct Tracked {
  static constexpr uint32_t ALIVE = 0xa11fe000, DEAD = 0xdeadbeef;
  inline static long live = 0;
  inline static long copies = 0, moves = 0;
  int id;
  uint32_t magic = ALIVE;
  Tracked* self = this;

  struct Make {};
  Tracked(Make, int i) : id(i) { ++live; }
  Tracked(const Tracked& o) : id(o.get()) {
    ++live;
    ++copies;
  }
  Tracked(Tracked&& o) : id(o.get()) {
    o.id = -1;
    ++live;
    ++moves;
  }
  Tracked& operator=(const Tracked& o) {
    get();
    id = o.get();
    ++copies;
    return *this;
  }
  Tracked& operator=(Tracked&& o) {
    get();
    int i = o.get();
    if (this != &o) o.id = -1;
    id = i;
    ++moves;
    return *this;
  }
  ~Tracked() {
    if (magic != ALIVE || self != this) {
      std::fputs("Assertion failed: destroying an object that is not alive\n",
                 stderr);
      std::abort();
    }
    magic = DEAD;
    --live;
  }
  int get() const {
    if (magic != ALIVE || self != this) {
      std::fputs("Assertion failed: using an object that is not alive\n",
                 stderr);
      std::abort();
    }
    return id;
  }
  bool operator==(const Tracked& o) const { return get() == o.get(); }
  bool operator!=(const Tracked& o) const { return get() != o.get(); }
};
using TKey = Tracked<0>;
using TValue = Tracked<1>;
}  // namespace mc
namespace std {
template <int Tag>
struct hash<mc::Tracked<Tag>> {
  size_t operator()(const mc::Tracked<Tag>& k) const { return size_t(k.get()); }
};
}  // namespace std
namespace mc {
template <class Base>
struct TrackedBase : Base {
  static TKey mk(int i) { return TKey(TKey::Make(), i); }
  static int ki(const TKey& k) { return k.get(); }
  static TValue mv(int i) { return TValue(TValue::Make(), i); }
  static int vi(const TValue& v) { return v.get(); }
  // Statistics keep keys of their own.
  static void check_live(size_t n, bool keys) {
    if ((keys && TKey::live != long(n)) || TValue::live != long(n)) {
      long k = TKey::live, v = TValue::live;
      TKey::live = TValue::live = 0;
      fail(k, " keys and ", v, " values are alive, expected ", n, " of each");
    }
  }
};
using TrackedTraits = TrackedBase<TraitsBase<TKey, TValue>>;
template <class D>
using TimedTrackedTraits = TrackedBase<TimedTraitsBase<TKey, TValue, D>>;

// Values only.
struct TrackedValueTraits : TraitsBase<int, TValue> {
  static int mk(int i) { return i; }
  static int ki(int k) { return k; }
  static TValue mv(int i) { return TValue(TValue::Make(), i); }
  static int vi(const TValue& v) { return v.get(); }
};

using Ns = std::chrono::nanoseconds;
using Us = std::chrono::microseconds;
using Ms = std::chrono::milliseconds;
using Sec = std::chrono::seconds;
using Min = std::chrono::minutes;
using MsDouble = std::chrono::duration<double, std::milli>;

// ------------------------------------------------------ parts of alphabets
inline Ops lookups(int nk, int slots = 1) {
  return Ops(nk, 1, slots).k({CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP,
                              LOOKUP_C, SUB, SUB_C});
}
inline void add(std::vector<Op>& v, const std::vector<Op>& w) {
  v.insert(v.end(), w.begin(), w.end());
}
// Everything one can do with a single cache and its contents.
inline std::vector<Op> everything(int nk, int slots = 1, bool lists = true,
                                  bool erase_held = false) {
  (void)erase_held;
  std::vector<Op> v = Ops(nk, 2, slots)
      .plain({CLEAR})
      .k({CONTAINS, CONTAINS_C, FIND, FIND_C, LOOKUP, LOOKUP_C, SUB, SUB_C,
          ERASE, ERASE_U, ERASE_UC, ERASE_O, ERASE_OC, ERASE_SELF})
      .kv({INSERT})
      .with(SHRINK, {0, 1, 2})
      .with(CAPACITY, {0, 1, 2, 3})
      .plain({ITERATE_O, ITERATE_U, ITERATE_BACK, DEREF_ALL});
  for (int s = 0; s < slots; ++s) {
    for (int i = 0; i < nk; ++i) {
      v.push_back({INSERT_T, s, i, 1});
      v.push_back({EMPLACE, s, i, 0});
      v.push_back({EMPLACE_L, s, i, 1});
      v.push_back({EMPLACE_PW, s, i, 0});
      v.push_back({W_LOOKUP, s, i, 1});
      v.push_back({W_SUB, s, i, 0});
      v.push_back({W_FIND, s, i, 1});
      v.push_back({W_UIT, s, i, 0});
      v.push_back({W_OIT, s, i, 1});
    }
    for (int t = 0; t < slots; ++t)
      for (int kind : {COPY_ASSIGN, COPY_CTOR, COPY_CTOR_NC, MOVE_CTOR,
                       SWAP_MEMBER, SWAP_FREE, COMPARE})
        v.push_back({kind, s, t, 0});
  }
  if (lists)
    for (int s = 0; s < slots; ++s) {
      for (int l = 0; l < 4; ++l)
        for (int kind : {INSERT_IT, INSERT_RANGE, INSERT_IL, INSERT_RV})
          v.push_back({kind, s, l, 0});
      for (int kind : {ASSIGN_RANGE, ASSIGN_IL, ASSIGN_RV})
        v.push_back({kind, s, 1, 0});
    }
  return v;
}
inline std::vector<std::vector<std::pair<int, int>>> some_lists() {
  return {{}, {{1, 1}, {0, 0}}, {{2, 0}, {0, 1}, {2, 1}},
          {{0, 1}, {1, 0}, {2, 1}, {0, 0}}};
}

}  // namespace mc
