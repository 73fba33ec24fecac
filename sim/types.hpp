// Instrumented user types and allocators: the seams through which the code
// under test meets user code and memory.
#pragma once
#include <cmath>
#include <compare>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <type_traits>

#include "rt.hpp"

namespace sim {

template <class T> inline T* launder_ptr(T* p) { asm volatile("" : "+r"(p)); return p; }

static constexpr uint64_t kLive = 0x51a11fe0b1ec7000ULL, kDead = 0xdeaddeaddeaddeadULL;

// ---- tracked value: owns an id; copies may throw (unless NOTHROW), moves never do.
template <bool NOTHROW> struct TValT {
  uint64_t magic;
  uint64_t id;
  TValT() : id(0) {
    if (fault(F_VDEF)) throw SimThrow{F_VDEF};
    born();
  }
  explicit TValT(uint64_t i) : id(i) {
    if (fault(F_VCTOR)) throw SimThrow{F_VCTOR};
    obj.val_ctor += g.sut > 0;
    born();
  }
  TValT(uint64_t i, uint64_t j) : id(i + j) {
    if (fault(F_VCTOR)) throw SimThrow{F_VCTOR};
    obj.val_ctor += g.sut > 0;
    born();
  }
  TValT(const TValT& o) noexcept(NOTHROW) : id(0) {
    o.need("copied from");
    if constexpr (!NOTHROW) if (fault(F_VCOPY)) throw SimThrow{F_VCOPY};
    obj.val_copy += g.sut > 0;
    id = o.id;
    born();
  }
  TValT(TValT&& o) noexcept : id(0) {
    o.need("moved from");
    id = o.id; o.drop();
    obj.val_move += g.sut > 0;
    born();
  }
  TValT& operator=(const TValT& o) noexcept(NOTHROW) {
    need("assigned to"); o.need("copied from");
    if (this == &o) return *this;
    if constexpr (!NOTHROW) if (fault(F_VCOPY)) throw SimThrow{F_VCOPY};
    obj.val_copy += g.sut > 0;
    drop(); id = o.id; hold();
    return *this;
  }
  TValT& operator=(TValT&& o) noexcept {
    need("assigned to"); o.need("moved from");
    if (this == &o) return *this;
    obj.val_move += g.sut > 0;
    uint64_t i = o.id; o.drop(); drop(); id = i; hold();
    return *this;
  }
  ~TValT() {
    need("destroyed");
    drop();
    launder_ptr(this)->magic = kDead;
    --obj.live_vals;
  }
  bool operator==(const TValT& o) const { return id == o.id; }

 private:
  void born() {
    launder_ptr(this)->magic = kLive ^ (uint64_t)(uintptr_t)this;
    ++obj.live_vals;
    hold();
  }
  void hold() { if (id) { ++obj.holders; obj.holder_sum += mix64(id); } }
  void drop() { if (id) { --obj.holders; obj.holder_sum -= mix64(id); id = 0; } }
  void need(const char* what) const {
    if (launder_ptr(this)->magic != (kLive ^ (uint64_t)(uintptr_t)this))
      SIM_CHECK(false, "*", "value-not-alive", "a value object was %s while not alive (destroyed twice, never constructed, or copied bytewise)", what);
  }
};
using TVal = TValT<false>;
using RcVal = TValT<true>;   // like a reference-counted handle: copies cannot fail

// ---- tracked key.  Order by k/DIV, identity (==) by exact k.
struct TKey {
  uint64_t magic;
  int64_t k;
  uint8_t st;  // 0 default, 1 valid, 2 moved-from
  TKey() : k(0), st(0) {
    if (fault(F_KDEF)) throw SimThrow{F_KDEF};
    born();
  }
  explicit TKey(int64_t x) : k(x), st(1) { born(); hold(); }
  TKey(const TKey& o) : k(0), st(0) {
    o.need("copied from");
    if (fault(F_KCOPY)) throw SimThrow{F_KCOPY};
    obj.key_copy += g.sut > 0;
    k = o.k; st = o.st; born(); hold();
  }
  TKey(TKey&& o) noexcept : k(o.k), st(o.st) { o.need("moved from"); o.moved(); born(); hold(); }
  TKey& operator=(const TKey& o) {
    need("assigned to"); o.need("copied from");
    if (this == &o) return *this;
    if (fault(F_KCOPY)) throw SimThrow{F_KCOPY};
    obj.key_copy += g.sut > 0;
    drop(); k = o.k; st = o.st; hold();
    return *this;
  }
  TKey& operator=(TKey&& o) noexcept {
    need("assigned to"); o.need("moved from");
    if (this == &o) return *this;
    drop(); k = o.k; st = o.st; o.moved(); hold();
    return *this;
  }
  ~TKey() { need("destroyed"); drop(); launder_ptr(this)->magic = kDead; --obj.live_keys; }
  bool operator==(const TKey& o) const { use(); o.use(); return k == o.k; }
  bool operator!=(const TKey& o) const { return !(*this == o); }
  void use() const {
    need("compared");
    if (st != 1) SIM_CHECK(false, "*", "key-not-valid", "a %s key was compared", st == 0 ? "default-constructed (unoccupied)" : "moved-from");
  }

 private:
  void born() { launder_ptr(this)->magic = kLive ^ (uint64_t)(uintptr_t)this; ++obj.live_keys; }
  void moved() { if (st == 1) { drop(); st = 2; k = -777777; } }
  void hold() { if (st == 1) ++obj.key_holders; }
  void drop() { if (st == 1) --obj.key_holders; }
  void need(const char* what) const {
    if (launder_ptr(this)->magic != (kLive ^ (uint64_t)(uintptr_t)this))
      SIM_CHECK(false, "*", "key-not-alive", "a key object was %s while not alive (destroyed twice, never constructed, or copied bytewise)", what);
  }
};
template <int DIV, bool DESC> struct TCmp {
  static int64_t cls(int64_t k) { return k >= 0 ? k / DIV : -((-k + DIV - 1) / DIV); }
  bool operator()(const TKey& a, const TKey& b) const {
    a.use(); b.use();
    if (fault(F_CMP)) throw SimThrow{F_CMP};
    return DESC ? cls(b.k) < cls(a.k) : cls(a.k) < cls(b.k);
  }
};
// key without operator== at all would not compile against today's code; keep ==

// ---- big, over-aligned trivially copyable value
template <size_t BYTES, size_t ALIGN> struct alignas(ALIGN) BigVal {
  uint64_t id;
  unsigned char pad[BYTES - 8];
  BigVal() : id(0) { std::memset(pad, 0, sizeof pad); }
  explicit BigVal(uint64_t i) : id(i) { std::memset(pad, (int)(i * 37 + 11) & 0xff, sizeof pad); }
  BigVal(uint64_t i, uint64_t j) : BigVal(i + j) {}
  bool ok() const {
    unsigned char want = id ? (unsigned char)((id * 37 + 11) & 0xff) : 0;
    for (unsigned char c : pad) if (c != want) return false;
    return true;
  }
  bool operator==(const BigVal& o) const { return id == o.id; }
};

// ------------------------------------------------------------------ policies
// A key policy maps dense key numbers 0..n-1 (kid) to real keys, monotone for
// "less"; rank() gives the position under the comparator; eq classes share rank.
inline uint64_t ord64(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u >> 63 ? ~u : u | (1ULL << 63); }
inline double unord64(uint64_t u) { u = u >> 63 ? u & ~(1ULL << 63) : ~u; double d; std::memcpy(&d, &u, 8); return d; }
inline uint32_t ord32(float d) { uint32_t u; std::memcpy(&u, &d, 4); return u >> 31 ? ~u : u | (1u << 31); }
inline float unord32(uint32_t u) { u = u >> 31 ? u & ~(1u << 31) : ~u; float d; std::memcpy(&d, &u, 4); return d; }

template <class T, bool DESC = false> struct PrimKeys {
  using Key = T;
  using Cmp = std::conditional_t<DESC, std::greater<T>, std::less<T>>;
  static constexpr bool throwing = false;
  static inline std::vector<T> tab;
  static int64_t max_keys() { return sizeof(T) == 1 ? 250 : sizeof(T) == 2 ? 5000 : 100000; }
  // keys next to the powers of two and to the limits of the type, so that
  // neighbours differ in a single bit, in all of them or in the sign alone
  static std::vector<T> boundaries(int64_t n) {
    std::vector<T> c;
    if constexpr (std::is_floating_point_v<T>) {
      using L = std::numeric_limits<T>;
      for (T x : {(T)0, L::infinity(), L::max(), L::min(), L::denorm_min(), L::epsilon()}) { c.push_back(x); c.push_back(-x); }
      for (int e = L::min_exponent - 8; e < L::max_exponent; ++e) {
        T x = std::ldexp((T)1, e);
        for (T y : {x, std::nextafter(x, (T)0), std::nextafter(x, L::infinity())}) { c.push_back(y); c.push_back(-y); }
      }
    } else {
      using U = std::make_unsigned_t<T>;
      for (int b = 0; b < (int)sizeof(T) * 8; ++b)
        for (int d = -3; d <= 3; ++d) { U x = (U)((U)((U)1 << b) + (U)d); c.push_back((T)x); c.push_back((T)(U)~x); }
      c.push_back(std::numeric_limits<T>::min()); c.push_back(std::numeric_limits<T>::max());
    }
    auto tidy = [&] { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); };
    tidy();
    if ((int64_t)c.size() < n) {  // the rest in between
      for (int64_t i = 0; (int64_t)c.size() < n; ++i) {
        size_t have = c.size();
        for (size_t j = 0; j + 1 < have && (int64_t)c.size() < n; ++j) {
          T m = c[j];
          if constexpr (std::is_floating_point_v<T>) m = std::isinf(c[j]) || std::isinf(c[j + 1]) ? c[j] : c[j] / 2 + c[j + 1] / 2;
          else { using U = std::make_unsigned_t<T>; m = (T)(U)((U)c[j] + (U)((U)((U)c[j + 1] - (U)c[j]) / 2)); }
          if (c[j] < m && m < c[j + 1]) c.push_back(m);
        }
        tidy();
        if (c.size() == have) break;
      }
    }
    std::vector<T> r;
    const int64_t m = (int64_t)c.size();
    if (m <= n) return c;
    for (int64_t i = 0; i < n; ++i) r.push_back(c[(size_t)(n == 1 ? 0 : i * (m - 1) / (n - 1))]);
    return r;
  }
  static void setup(int64_t n, int64_t mode) {
    tab.clear(); flip = 0;
    if (mode == 4) { tab = boundaries(n); return; }
    for (int64_t i = 0; i < n; ++i) {
      if constexpr (std::is_floating_point_v<T>) {
        // spread over the ordered bit patterns: -inf .. +inf, no NaN, one zero
        if (mode == 0) tab.push_back((T)i);
        else if (mode == 1) tab.push_back((T)((double)(i - n / 2) * 0.5));
        else if constexpr (sizeof(T) == 8) {
          uint64_t lo = ord64(-std::numeric_limits<double>::infinity()), hi = ord64(std::numeric_limits<double>::infinity());
          if (mode == 3) lo = ord64(0.0);   // include denormals
          if (mode == 3) hi = lo + (uint64_t)n * 3;
          uint64_t st = (hi - lo) / (uint64_t)(n > 1 ? n - 1 : 1);
          uint64_t x = i == n - 1 ? hi : lo + st * (uint64_t)i;
          if (x == ord64(-0.0)) x -= 1;
          tab.push_back((T)unord64(x));
        } else {
          uint32_t lo = ord32(-std::numeric_limits<float>::infinity()), hi = ord32(std::numeric_limits<float>::infinity());
          if (mode == 3) { lo = ord32(0.0f); hi = lo + (uint32_t)n * 3; }
          uint32_t st = (hi - lo) / (uint32_t)(n > 1 ? n - 1 : 1);
          uint32_t x = i == n - 1 ? hi : lo + st * (uint32_t)i;
          if (x == ord32(-0.0f)) x -= 1;
          tab.push_back((T)unord32(x));
        }
      } else {
        using U = std::make_unsigned_t<T>;
        const U lo = (U)std::numeric_limits<T>::min();
        if (mode == 0) tab.push_back((T)i);
        else if (mode == 1) { U mid = (U)(lo + ((U)~(U)0) / 2); tab.push_back((T)(U)(mid - (U)(n / 2) + (U)i)); }
        else if (mode == 2) tab.push_back(i < n / 2 ? (T)(U)(lo + (U)i) : (T)(U)((U)std::numeric_limits<T>::max() - (U)(n - 1 - i)));
        else { U st = (U)((U)~(U)0 / (U)n); if (!st) st = 1; tab.push_back(i == n - 1 ? std::numeric_limits<T>::max() : (T)(U)(lo + (U)(st * (U)i))); }
      }
    }
    if (!tab.empty() && std::is_signed_v<T> && mode == 0 && n > 120 && sizeof(T) == 1) setup(n, 2);
  }
  static inline unsigned flip = 0;  // the two zeros are one key
  static T make(int64_t kid) {
    if constexpr (std::is_floating_point_v<T>) { if (tab[(size_t)kid] == 0) return (++flip & 1) ? (T)-0.0 : (T)0.0; }
    return tab[(size_t)kid];
  }
  static int64_t kid(const T& k) {
    auto it = std::lower_bound(tab.begin(), tab.end(), k);
    if (it == tab.end() || *it != k) return -1;
    return it - tab.begin();
  }
  static int64_t rank(int64_t kid) { return DESC ? -kid : kid; }
};
template <int DIV = 1, bool DESC = false> struct TrackedKeys {
  using Key = TKey;
  using Cmp = TCmp<DIV, DESC>;
  static constexpr bool throwing = true;
  static int64_t max_keys() { return 100000; }
  static void setup(int64_t, int64_t) {}
  static TKey make(int64_t kid) { return TKey(kid); }
  static int64_t kid(const TKey& k) { return k.st == 1 ? k.k : -1; }
  static int64_t rank(int64_t kid) { int64_t c = kid / DIV; return DESC ? -c : c; }
};
struct StrLess { bool operator()(const std::string& a, const std::string& b) const { return a < b; } };
template <bool DESC = false> struct StringKeys {
  using Key = std::string;
  using Cmp = std::conditional_t<DESC, std::greater<std::string>, std::less<std::string>>;
  static constexpr bool throwing = true;
  static int64_t max_keys() { return 100000; }
  static void setup(int64_t, int64_t) {}
  static std::string make(int64_t kid) { char b[64]; snprintf(b, sizeof b, "k%08lld-a-key-that-needs-heap", (long long)kid); std::string s(b); if (kid % 3 == 0) s = s.substr(0, 9); return s; }
  static int64_t kid(const std::string& s) { if (s.size() < 9 || s[0] != 'k') return -1; int64_t v = atoll(s.c_str() + 1); return make(v) == s ? v : -1; }
  static int64_t rank(int64_t kid) { return DESC ? -kid : kid; }
};
// case-insensitive strings: equivalence coarser than ==
struct CiLess {
  static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  bool operator()(const std::string& a, const std::string& b) const {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i) { int x = lc(a[i]), y = lc(b[i]); if (x != y) return x < y; }
    return a.size() < b.size();
  }
};
struct CiKeys {
  using Key = std::string;
  using Cmp = CiLess;
  static constexpr bool throwing = true;
  static int64_t max_keys() { return 100000; }
  static void setup(int64_t, int64_t) {}
  static std::string make(int64_t kid) { char b[64]; snprintf(b, sizeof b, "%08lld%s", (long long)(kid / 4), kid % 4 == 0 ? "ab" : kid % 4 == 1 ? "aB" : kid % 4 == 2 ? "Ab" : "AB"); return b; }
  static int64_t kid(const std::string& s) {
    if (s.size() != 10) return -1;
    int64_t v = atoll(s.substr(0, 8).c_str()) * 4 + (s[8] == 'A' ? 2 : 0) + (s[9] == 'B' ? 1 : 0);
    return make(v) == s ? v : -1;
  }
  static int64_t rank(int64_t kid) { return kid / 4; }
};

struct TrackedVals {
  using Value = TVal;
  static constexpr bool throwing = true, tracked = true;
  static TVal make(uint64_t id) { return TVal(id); }
  static uint64_t id(const TVal& v) { return v.id; }
  static bool ok(const TVal& v) { return launder_ptr(&v)->magic == (kLive ^ (uint64_t)(uintptr_t)&v); }
};
struct RcVals {
  using Value = RcVal;
  static constexpr bool throwing = false, tracked = true;
  static RcVal make(uint64_t id) { return RcVal(id); }
  static uint64_t id(const RcVal& v) { return v.id; }
  static bool ok(const RcVal& v) { return launder_ptr(&v)->magic == (kLive ^ (uint64_t)(uintptr_t)&v); }
};
struct I64Vals {
  using Value = int64_t;
  static constexpr bool throwing = false, tracked = false;
  static int64_t make(uint64_t id) { return (int64_t)id; }
  static uint64_t id(const int64_t& v) { return (uint64_t)v; }
  static bool ok(const int64_t&) { return true; }
};
template <size_t B, size_t A> struct BigVals {
  using Value = BigVal<B, A>;
  static constexpr bool throwing = false, tracked = false;
  static Value make(uint64_t id) { return id ? Value(id) : Value(); }
  static uint64_t id(const Value& v) { return v.id; }
  static bool ok(const Value& v) { return v.ok() && (uintptr_t)&v % A == 0; }
};
struct StrVals {
  using Value = std::string;
  static constexpr bool throwing = true, tracked = false;
  static std::string make(uint64_t id) { if (id == 0) return std::string(); std::string s = std::to_string(id); if (id % 2) s += "-a-value-string-that-needs-the-heap"; return s; }
  static uint64_t id(const std::string& v) { return v.empty() ? 0 : strtoull(v.c_str(), nullptr, 10); }
  static bool ok(const std::string& v) { return v == make(id(v)); }
};

// ------------------------------------------------------------------ SimAlloc
struct AllocDomain {
  int id;
  int64_t live[3] = {0, 0, 0};  // other, leaf, internal
  int64_t allocs = 0;
};
struct Ledger {
  struct Ent { AllocDomain* dom; size_t n, size; int kind; };
  std::unordered_map<void*, Ent> m;
};
extern Ledger ledger;
template <class T, class = void> struct is_leaf_like : std::false_type {};
template <class T> struct is_leaf_like<T, std::void_t<decltype(std::declval<T&>().next_leaf)>> : std::true_type {};
template <class T, class = void> struct is_internal_like : std::false_type {};
template <class T> struct is_internal_like<T, std::void_t<decltype(std::declval<T&>().children_are_leaves)>> : std::true_type {};

// POCMA / POCS / POCCA: propagation traits
template <class T, bool POCMA = true, bool POCS = true, bool POCCA = false> struct SimAlloc {
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using propagate_on_container_move_assignment = std::bool_constant<POCMA>;
  using propagate_on_container_swap = std::bool_constant<POCS>;
  using propagate_on_container_copy_assignment = std::bool_constant<POCCA>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = SimAlloc<U, POCMA, POCS, POCCA>; };
  AllocDomain* dom;
  explicit SimAlloc(AllocDomain* d) : dom(d) {}
  SimAlloc(const SimAlloc&) = default;
  SimAlloc& operator=(const SimAlloc&) = default;
  template <class U> explicit SimAlloc(const SimAlloc<U, POCMA, POCS, POCCA>& o) : dom(o.dom) {}
  template <class U> bool operator==(const SimAlloc<U, POCMA, POCS, POCCA>& o) const { return dom == o.dom; }
  template <class U> bool operator!=(const SimAlloc<U, POCMA, POCS, POCCA>& o) const { return dom != o.dom; }
  static int kind() {
    if constexpr (is_leaf_like<T>::value) return 1;
    else if constexpr (is_internal_like<T>::value) return 2;
    else return 0;
  }
  T* allocate(std::size_t n) {
    if (fault(F_ALLOC)) throw std::bad_alloc();
    NoSut ns;
    void* p = raw_alloc(alignof(T), n * sizeof(T));
    ledger.m[p] = {dom, n, sizeof(T), kind()};
    dom->live[kind()] += (int64_t)n;
    dom->allocs++;
    return (T*)p;
  }
  void deallocate(T* p, std::size_t n) {
    NoSut ns;
    auto it = ledger.m.find((void*)p);
    if (it == ledger.m.end()) violation("*", "node-release-unknown", "memory released that was never allocated or already released");
    if (it->second.dom != dom) SIM_CHECK(false, "C04,C05,C20", "node-release-foreign", "node allocated from allocator %d released to unequal allocator %d", it->second.dom->id, dom->id);
    if (it->second.n != n || it->second.size != sizeof(T)) SIM_CHECK(false, "C04,C05,C20", "node-release-size", "node of %zu x %zu bytes released as %zu x %zu bytes", it->second.n, it->second.size, n, sizeof(T));
    it->second.dom->live[it->second.kind] -= (int64_t)it->second.n;
    ledger.m.erase(it);
    raw_free((void*)p);
  }
};

}  // namespace sim
