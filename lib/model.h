// What parsing to and serialising from each supported type means, on JSON value trees.
//
//   M<T>::read(v, t, env)  what parsing the value v does to an object t; false when it is an error
//   M<T>::write(t, v)      the value that t is written as; false when nothing is written
//   M<T>::dump(t, o)       canonical rendering, equal exactly for equal objects
//   M<T>::count(), make(i) a small domain of objects
#pragma once
#ifndef JS_STL_MAP
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_UNORDERED_SET 1
#define JS_STL_ARRAY 1
#define JS_STD_TIMEPOINT 1
#define JS_INT_128 1
#endif
#include "js_util.h"
#include "jv.h"
#include <limits>
#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

struct Env
{
  const char *src = nullptr; // the text the values were read from
  bool allow_missing = true, allow_unassigned = true, track = true;
  std::vector<std::string> missing, unassigned;
};

template <class T, class = void>
struct M;

inline void dump_str(const std::string &s, std::string &o)
{
  o += '\'';
  o += mc::show(s);
  o += '\'';
}

template <class T>
std::string dump(const T &t)
{
  std::string o;
  M<T>::dump(t, o);
  return o;
}

// ---- scalars ----
template <class T>
std::string int_text(T v)
{
  bool neg = v < 0;
  std::string s;
  if (v == 0)
    s = "0";
  while (v != 0)
  {
    int d = int(v % 10);
    s.insert(s.begin(), char('0' + (d < 0 ? -d : d)));
    v /= 10;
  }
  return neg ? "-" + s : s;
}
template <class T>
struct MInt
{
  static bool read(const JV &v, T &t, Env &)
  {
    if (v.container())
      return false;
    return ref::to_int<T>(v.text, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), t);
  }
  static bool write(const T &t, JV &v)
  {
    v.kind = JV::Num;
    v.text = int_text(t);
    return true;
  }
  static void dump(const T &t, std::string &o)
  {
    o += int_text(t);
  }
  static size_t count()
  {
    return 4;
  }
  static T make(size_t i)
  {
    switch (i)
    {
    case 0:
      return T(0);
    case 1:
      return T(17);
    case 2:
      return std::numeric_limits<T>::max();
    default:
      return std::numeric_limits<T>::min();
    }
  }
};
#define M_INT(T)                                                                                                       \
  template <>                                                                                                          \
  struct M<T, void> : MInt<T>                                                                                          \
  {                                                                                                                    \
  };
M_INT(char)
M_INT(signed char)
M_INT(unsigned char)
M_INT(short)
M_INT(unsigned short)
M_INT(int)
M_INT(unsigned int)
M_INT(long)
M_INT(unsigned long)
M_INT(long long)
M_INT(unsigned long long)
M_INT(__int128)
M_INT(unsigned __int128)

// Points in time: a number of seconds, milliseconds, microseconds or nanoseconds, told apart by its size, and
// written in the coarsest of these that is exact. A clock that is not the high resolution one stops at microseconds.
template <class C, class D>
struct M<std::chrono::time_point<C, D>, void>
{
  using T = std::chrono::time_point<C, D>;
  static constexpr bool fine = std::is_same<std::chrono::high_resolution_clock::time_point, T>::value;
  static bool read(const JV &v, T &t, Env &)
  {
    uint64_t n;
    if (v.container() || !ref::to_int<uint64_t>(v.text, 0, ~uint64_t(0), n))
      return false;
    unsigned __int128 ns = n;
    if (n <= 100000000000u)
      ns *= 1000000000u;
    else if (n <= 100000000000000u)
      ns *= 1000000u;
    else if (n <= 100000000000000000u)
      ns *= 1000u;
    else if (!fine)
      return false;
    if (ns > (unsigned __int128)std::numeric_limits<int64_t>::max())
      return false;
    t = T(std::chrono::duration_cast<D>(std::chrono::nanoseconds(int64_t(ns))));
    return true;
  }
  static int64_t ns(const T &t)
  {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
  }
  static bool write(const T &t, JV &v)
  {
    uint64_t n = uint64_t(ns(t));
    if (!fine)
      n /= 1000;
    while (n % 1000 == 0 && n > 10000000000u)
      n /= 1000;
    v.kind = JV::Num;
    v.text = int_text(n);
    return true;
  }
  static void dump(const T &t, std::string &o)
  {
    o += int_text(ns(t));
  }
  // the epoch, and points on both sides of every change of unit
  static const std::vector<int64_t> &domain()
  {
    static std::vector<int64_t> d;
    if (d.empty())
    {
      d.push_back(0);
      for (int64_t s : std::initializer_list<int64_t>{100000000, 100000001, 999999999, 1000000000, 1000001000, 1234567890, 1600000000, 1625409497, 1700000000, 2000000000, 5000000000, 9000000000})
        for (int64_t sub : {0, 1000, 2000, 999000, 1000000, 1001000, 2000000, 999000000, 999999000, 1, 999, 1001, 999999999})
          if (fine || sub % 1000 == 0)
            d.push_back(s * 1000000000 + sub);
      d.push_back(9223372000ll * 1000000000);
      d.push_back(9223372036ll * 1000000000);
      d.push_back(fine ? std::numeric_limits<int64_t>::max() : 9223372036854775000ll);
    }
    return d;
  }
  static size_t count()
  {
    return domain().size();
  }
  static T make(size_t i)
  {
    return T(std::chrono::duration_cast<D>(std::chrono::nanoseconds(domain()[i % domain().size()])));
  }
};

template <class T>
struct MFloat
{
  static bool read(const JV &v, T &t, Env &)
  {
    if (v.container())
      return false;
    if (sizeof(T) == 8)
    {
      double d;
      if (!ref::to_double(v.text, d))
        return false;
      t = T(d);
      return true;
    }
    float f;
    if (!ref::to_float(v.text, f))
      return false;
    t = T(f);
    return true;
  }
  static bool write(const T &t, JV &v)
  {
    char b[64];
    snprintf(b, sizeof b, "%.*g", std::numeric_limits<T>::max_digits10, double(t));
    // the shortest text that reads back
    for (int p = 1; p <= std::numeric_limits<T>::max_digits10; p++)
    {
      snprintf(b, sizeof b, "%.*g", p, double(t));
      if ((sizeof(T) == 8 ? T(strtod(b, nullptr)) : T(strtof(b, nullptr))) == t)
        break;
    }
    v.kind = JV::Num;
    v.text = b;
    return true;
  }
  static void dump(const T &t, std::string &o)
  {
    char b[64];
    snprintf(b, sizeof b, "%.*g", std::numeric_limits<T>::max_digits10, double(t));
    o += b;
  }
  static size_t count()
  {
    return 4;
  }
  static T make(size_t i)
  {
    static const T v[] = {T(0), T(1.5), T(-0.1), T(1e30)};
    return v[i];
  }
};
template <>
struct M<double, void> : MFloat<double>
{
};
template <>
struct M<float, void> : MFloat<float>
{
};

template <>
struct M<bool, void>
{
  static bool read(const JV &v, bool &t, Env &)
  {
    if (v.container() || (v.text != "true" && v.text != "false"))
      return false;
    t = v.text == "true";
    return true;
  }
  static bool write(const bool &t, JV &v)
  {
    v.kind = JV::Bool;
    v.text = t ? "true" : "false";
    return true;
  }
  static void dump(const bool &t, std::string &o)
  {
    o += t ? "T" : "F";
  }
  static size_t count()
  {
    return 2;
  }
  static bool make(size_t i)
  {
    return i == 0;
  }
};

template <>
struct M<std::string, void>
{
  static bool read(const JV &v, std::string &t, Env &e)
  {
    if (v.container())
      t.assign(e.src + v.b, v.e - v.b);
    else
      t = ref::decode(v.text);
    return true;
  }
  static bool write(const std::string &t, JV &v)
  {
    v.kind = JV::Str;
    v.text = ref::encode(t);
    return true;
  }
  static void dump(const std::string &t, std::string &o)
  {
    dump_str(t, o);
  }
  static size_t count()
  {
    return 4;
  }
  static std::string make(size_t i)
  {
    static const char *v[] = {"", "a", "q\"\\\n\x01]", "long enough to not be stored in place \xc3\xa9\\"};
    return v[i];
  }
};

// ---- wrappers ----
#define M_DOMAIN(T, INNER, EMPTY)                                                                                      \
  static size_t count()                                                                                                \
  {                                                                                                                    \
    return M<INNER>::count() + (EMPTY ? 1 : 0);                                                                        \
  }

template <class T>
struct M<JS::Nullable<T>, void>
{
  static bool read(const JV &v, JS::Nullable<T> &t, Env &e)
  {
    if (v.kind == JV::Null)
      return true;
    return M<T>::read(v, t.data, e);
  }
  static bool write(const JS::Nullable<T> &t, JV &v)
  {
    return M<T>::write(t.data, v);
  }
  static void dump(const JS::Nullable<T> &t, std::string &o)
  {
    M<T>::dump(t.data, o);
  }
  static size_t count()
  {
    return M<T>::count();
  }
  static JS::Nullable<T> make(size_t i)
  {
    return JS::Nullable<T>(M<T>::make(i));
  }
};
template <class T>
struct M<JS::NullableChecked<T>, void>
{
  static bool read(const JV &v, JS::NullableChecked<T> &t, Env &e)
  {
    t.null = v.kind == JV::Null;
    return t.null || M<T>::read(v, t.data, e);
  }
  static bool write(const JS::NullableChecked<T> &t, JV &v)
  {
    if (!t.null)
      return M<T>::write(t.data, v);
    v.kind = JV::Null;
    v.text = "null";
    return true;
  }
  static void dump(const JS::NullableChecked<T> &t, std::string &o)
  {
    if (t.null)
      o += "null";
    else
      M<T>::dump(t.data, o);
  }
  static size_t count()
  {
    return M<T>::count() + 1;
  }
  static JS::NullableChecked<T> make(size_t i)
  {
    return i == 0 ? JS::NullableChecked<T>() : JS::NullableChecked<T>(M<T>::make(i - 1));
  }
};
template <class T>
struct M<JS::Optional<T>, void>
{
  static bool read(const JV &v, JS::Optional<T> &t, Env &e)
  {
    return M<T>::read(v, t.data, e);
  }
  static bool write(const JS::Optional<T> &t, JV &v)
  {
    return M<T>::write(t.data, v);
  }
  static void dump(const JS::Optional<T> &t, std::string &o)
  {
    M<T>::dump(t.data, o);
  }
  static size_t count()
  {
    return M<T>::count();
  }
  static JS::Optional<T> make(size_t i)
  {
    return JS::Optional<T>(M<T>::make(i));
  }
};
template <class T>
struct M<JS::OptionalChecked<T>, void>
{
  static bool read(const JV &v, JS::OptionalChecked<T> &t, Env &e)
  {
    t.assigned = true;
    return M<T>::read(v, t.data, e);
  }
  static bool write(const JS::OptionalChecked<T> &t, JV &v)
  {
    return t.assigned && M<T>::write(t.data, v);
  }
  static void dump(const JS::OptionalChecked<T> &t, std::string &o)
  {
    if (t.assigned)
      M<T>::dump(t.data, o);
    else
      o += "none";
  }
  static size_t count()
  {
    return M<T>::count() + 1;
  }
  static JS::OptionalChecked<T> make(size_t i)
  {
    return i == 0 ? JS::OptionalChecked<T>() : JS::OptionalChecked<T>(M<T>::make(i - 1));
  }
};
template <class T>
struct M<std::optional<T>, void>
{
  static bool read(const JV &v, std::optional<T> &t, Env &e)
  {
    t.emplace();
    return M<T>::read(v, *t, e);
  }
  static bool write(const std::optional<T> &t, JV &v)
  {
    return t && M<T>::write(*t, v);
  }
  static void dump(const std::optional<T> &t, std::string &o)
  {
    if (t)
      M<T>::dump(*t, o);
    else
      o += "none";
  }
  static size_t count()
  {
    return M<T>::count() + 1;
  }
  static std::optional<T> make(size_t i)
  {
    std::optional<T> o;
    if (i)
      o.emplace(M<T>::make(i - 1));
    return o;
  }
};
template <class P, class T>
struct MPtr
{
  static bool read(const JV &v, P &t, Env &e)
  {
    if (v.kind == JV::Null)
    {
      t.reset();
      return true;
    }
    if (!t)
      t.reset(new T());
    return M<T>::read(v, *t, e);
  }
  static bool write(const P &t, JV &v)
  {
    if (t)
      return M<T>::write(*t, v);
    v.kind = JV::Null;
    v.text = "null";
    return true;
  }
  static void dump(const P &t, std::string &o)
  {
    if (t)
      M<T>::dump(*t, o);
    else
      o += "null";
  }
  static size_t count()
  {
    return M<T>::count() + 1;
  }
  static P make(size_t i)
  {
    return i == 0 ? P() : P(new T(M<T>::make(i - 1)));
  }
};
template <class T>
struct M<std::unique_ptr<T>, void> : MPtr<std::unique_ptr<T>, T>
{
};
template <class T>
struct M<std::shared_ptr<T>, void> : MPtr<std::shared_ptr<T>, T>
{
};
template <>
struct M<JS::SilentString, void>
{
  static bool read(const JV &v, JS::SilentString &t, Env &e)
  {
    return M<std::string>::read(v, t.data, e);
  }
  static bool write(const JS::SilentString &t, JV &v)
  {
    return !t.data.empty() && M<std::string>::write(t.data, v);
  }
  static void dump(const JS::SilentString &t, std::string &o)
  {
    dump_str(t.data, o);
  }
  static size_t count()
  {
    return M<std::string>::count();
  }
  static JS::SilentString make(size_t i)
  {
    JS::SilentString s;
    s.data = M<std::string>::make(i);
    return s;
  }
};
template <class T>
struct M<JS::SilentUniquePtr<T>, void>
{
  using P = M<std::unique_ptr<T>>;
  static bool read(const JV &v, JS::SilentUniquePtr<T> &t, Env &e)
  {
    return P::read(v, t.data, e);
  }
  static bool write(const JS::SilentUniquePtr<T> &t, JV &v)
  {
    return t.data && P::write(t.data, v);
  }
  static void dump(const JS::SilentUniquePtr<T> &t, std::string &o)
  {
    P::dump(t.data, o);
  }
  static size_t count()
  {
    return P::count();
  }
  static JS::SilentUniquePtr<T> make(size_t i)
  {
    JS::SilentUniquePtr<T> s;
    s.data = P::make(i);
    return s;
  }
};

// ---- sequences ----
// domain: none, every single element, pairs of the first few, and one longer than the initial reservation
template <class C, class T>
struct SeqDomain
{
  static size_t pairs()
  {
    return std::min<size_t>(M<T>::count(), 3);
  }
  static size_t count()
  {
    return 2 + M<T>::count() + pairs() * pairs();
  }
  template <class Add>
  static void fill(size_t i, Add add)
  {
    if (i == 0)
      return;
    i--;
    if (i < M<T>::count())
    {
      add(M<T>::make(i));
      return;
    }
    i -= M<T>::count();
    if (i < pairs() * pairs())
    {
      add(M<T>::make(i / pairs()));
      add(M<T>::make(i % pairs()));
      return;
    }
    for (size_t k = 0; k < 13; k++)
      add(M<T>::make(k % M<T>::count()));
  }
};
template <class C>
void dump_seq(const C &c, std::string &o)
{
  o += '[';
  bool first = true;
  for (auto &&x : c)
  {
    if (!first)
      o += ',';
    first = false;
    M<std::decay_t<decltype(x)>>::dump(x, o);
  }
  o += ']';
}
template <class C>
bool write_seq(const C &c, JV &v)
{
  v.kind = JV::Arr;
  for (auto &&x : c)
  {
    JV k;
    if (M<std::decay_t<decltype(x)>>::write(x, k))
      v.kids.push_back(k);
  }
  return true;
}
template <class T>
struct M<std::vector<T>, void> : SeqDomain<std::vector<T>, T>
{
  static bool read(const JV &v, std::vector<T> &t, Env &e)
  {
    if (v.kind != JV::Arr)
      return false;
    t.clear();
    for (auto &k : v.kids)
    {
      T x = T();
      if (!M<T>::read(k, x, e))
        return false;
      t.push_back(std::move(x));
    }
    return true;
  }
  static bool write(const std::vector<T> &t, JV &v)
  {
    return write_seq(t, v);
  }
  static void dump(const std::vector<T> &t, std::string &o)
  {
    dump_seq(t, o);
  }
  static std::vector<T> make(size_t i)
  {
    std::vector<T> r;
    SeqDomain<std::vector<T>, T>::fill(i, [&](T &&x) { r.push_back(std::move(x)); });
    return r;
  }
};
template <>
struct M<std::vector<bool>, void> : SeqDomain<std::vector<bool>, bool>
{
  static bool read(const JV &v, std::vector<bool> &t, Env &e)
  {
    if (v.kind != JV::Arr)
      return false;
    t.clear();
    for (auto &k : v.kids)
    {
      bool x = false;
      if (!M<bool>::read(k, x, e))
        return false;
      t.push_back(x);
    }
    return true;
  }
  static bool write(const std::vector<bool> &t, JV &v)
  {
    v.kind = JV::Arr;
    for (bool b : t)
    {
      v.kids.emplace_back();
      M<bool>::write(b, v.kids.back());
    }
    return true;
  }
  static void dump(const std::vector<bool> &t, std::string &o)
  {
    o += '[';
    for (bool b : t)
      o += b ? 'T' : 'F';
    o += ']';
  }
  static std::vector<bool> make(size_t i)
  {
    std::vector<bool> r;
    SeqDomain<std::vector<bool>, bool>::fill(i, [&](bool x) { r.push_back(x); });
    return r;
  }
};
template <class T>
struct M<JS::SilentVector<T>, void>
{
  using V = M<std::vector<T>>;
  static bool read(const JV &v, JS::SilentVector<T> &t, Env &e)
  {
    return V::read(v, t.data, e);
  }
  static bool write(const JS::SilentVector<T> &t, JV &v)
  {
    return !t.data.empty() && V::write(t.data, v);
  }
  static void dump(const JS::SilentVector<T> &t, std::string &o)
  {
    V::dump(t.data, o);
  }
  static size_t count()
  {
    return V::count();
  }
  static JS::SilentVector<T> make(size_t i)
  {
    JS::SilentVector<T> s;
    s.data = V::make(i);
    return s;
  }
};
template <class T>
struct M<JS::OneOrMany<T>, void>
{
  using V = M<std::vector<T>>;
  static bool read(const JV &v, JS::OneOrMany<T> &t, Env &e)
  {
    if (v.kind == JV::Arr)
      return V::read(v, t.data, e);
    t.data.clear();
    T x = T();
    if (!M<T>::read(v, x, e))
      return false;
    t.data.push_back(std::move(x));
    return true;
  }
  static bool write(const JS::OneOrMany<T> &t, JV &v)
  {
    if (t.data.empty())
      return false;
    return t.data.size() == 1 ? M<T>::write(t.data[0], v) : V::write(t.data, v);
  }
  static void dump(const JS::OneOrMany<T> &t, std::string &o)
  {
    V::dump(t.data, o);
  }
  static size_t count()
  {
    return V::count();
  }
  static JS::OneOrMany<T> make(size_t i)
  {
    JS::OneOrMany<T> s;
    s.data = V::make(i);
    return s;
  }
};
template <class A, class T, size_t N>
struct MFixed
{
  static bool read(const JV &v, A &t, Env &e)
  {
    if (v.kind != JV::Arr || v.kids.size() != N)
      return false;
    for (size_t i = 0; i < N; i++)
      if (!M<T>::read(v.kids[i], t[i], e))
        return false;
    return true;
  }
  static bool write(const A &t, JV &v)
  {
    return write_seq(t, v);
  }
  static void dump(const A &t, std::string &o)
  {
    dump_seq(t, o);
  }
  static size_t count()
  {
    return M<T>::count() + 1;
  }
  static void fill(A &t, size_t i)
  {
    for (size_t k = 0; k < N; k++)
      t[k] = i < M<T>::count() ? M<T>::make((i + (k == 1 ? 1 : 0)) % M<T>::count()) : M<T>::make(k % M<T>::count());
  }
};
template <class T, size_t N>
struct M<std::array<T, N>, void> : MFixed<std::array<T, N>, T, N>
{
  static std::array<T, N> make(size_t i)
  {
    std::array<T, N> a{};
    MFixed<std::array<T, N>, T, N>::fill(a, i);
    return a;
  }
};
template <class T, size_t N>
struct M<T[N], void> : MFixed<T[N], T, N>
{
};
template <class T, size_t N>
struct M<JS::ArrayVariableContent<T, N>, void>
{
  using A = JS::ArrayVariableContent<T, N>;
  static bool read(const JV &v, A &t, Env &e)
  {
    if (v.kind != JV::Arr || v.kids.size() > N)
      return false;
    t.size = v.kids.size();
    for (size_t i = 0; i < t.size; i++)
      if (!M<T>::read(v.kids[i], t.data[i], e))
        return false;
    return true;
  }
  static bool write(const A &t, JV &v)
  {
    v.kind = JV::Arr;
    for (size_t i = 0; i < t.size; i++)
    {
      JV k;
      if (M<T>::write(t.data[i], k))
        v.kids.push_back(k);
    }
    return true;
  }
  static void dump(const A &t, std::string &o)
  {
    o += std::to_string(t.size) + "[";
    for (size_t i = 0; i < t.size && i < N; i++)
    {
      o += i ? "," : "";
      M<T>::dump(t.data[i], o);
    }
    o += ']';
  }
  static size_t count()
  {
    return N + 1;
  }
  static A make(size_t i)
  {
    A a;
    for (size_t k = 0; k < N; k++)
      a.data[k] = T();
    a.size = i;
    for (size_t k = 0; k < i; k++)
      a.data[k] = M<T>::make((i + k) % M<T>::count());
    return a;
  }
};
template <class S, class T>
struct MSet
{
  static bool read(const JV &v, S &t, Env &e)
  {
    if (v.kind != JV::Arr)
      return false;
    t.clear();
    for (auto &k : v.kids)
    {
      T x = T();
      if (!M<T>::read(k, x, e))
        return false;
      if (!t.insert(std::move(x)).second)
        return false;
    }
    return true;
  }
  static bool write(const S &t, JV &v)
  {
    return write_seq(t, v);
  }
  static void dump(const S &t, std::string &o)
  {
    std::set<std::string> items;
    for (auto &x : t)
      items.insert(::dump(x));
    o += '<';
    for (auto &s : items)
      o += s + ",";
    o += '>';
  }
  static size_t count()
  {
    return M<T>::count() + 2;
  }
  static S make(size_t i)
  {
    S s;
    if (i == 1)
      for (size_t k = 0; k < M<T>::count(); k++)
        s.insert(M<T>::make(k));
    else if (i > 1)
      s.insert(M<T>::make(i - 2));
    return s;
  }
};
template <class T>
struct M<std::set<T>, void> : MSet<std::set<T>, T>
{
};
template <class T>
struct M<std::unordered_set<T>, void> : MSet<std::unordered_set<T>, T>
{
};

// ---- tuples ----
template <class Tup, size_t N, template <size_t> class At>
struct MTuple;

template <class G, size_t I, size_t N>
struct TupleOps
{
  template <class Tup>
  static bool read(const JV &v, Tup &t, Env &e)
  {
    auto &x = G::template get<I>(t);
    return M<std::decay_t<decltype(x)>>::read(v.kids[I], x, e) && TupleOps<G, I + 1, N>::read(v, t, e);
  }
  template <class Tup>
  static void write(const Tup &t, JV &v)
  {
    auto &x = G::template get<I>(t);
    JV k;
    if (M<std::decay_t<decltype(x)>>::write(x, k))
      v.kids.push_back(k);
    TupleOps<G, I + 1, N>::write(t, v);
  }
  template <class Tup>
  static void dump(const Tup &t, std::string &o)
  {
    auto &x = G::template get<I>(t);
    M<std::decay_t<decltype(x)>>::dump(x, o);
    o += ';';
    TupleOps<G, I + 1, N>::dump(t, o);
  }
  template <class Tup>
  static void fill(Tup &t, size_t i)
  {
    auto &x = G::template get<I>(t);
    using X = M<std::decay_t<decltype(x)>>;
    x = X::make((i + I) % X::count());
    TupleOps<G, I + 1, N>::fill(t, i);
  }
};
template <class G, size_t N>
struct TupleOps<G, N, N>
{
  template <class Tup>
  static bool read(const JV &, Tup &, Env &)
  {
    return true;
  }
  template <class Tup>
  static void write(const Tup &, JV &)
  {
  }
  template <class Tup>
  static void dump(const Tup &, std::string &)
  {
  }
  template <class Tup>
  static void fill(Tup &, size_t)
  {
  }
};
struct StdGet
{
  template <size_t I, class T>
  static auto &get(T &t)
  {
    return std::get<I>(t);
  }
};
struct JsGet
{
  template <size_t I, class T>
  static auto &get(T &t)
  {
    return t.template get<I>();
  }
};
template <class Tup, class G, size_t N>
struct MTup
{
  static bool read(const JV &v, Tup &t, Env &e)
  {
    return v.kind == JV::Arr && v.kids.size() == N && TupleOps<G, 0, N>::read(v, t, e);
  }
  static bool write(const Tup &t, JV &v)
  {
    v.kind = JV::Arr;
    TupleOps<G, 0, N>::write(t, v);
    return true;
  }
  static void dump(const Tup &t, std::string &o)
  {
    o += '(';
    TupleOps<G, 0, N>::dump(t, o);
    o += ')';
  }
  static size_t count()
  {
    return 5;
  }
  static Tup make(size_t i)
  {
    Tup t;
    TupleOps<G, 0, N>::fill(t, i);
    return t;
  }
};
template <class... Ts>
struct M<std::tuple<Ts...>, void> : MTup<std::tuple<Ts...>, StdGet, sizeof...(Ts)>
{
};
template <class... Ts>
struct M<JS::Tuple<Ts...>, void> : MTup<JS::Tuple<Ts...>, JsGet, sizeof...(Ts)>
{
};

// ---- maps ----
template <class C, class T>
struct MMap
{
  static bool read(const JV &v, C &t, Env &e)
  {
    if (v.kind != JV::Obj)
      return false;
    for (auto &k : v.kids)
    {
      T x = T();
      if (!M<T>::read(k, x, e))
        return false;
      t[ref::decode(k.name)] = std::move(x);
    }
    return true;
  }
  static bool write(const C &t, JV &v)
  {
    v.kind = JV::Obj;
    for (auto &p : t)
    {
      JV k;
      if (!M<T>::write(p.second, k))
        continue;
      k.name = ref::encode(p.first);
      v.kids.push_back(k);
    }
    return true;
  }
  static void dump(const C &t, std::string &o)
  {
    std::map<std::string, std::string> s;
    for (auto &p : t)
      s[p.first] = ::dump(p.second);
    o += '{';
    for (auto &p : s)
    {
      dump_str(p.first, o);
      o += ':' + p.second + ',';
    }
    o += '}';
  }
  static size_t count()
  {
    return 2 + M<T>::count();
  }
  static C make(size_t i)
  {
    static const char *key[] = {"a", "", "k\"\n", "b"};
    C c;
    if (i == 1)
      for (size_t k = 0; k < 4; k++)
        c[key[k]] = M<T>::make(k % M<T>::count());
    else if (i > 1)
      c[key[i % 4]] = M<T>::make(i - 2);
    return c;
  }
};
template <class T>
struct M<std::map<std::string, T>, void> : MMap<std::map<std::string, T>, T>
{
};
template <class T>
struct M<std::unordered_map<std::string, T>, void> : MMap<std::unordered_map<std::string, T>, T>
{
};

// ---- raw captures ----
template <class T, bool OBJ, bool ARR>
struct MRaw
{
  static bool read(const JV &v, T &t, Env &e)
  {
    if (!(OBJ && v.kind == JV::Obj) && !(ARR && v.kind == JV::Arr))
      return false;
    t.data.assign(e.src + v.b, v.e - v.b);
    return true;
  }
  static bool write(const T &t, JV &v)
  {
    return jv::document(t.data.empty() ? (OBJ ? "{}" : "[]") : t.data, v);
  }
  static void dump(const T &t, std::string &o)
  {
    dump_str(t.data, o);
  }
  static size_t count()
  {
    return 3;
  }
  static T make(size_t i)
  {
    static const char *obj[] = {"{}", "{\"x\":{\"y\":[1,{}]},\"z\":\"}\"}", "{ \"a\" :\n1 }"};
    static const char *arr[] = {"[]", "[[],{\"k\":[\"]\"]}]", "[ 1 ,\n2 ]"};
    T t;
    t.data = OBJ && !(ARR && i == 1) ? obj[i] : arr[i];
    return t;
  }
};
template <>
struct M<JS::JsonObject, void> : MRaw<JS::JsonObject, true, false>
{
};
template <>
struct M<JS::JsonArray, void> : MRaw<JS::JsonArray, false, true>
{
};
template <>
struct M<JS::JsonObjectOrArray, void> : MRaw<JS::JsonObjectOrArray, true, true>
{
};
template <class T, bool OBJ, bool ARR>
struct MRef
{
  static bool read(const JV &v, T &t, Env &e)
  {
    if (!(OBJ && v.kind == JV::Obj) && !(ARR && v.kind == JV::Arr))
      return false;
    t.ref.data = e.src + v.b;
    t.ref.size = v.e - v.b;
    return true;
  }
  static bool write(const T &t, JV &v)
  {
    return jv::document(std::string(t.ref.data, t.ref.size), v);
  }
  static void dump(const T &t, std::string &o)
  {
    dump_str(std::string(t.ref.data, t.ref.size), o);
  }
  static size_t count()
  {
    return 3;
  }
  static T make(size_t i)
  {
    static const char *obj[] = {"{}", "{\"x\":{\"y\":[1,{}]},\"z\":\"}\"}", "{ \"a\" :\n1 }"};
    static const char *arr[] = {"[]", "[[],{\"k\":[\"]\"]}]", "[ 1 ,\n2 ]"};
    T t;
    t.ref.data = OBJ && !(ARR && i == 1) ? obj[i] : arr[i];
    t.ref.size = strlen(t.ref.data);
    return t;
  }
};
template <>
struct M<JS::JsonObjectRef, void> : MRef<JS::JsonObjectRef, true, false>
{
};
template <>
struct M<JS::JsonArrayRef, void> : MRef<JS::JsonArrayRef, false, true>
{
};
template <>
struct M<JS::JsonObjectOrArrayRef, void> : MRef<JS::JsonObjectOrArrayRef, true, true>
{
};

inline JS::Type js_type(JV::Kind k)
{
  switch (k)
  {
  case JV::Null:
    return JS::Type::Null;
  case JV::Bool:
    return JS::Type::Bool;
  case JV::Num:
    return JS::Type::Number;
  case JV::Str:
    return JS::Type::String;
  case JV::Word:
    return JS::Type::Ascii;
  case JV::Obj:
    return JS::Type::ObjectStart;
  default:
    return JS::Type::ArrayStart;
  }
}
// the tokens of a value; they refer to the texts in v
inline void flatten(const JV &v, std::vector<JS::Token> &out)
{
  JS::Token t;
  t.name = JS::DataRef(v.name.data(), v.name.size());
  t.name_type = JS::Type::String;
  t.value_type = js_type(v.kind);
  if (!v.container())
  {
    t.value = JS::DataRef(v.text.data(), v.text.size());
    out.push_back(t);
    return;
  }
  t.value = v.kind == JV::Obj ? JS::DataRef("{", 1) : JS::DataRef("[", 1);
  out.push_back(t);
  for (auto &k : v.kids)
    flatten(k, out);
  t.name = JS::DataRef("", 0);
  t.value = v.kind == JV::Obj ? JS::DataRef("}", 1) : JS::DataRef("]", 1);
  t.value_type = v.kind == JV::Obj ? JS::Type::ObjectEnd : JS::Type::ArrayEnd;
  out.push_back(t);
}
inline void dump_tokens(const std::vector<JS::Token> &ts, std::string &o)
{
  bool first = true; // the first one may or may not bear the name of its place
  for (auto &t : ts)
  {
    o += '(';
    if (!first)
      dump_str(std::string(t.name.data, t.name.size), o);
    first = false;
    dump_str(std::string(t.value.data, t.value.size), o);
    o += std::to_string(int(t.value_type)) + ")";
  }
}
template <class T>
struct MTokens
{
  static std::vector<JS::Token> &toks(JS::JsonTokens &t)
  {
    return t.data;
  }
  static std::vector<JS::Token> &toks(std::vector<JS::Token> &t)
  {
    return t;
  }
  static std::vector<JS::Token> &toks(JS::Map &t)
  {
    return t.tokens.data;
  }
  static bool read(const JV &v, T &t, Env &)
  {
    toks(t).clear();
    flatten(v, toks(t));
    return true;
  }
  static bool write(const T &t, JV &v)
  {
    const std::vector<JS::Token> &ts = toks(const_cast<T &>(t));
    ref::Result r;
    for (auto &k : ts)
    {
      ref::Tok x{};
      bool known;
      x.name.assign(k.name.data, k.name.size);
      x.value.assign(k.value.data, k.value.size);
      x.value_type = conv(k.value_type, known);
      r.toks.push_back(x);
    }
    size_t i = 0;
    return jv::build(r, i, v);
  }
  static void dump(const T &t, std::string &o)
  {
    dump_tokens(toks(const_cast<T &>(t)), o);
  }
  static size_t count()
  {
    return 3;
  }
  static T make(size_t i)
  {
    static JV v[3];
    static bool init = jv::document("{\"x\":[1,{\"k\":null}],\"z\":\"}\"}", v[0]) && jv::document("[]", v[1]) &&
                       jv::document("{\"a\":{\"b\":[true]},\"c\":-1.5e3}", v[2]);
    (void)init;
    T t;
    flatten(v[i], toks(t));
    return t;
  }
};
template <>
struct M<std::vector<JS::Token>, void> : MTokens<std::vector<JS::Token>>
{
};
template <>
struct M<JS::JsonTokens, void> : MTokens<JS::JsonTokens>
{
};
template <>
struct M<JS::Map, void> : MTokens<JS::Map>
{
  static JS::Map make(size_t i)
  {
    JS::Map m = MTokens<JS::Map>::make(i);
    m.meta = JS::metaForTokens(m.tokens);
    return m;
  }
};

// ---- enums ----
template <class T>
struct EnumNames; // static const std::vector<std::string> &names(); enumerators are 0, 1, ...
template <class T>
struct M<T, std::enable_if_t<std::is_enum<T>::value>>
{
  static bool read(const JV &v, T &t, Env &)
  {
    auto &n = EnumNames<T>::names();
    if (v.kind == JV::Str)
      for (size_t i = 0; i < n.size(); i++)
        if (n[i] == v.text)
        {
          t = T(i);
          return true;
        }
    if (v.kind == JV::Num)
    {
      using U = std::underlying_type_t<T>;
      U u;
      if (!ref::to_int<U>(v.text, std::numeric_limits<U>::min(), std::numeric_limits<U>::max(), u))
        return false;
      if (u < U(0) || size_t(u) >= n.size())
        return false;
      t = T(u);
      return true;
    }
    return false;
  }
  static bool write(const T &t, JV &v)
  {
    v.kind = JV::Str;
    v.text = EnumNames<T>::names()[size_t(t)];
    return true;
  }
  static void dump(const T &t, std::string &o)
  {
    o += "#" + std::to_string(int(t));
  }
  static size_t count()
  {
    return EnumNames<T>::names().size();
  }
  static T make(size_t i)
  {
    return T(i);
  }
};

// ---- structs ----
// struct S { ...; template <class V> static void reflect(V &v) { v({"name", "alias"...}, &S::member); } };
// A member of a super class Base is given as v({"name"}, &Base::member, "Base").
template <class T, class = void>
struct has_reflect : std::false_type
{
};
struct NoVisitor
{
  template <class P>
  void operator()(std::vector<std::string>, P, const char * = "")
  {
  }
};
template <class T>
struct has_reflect<T, decltype(T::reflect(std::declval<NoVisitor &>()))> : std::true_type
{
};
// optional types as documented
template <class T>
struct is_opt : std::false_type
{
};
template <class T>
struct is_opt<JS::Optional<T>> : std::true_type
{
};
template <class T>
struct is_opt<JS::OptionalChecked<T>> : std::true_type
{
};
template <class T>
struct is_opt<std::optional<T>> : std::true_type
{
};
template <class T>
struct is_opt<std::unique_ptr<T>> : std::true_type
{
};
template <>
struct is_opt<JS::SilentString> : std::true_type
{
};
template <class T>
struct is_opt<JS::SilentVector<T>> : std::true_type
{
};
template <class T>
struct is_opt<JS::SilentUniquePtr<T>> : std::true_type
{
};

template <class T>
struct fill_from
{
  static void set(T &t, size_t i)
  {
    t = M<T>::make(i % M<T>::count());
  }
};
template <class T, size_t N>
struct fill_from<T[N]>
{
  static void set(T (&t)[N], size_t i)
  {
    M<T[N]>::fill(t, i % M<T[N]>::count());
  }
};

template <class T>
struct M<T, std::enable_if_t<has_reflect<T>::value>>
{
  struct Find
  {
    const std::string &name;
    T &t;
    const JV &v;
    Env &e;
    std::vector<char> &assigned;
    bool primary;
    bool found = false, ok = true;
    size_t at = 0;
    template <class C, class F>
    void operator()(std::vector<std::string> names, F C::*p, const char * = "")
    {
      if (assigned.size() <= at)
        assigned.resize(at + 1, 0);
      bool hit = false;
      for (size_t i = 0; i < names.size(); i++)
        if (names[i] == name && (!primary || i == 0))
          hit = true;
      if (hit && !found)
      {
        found = true;
        assigned[at] = 1;
        ok = M<F>::read(v, static_cast<C &>(t).*p, e);
      }
      at++;
    }
  };
  struct Verify
  {
    Env &e;
    std::vector<char> &assigned;
    bool ok = true;
    size_t at = 0;
    template <class C, class F>
    void operator()(std::vector<std::string> names, F C::*, const char *super = "")
    {
      if (!(at < assigned.size() && assigned[at]) && !is_opt<F>::value)
      {
        ok = false;
        if (e.track)
          e.unassigned.push_back(std::string(super) + (*super ? "::" : "") + names[0]);
      }
      at++;
    }
  };
  static bool read(const JV &v, T &t, Env &e)
  {
    if (v.kind != JV::Obj)
      return false;
    std::vector<char> assigned;
    for (auto &k : v.kids)
    {
      Find f{k.name, t, k, e, assigned, true};
      T::reflect(f);
      if (!f.found)
      {
        Find g{k.name, t, k, e, assigned, false};
        T::reflect(g);
        f.found = g.found;
        f.ok = g.ok;
      }
      if (!f.ok)
        return false;
      if (!f.found)
      {
        if (e.track)
          e.missing.push_back(k.name);
        if (!e.allow_missing)
          return false;
      }
    }
    Verify c{e, assigned};
    T::reflect(c);
    return c.ok || e.allow_unassigned;
  }
  struct Write
  {
    const T &t;
    JV &v;
    template <class C, class F>
    void operator()(std::vector<std::string> names, F C::*p, const char * = "")
    {
      JV k;
      if (!M<F>::write(static_cast<const C &>(t).*p, k))
        return;
      k.name = names[0];
      v.kids.push_back(k);
    }
  };
  static bool write(const T &t, JV &v)
  {
    v.kind = JV::Obj;
    Write w{t, v};
    T::reflect(w);
    return true;
  }
  struct Dump
  {
    const T &t;
    std::string &o;
    template <class C, class F>
    void operator()(std::vector<std::string> names, F C::*p, const char * = "")
    {
      o += names[0] + "=";
      M<F>::dump(static_cast<const C &>(t).*p, o);
      o += ' ';
    }
  };
  static void dump(const T &t, std::string &o)
  {
    o += "{";
    Dump d{t, o};
    T::reflect(d);
    o += "}";
  }
  struct Count
  {
    size_t n = 1;
    template <class C, class F>
    void operator()(std::vector<std::string>, F C::*, const char * = "")
    {
      n *= M<F>::count();
    }
  };
  static size_t count()
  {
    Count c;
    T::reflect(c);
    return c.n;
  }
  struct Fill
  {
    T &t;
    size_t i;
    template <class C, class F>
    void operator()(std::vector<std::string>, F C::*p, const char * = "")
    {
      fill_from<F>::set(static_cast<C &>(t).*p, i % M<F>::count());
      i /= M<F>::count();
    }
  };
  static T make(size_t i)
  {
    T t;
    Fill f{t, i};
    T::reflect(f);
    return t;
  }
};
