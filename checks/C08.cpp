// Floating-point values to text and back, and decimal texts to the nearest value.
// Oracles: std::to_chars for the least number of digits, glibc's correctly rounding strtod / strtof for reading.
#include "hard_floats.h"
#include "mc.h"
#include "ref_num.h"
#include <charconv>
#include <cmath>
#include <json_struct/json_struct.h>

template <class T>
struct S
{
  T v;
  int w;
  JS_OBJ(v, w);
};
template <class T>
struct Bits;
template <>
struct Bits<float>
{
  using U = uint32_t;
  static const int mant = 23, exps = 256;
};
template <>
struct Bits<double>
{
  using U = uint64_t;
  static const int mant = 52, exps = 2048;
};
template <class T>
static T of_bits(typename Bits<T>::U u)
{
  T t;
  memcpy(&t, &u, sizeof t);
  return t;
}
template <class T>
static typename Bits<T>::U bits(T t)
{
  typename Bits<T>::U u;
  memcpy(&u, &t, sizeof t);
  return u;
}
static const char *name(float)
{
  return "float";
}
static const char *name(double)
{
  return "double";
}
static float near(const char *s, float)
{
  return strtof(s, nullptr);
}
static double near(const char *s, double)
{
  return strtod(s, nullptr);
}
static std::string show(double d)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g (%a)", d, d);
  return b;
}

// digits of a number text, without leading and trailing zeros
static int digit_count(const char *s, size_t n)
{
  int first = -1, last = -1, at = 0;
  for (size_t i = 0; i < n; i++)
  {
    if (s[i] == 'e' || s[i] == 'E')
      break;
    if (s[i] < '0' || s[i] > '9')
      continue;
    if (s[i] != '0')
    {
      if (first < 0)
        first = at;
      last = at;
    }
    at++;
  }
  return first < 0 ? 1 : last - first + 1;
}
// the number grammar of JSON
static bool json_number(const char *s, size_t n)
{
  size_t i = 0;
  auto dig = [&] { return i < n && s[i] >= '0' && s[i] <= '9'; };
  if (i < n && s[i] == '-')
    i++;
  if (!dig())
    return false;
  if (s[i] == '0')
    i++;
  else
    while (dig())
      i++;
  if (i < n && s[i] == '.')
  {
    i++;
    if (!dig())
      return false;
    while (dig())
      i++;
  }
  if (i < n && (s[i] == 'e' || s[i] == 'E'))
  {
    i++;
    if (i < n && (s[i] == '+' || s[i] == '-'))
      i++;
    if (!dig())
      return false;
    while (dig())
      i++;
  }
  return i == n;
}

// no describing of each execution: a block of bit patterns is one execution
template <class T>
static std::string write_one(typename Bits<T>::U u)
{
  T v = of_bits<T>(u);
  S<T> s{v, 7};
  char out[128];
  JS::SerializerContext *none = nullptr;
  (void)none;
  JS::Serializer ser(out, sizeof out);
  ser.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
  JS::Token t;
  JS::TypeHandler<S<T>>::from(s, t, ser);
  size_t n = ser.currentBuffer().used;
  if (n < 12 || memcmp(out, "{\"v\":", 5) || memcmp(out + n - 7, ",\"w\":7}", 7))
    return "written as " + std::string(out, n);
  const char *num = out + 5;
  size_t len = n - 12;
  if (!std::isfinite(v))
    return len == 4 && !memcmp(num, "null", 4) ? "" : "written as " + std::string(out, n);
  if (!json_number(num, len))
    return "written as " + std::string(out, n);
  char z[128];
  memcpy(z, num, len);
  z[len] = 0;
  T exact = near(z, T());
  if (exact != v)
    return "written as " + std::string(z) + ", which is " + show(exact);
  char sc[64];
  auto r = std::to_chars(sc, sc + sizeof sc, v, std::chars_format::scientific);
  if (digit_count(num, len) != digit_count(sc, size_t(r.ptr - sc)))
    return "written as " + std::string(z) + ", while " + std::string(sc, r.ptr) + " is enough";
  S<T> b{T(1), 0};
  JS::ParseContext pc(out, n);
  if (pc.parseTo(b) != JS::Error::NoError)
    return "written as " + std::string(out, n) + ", which is not read";
  if (bits(b.v) != u || b.w != 7)
    return "written as " + std::string(out, n) + ", which is read as " + show(b.v);
  return "";
}
template <class T>
static void write_set(mc::Ctx &ctx, int exp, const std::vector<typename Bits<T>::U> &mants)
{
  ctx.exec([&] { return std::string("write ") + name(T()) + " exponent " + std::to_string(exp); },
           [&] {
             using U = typename Bits<T>::U;
             for (U m : mants)
               for (int sign = 0; sign < 2; sign++)
               {
                 U u = U(sign) << (sizeof(T) * 8 - 1) | U(exp) << Bits<T>::mant | m;
                 std::string r = write_one<T>(u);
                 if (!r.empty())
                   return ctx.fail("write", show(of_bits<T>(u)) + " is " + r);
               }
             ctx.steps(mants.size() * 4);
             ctx.nontrivial();
             ctx.state(mc::Hash().add(uint64_t(sizeof(T))).add(uint64_t(exp)));
           });
}
template <class T>
static std::vector<typename Bits<T>::U> mantissas(bool wide)
{
  using U = typename Bits<T>::U;
  const int n = Bits<T>::mant;
  const U mask = (U(1) << n) - 1;
  std::set<U> r;
  for (U k = 0; k < (wide ? 4096u : 96u); k++)
  {
    r.insert(k);
    r.insert(mask - k);
    r.insert((mask >> 1) + k - 48);
  }
  const int top = wide ? 12 : 7;
  for (U k = 0; k < (U(1) << top); k++)
  {
    r.insert(k << (n - top));
    r.insert((k << (n - top)) | 1);
    r.insert(((k << (n - top)) - 1) & mask);
  }
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++)
    {
      U run = ((U(2) << (j - i)) - 1) << i; // ones from i to j
      for (U d : {U(0), U(1), mask})
      {
        r.insert((run + d) & mask);
        r.insert((~run + d) & mask);
        r.insert((((U(1) << i) | (U(1) << j)) + d) & mask);
      }
    }
  for (int p = 2; p < 8; p++)
    for (int ph = 0; ph < p; ph++)
    {
      U v = 0;
      for (int i = ph; i < n; i += p)
        v |= U(1) << i;
      r.insert(v);
    }
  return std::vector<U>(r.begin(), r.end());
}

template <class T>
static std::string read_one(const char *doc, size_t n, const char *text)
{
  T want = near(text, T());
  S<T> b{T(1), 0};
  JS::ParseContext pc(doc, n);
  JS::Error e = pc.parseTo(b);
  if (e != JS::Error::NoError || b.w != 7)
    return std::string(doc, n) + " into " + name(T()) + " gives error " + std::to_string(int(e));
  if (bits(b.v) != bits(want))
    return std::string(doc, n) + " is read into " + name(T()) + " as " + show(b.v) + ", nearest is " + show(want);
  return "";
}
static bool read_text(mc::Ctx &ctx, const std::string &t)
{
  std::string doc = "{\"v\":" + t + ",\"w\":7}";
  std::string r = read_one<double>(doc.data(), doc.size(), t.c_str());
  if (r.empty())
    r = read_one<float>(doc.data(), doc.size(), t.c_str());
  ctx.steps(2);
  if (r.empty())
    return true;
  ctx.fail("read", r);
  return false;
}
static void read_exec(mc::Ctx &ctx, const std::string &t)
{
  ctx.exec([&] { return "read " + t; },
           [&] {
             if (read_text(ctx, t))
             {
               ctx.state(mc::Hash().add(t));
               ctx.nontrivial();
             }
           });
}
// d with its least significant digit one higher or lower
static std::string bump(std::string d, int by)
{
  for (size_t i = d.size(); i-- > 0;)
  {
    d[i] = char(d[i] + by);
    if (d[i] > '9')
      d[i] = '0';
    else if (d[i] < '0')
      d[i] = '9';
    else
      return d;
  }
  return by > 0 ? "1" + d : d;
}
// the texts around the exact value v: exactly it, just above and below, cut at every interesting length
static bool around(mc::Ctx &ctx, long double v, bool full)
{
  char b[1400];
  snprintf(b, sizeof b, "%.1200Le", v);
  std::string s = b;
  size_t e = s.find('e');
  int ex = atoi(s.c_str() + e + 1);
  std::string d = s.substr(0, 1) + s.substr(2, e - 2);
  d.erase(d.find_last_not_of('0') + 1);
  auto form = [&](const std::string &digits, int style) -> std::string {
    // digits stand for 0.digits * 10^(ex+1), unless a carry made them longer
    int x = ex + (digits.size() > d.size() && digits[0] == '1' && d[0] == '9' && digits[1] == '0' ? 1 : 0);
    switch (style)
    {
    case 0:
      return digits.substr(0, 1) + (digits.size() > 1 ? "." + digits.substr(1) : "") + "e" + std::to_string(x);
    case 1:
      return digits + "e" + std::to_string(x - int(digits.size()) + 1);
    case 2:
      return "0." + digits + "E" + (x + 1 >= 0 ? "+" : "") + std::to_string(x + 1);
    case 3:
      return "0.000" + digits + "00e" + std::to_string(x + 4);
    default:
      if (x >= 0 && x < 400)
        return size_t(x) + 1 >= digits.size() ? digits + std::string(size_t(x) + 1 - digits.size(), '0')
                                              : digits.substr(0, size_t(x) + 1) + "." + digits.substr(size_t(x) + 1);
      return x < 0 && x > -400 ? "0." + std::string(size_t(-x - 1), '0') + digits : "0e0";
    }
  };
  for (int style = 0; style < (full ? 5 : 2); style++)
  {
    if (!read_text(ctx, form(d, style)) || !read_text(ctx, form(d + "1", style)) || !read_text(ctx, form(d + "00000000001", style)) ||
        !read_text(ctx, form(d + "0000000000000000000000000000000000000000", style)) ||
        !read_text(ctx, form(bump(d + "0", -1), style)) || !read_text(ctx, form(bump(d + "00000000000000000000", -1), style)))
      return false;
  }
  for (size_t n : {size_t(8), size_t(9), size_t(10), size_t(15), size_t(16), size_t(17), size_t(18), size_t(19), size_t(20), size_t(21), size_t(22),
                   size_t(30), size_t(38), size_t(39), size_t(40), size_t(60), size_t(100), size_t(300)})
    if (n < d.size())
    {
      std::string c = d.substr(0, n);
      for (int style = 0; style < (full ? 5 : 2); style++)
        if (!read_text(ctx, form(c, style)) || !read_text(ctx, form(bump(c, 1).size() > c.size() ? c : bump(c, 1), style)))
          return false;
    }
  return true;
}
template <class T>
static void midpoints(mc::Ctx &ctx, int exp, const std::vector<typename Bits<T>::U> &mants, bool full)
{
  ctx.exec([&] { return std::string("midpoints above ") + name(T()) + " exponent " + std::to_string(exp); },
           [&] {
             using U = typename Bits<T>::U;
             for (U m : mants)
             {
               T v = of_bits<T>(U(exp) << Bits<T>::mant | m);
               // the value after the largest is the power of two that would follow it
               T w = of_bits<T>((U(exp) << Bits<T>::mant | m) + 1);
               long double next = std::isfinite(w) ? (long double)(w) : (long double)(v) + ((long double)(v) - (long double)(of_bits<T>((U(exp) << Bits<T>::mant | m) - 1)));
               if (!around(ctx, ((long double)(v) + next) / 2, full))
                 return;
               if (v != 0 && full && !around(ctx, v, false))
                 return;
             }
             ctx.nontrivial();
             ctx.state(mc::Hash().add(uint64_t(sizeof(T) + 100)).add(uint64_t(exp)));
           });
}

template <class T, class H, size_t N>
static void hard_writes(mc::Ctx &ctx, const H (&h)[N])
{
  for (size_t i = 0; i < N;)
  {
    std::vector<typename Bits<T>::U> m;
    int e = h[i].exp;
    for (; i < N && h[i].exp == e; i++)
      for (int d = -2; d <= 2; d++)
        m.push_back((h[i].mant + typename Bits<T>::U(d)) & ((typename Bits<T>::U(1) << Bits<T>::mant) - 1));
    write_set<T>(ctx, e, m);
  }
}
template <size_t N>
static void hard_reads(mc::Ctx &ctx, const hard_decimal (&h)[N], const char *what)
{
  for (size_t i = 0; i < N;)
  {
    size_t from = i, to = i;
    while (to < N && h[to].exp == h[from].exp)
      to++;
    i = to;
    ctx.exec([&] { return std::string("decimals near midpoints of ") + what + " exponent " + std::to_string(h[from].exp); },
             [&] {
               for (size_t k = from; k < to; k++)
                 for (int d = -1; d <= 1; d++)
                 {
                   std::string t = std::to_string(h[k].digits + uint64_t(d));
                   if (!read_text(ctx, t + "e" + std::to_string(h[k].exp)) ||
                       !read_text(ctx, "-" + t.substr(0, 1) + "." + t.substr(1) + "0E" + std::to_string(h[k].exp + int(t.size()) - 1)))
                     return;
                 }
               ctx.nontrivial();
               ctx.state(mc::Hash().add(std::string(what)).add(uint64_t(h[from].exp + 3000)));
             });
  }
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    // writing: every exponent with structured mantissas
    {
      std::vector<uint32_t> m = mantissas<float>(ctx.thorough);
      for (int e = 0; e < 256; e++)
        write_set<float>(ctx, e, m);
      std::vector<uint64_t> n = mantissas<double>(ctx.thorough);
      for (int e = 0; e < 2048; e++)
        write_set<double>(ctx, e, n);
    }
#ifdef ALL_FLOATS
    for (int e = 0; e < 256; e++)
      for (uint32_t hi = 0; hi < 64; hi++)
      {
        ctx.exec([&] { return "write float exponent " + std::to_string(e) + " part " + std::to_string(hi); },
                 [&] {
                   for (uint32_t lo = 0; lo < (1u << 17); lo++)
                     for (uint32_t sign = 0; sign < 2; sign++)
                     {
                       uint32_t u = sign << 31 | uint32_t(e) << 23 | hi << 17 | lo;
                       std::string r = write_one<float>(u);
                       if (!r.empty())
                         return ctx.fail("write", show(of_bits<float>(u)) + " is " + r);
                     }
                   ctx.steps(1u << 19);
                   ctx.nontrivial();
                   ctx.state(mc::Hash().add(uint64_t(e * 64) + hi + 1000000));
                 });
      }
#else
    // every float with these exponents
    for (int e : {0, 1, 127, 150})
      for (uint32_t hi = 0; hi < 64; hi++)
        ctx.exec([&] { return "write float exponent " + std::to_string(e) + " part " + std::to_string(hi); },
                 [&] {
                   for (uint32_t lo = 0; lo < (1u << 17); lo += ctx.thorough ? 1 : 5)
                   {
                     uint32_t u = uint32_t(e) << 23 | hi << 17 | lo;
                     std::string r = write_one<float>(u);
                     if (!r.empty())
                       return ctx.fail("write", show(of_bits<float>(u)) + " is " + r);
                   }
                   ctx.steps(1u << 17);
                   ctx.nontrivial();
                   ctx.state(mc::Hash().add(uint64_t(e * 64) + hi + 1000000));
                 });
#endif
    // small integers and short decimals, which most documents hold
    for (int block = 0; block < 200; block++)
      ctx.exec([&] { return "write decimals block " + std::to_string(block); },
               [&] {
                 for (int k = block * 500; k < block * 500 + 500; k++)
                   for (double scale : {1.0, 10.0, 100.0, 1000.0, 1e6, 1e-6, 1e-12, 1e-20})
                   {
                     std::string r = write_one<double>(bits(double(k) / scale));
                     std::string q = write_one<float>(bits(float(double(k) / scale)));
                     if (!r.empty() || !q.empty())
                       return ctx.fail("write", show(double(k) / scale) + " is " + r + q);
                   }
                 ctx.steps(500 * 16);
                 ctx.nontrivial();
               });
    // reading: all short digit strings with every exponent
    const int top = ctx.thorough ? 20000 : 2000;
    for (int e = -400; e <= 340; e++)
      ctx.exec([&] { return "read all k e" + std::to_string(e); },
               [&] {
                 char t[64];
                 for (int k = 0; k <= top; k++)
                 {
                   snprintf(t, sizeof t, "%de%d", k, e);
                   if (!read_text(ctx, t))
                     return;
                 }
                 ctx.nontrivial();
                 ctx.state(mc::Hash().add(uint64_t(e + 5000)));
               });
    for (int e = -70; e <= 50; e++)
      ctx.exec([&] { return "read all -k.kk e" + std::to_string(e); },
               [&] {
                 char t[64];
                 for (int k = 0; k < (ctx.thorough ? 100000 : 10000); k++)
                 {
                   snprintf(t, sizeof t, "-%d.%03de%d", k / 1000, k % 1000, e);
                   if (!read_text(ctx, t))
                     return;
                 }
                 ctx.nontrivial();
                 ctx.state(mc::Hash().add(uint64_t(e + 7000)));
               });
    // digit strings of each length, every exponent
    for (size_t n = 1; n <= 45; n++)
      for (int pat = 0; pat < 6; pat++)
        ctx.exec([&] { return "read pattern " + std::to_string(pat) + " of " + std::to_string(n) + " digits"; },
                 [&] {
                   std::string d;
                   for (size_t i = 0; i < n; i++)
                     d += pat == 0 ? '9' : pat == 1 ? '1' : pat == 2 ? (i ? '0' : '1') : pat == 3 ? char('1' + i % 9) : pat == 4 ? char('9' - i % 9) : (i + 1 == n ? '5' : '4');
                   for (int e = -380; e <= 320; e++)
                     if (!read_text(ctx, d + "e" + std::to_string(e)) || !read_text(ctx, "0." + d + "e" + std::to_string(e)) ||
                         !read_text(ctx, "-" + d + "." + d + "e" + std::to_string(e)))
                       return;
                   ctx.nontrivial();
                   ctx.state(mc::Hash().add(uint64_t(n * 10 + size_t(pat) + 90000)));
                 });
    // exact midpoints between neighbours
    {
      std::vector<uint32_t> m;
      std::vector<uint32_t> all = mantissas<float>(false);
      for (size_t i = 0; i < all.size(); i += ctx.thorough ? 1 : 40)
        m.push_back(all[i]);
      m.push_back(0x7fffff);
      for (int e = 0; e < 255; e++)
        midpoints<float>(ctx, e, m, ctx.thorough);
      std::vector<uint64_t> n, alln = mantissas<double>(false);
      for (size_t i = 0; i < alln.size(); i += ctx.thorough ? 40 : 1500)
        n.push_back(alln[i]);
      n.push_back((1ull << 52) - 1);
      for (int e = 0; e < 2047; e++)
        midpoints<double>(ctx, e, n, ctx.thorough);
    }
    // the values whose digits and the decimals whose neighbours are closest calls, see tools/hard_floats.py
    hard_writes<float>(ctx, hard_float);
    hard_writes<double>(ctx, hard_double);
    hard_reads(ctx, hard_for_double, "double");
    hard_reads(ctx, hard_for_float, "float");
    // special cases of shape
    for (const char *t : {"0", "-0", "0.0", "-0.0", "0e0", "0e999999999999", "-0e-5", "1e-5000", "1e5000", "-1e5000", "1e99999999999999999999",
                          "1e-99999999999999999999", "00000001", "1.", "-1.e3", "1E2", "1e+2", "1e-2", "0000.0001", "1.7976931348623157e308",
                          "1.7976931348623159e308", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                          "2.2250738585072011e-308", "2.2250738585072014e-308", "3.4028234663852886e38", "3.4028235677973366e38", "3.4028236e38",
                          "1.401298464324817e-45", "7.006492321624085e-46", "7.0064923216240854e-46", "7.0064923216240853e-46"})
      read_exec(ctx, t);
    for (size_t n = 0; n <= 900; n += ctx.thorough ? 1 : 7)
    {
      read_exec(ctx, "1" + std::string(n, '0'));
      read_exec(ctx, "1" + std::string(n, '0') + "e-" + std::to_string(n));
      read_exec(ctx, "0." + std::string(n, '0') + "1");
      read_exec(ctx, "0." + std::string(n, '0') + "1e" + std::to_string(n));
      read_exec(ctx, std::string(n, '0') + "7.25");
      read_exec(ctx, "1." + std::string(n, '0') + "1");
      read_exec(ctx, "9007199254740993" + std::string(n, '0') + "1e-" + std::to_string(n));
      read_exec(ctx, "9007199254740993." + std::string(n, '0'));
      read_exec(ctx, "16777217." + std::string(n, '0') + "1");
      read_exec(ctx, std::string(n + 1, '9') + ".5");
      read_exec(ctx, "3" + std::string(n, '3') + "e-" + std::to_string(n + 310));
    }
  });
}
