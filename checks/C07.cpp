// Number texts into every integer type, and every integer type to text, against decimal-string arithmetic.
#include "mc.h"
#include "ref_num.h"
#define JS_INT_128
#include <json_struct/json_struct.h>
#include <limits>

using i128 = __int128;
using u128 = unsigned __int128;

template <class T>
struct Lim
{
  static T lo()
  {
    return T(-1) < T(0) ? T(T(u128(1) << (sizeof(T) * 8 - 1))) : T(0);
  }
  static T hi()
  {
    return T(~lo());
  }
};
template <class T>
struct S
{
  T v;
  T w;
  JS_OBJ(v, w);
};
static std::string dec(u128 v)
{
  std::string s;
  do
  {
    s.insert(s.begin(), char('0' + int(v % 10)));
    v /= 10;
  } while (v);
  return s;
}
template <class T>
static std::string text_of(T v)
{
  if (v < T(0))
    return "-" + dec(u128(0) - u128(i128(v)));
  return dec(u128(v));
}

static bool number_chars(const std::string &s)
{
  for (char c : s)
    if (!(c >= '0' && c <= '9') && c != '-' && c != '+' && c != '.' && c != 'e' && c != 'E')
      return false;
  return !s.empty() && s[0] != 'e' && s[0] != 'E' && s[0] != '.' && s[0] != '+';
}

template <class T>
static void parse_one(mc::Ctx &ctx, const char *name, const std::string &text, mc::Hash &h)
{
  T want = T(0);
  bool ok = ref::to_int<T>(text, Lim<T>::lo(), Lim<T>::hi(), want);
  for (int quoted = 0; quoted < 2; quoted++)
  {
    if (!quoted && !number_chars(text))
      continue;
    std::string doc = quoted ? "{\"v\":\"" + text + "\",\"w\":7}" : "{\"v\":" + text + ",\"w\":7}";
    JS::ParseContext pc(doc.data(), doc.size());
    S<T> s;
    s.v = T(99);
    s.w = T(98);
    JS::Error e = pc.parseTo(s);
    ctx.steps(1);
    if ((e == JS::Error::NoError) != ok)
      return ctx.fail("integer text", std::string(name) + (ok ? " rejects " : " accepts ") + doc + " as " + text_of(s.v));
    if (!ok)
      continue;
    if (s.v != want || s.w != T(7))
      return ctx.fail("integer value", std::string(name) + " reads " + doc + " as " + text_of(s.v) + "," + text_of(s.w) + " want " + text_of(want));
    h.add(text_of(want));
  }
}
static void parse_all(mc::Ctx &ctx, const std::string &t)
{
  ctx.exec([&] { return "read " + t; },
           [&] {
             mc::Hash h;
             parse_one<int8_t>(ctx, "int8", t, h);
             parse_one<uint8_t>(ctx, "uint8", t, h);
             parse_one<char>(ctx, "char", t, h);
             parse_one<short>(ctx, "short", t, h);
             parse_one<unsigned short>(ctx, "ushort", t, h);
             parse_one<int>(ctx, "int", t, h);
             parse_one<unsigned>(ctx, "uint", t, h);
             parse_one<long>(ctx, "long", t, h);
             parse_one<unsigned long>(ctx, "ulong", t, h);
             parse_one<long long>(ctx, "llong", t, h);
             parse_one<unsigned long long>(ctx, "ullong", t, h);
             parse_one<i128>(ctx, "int128", t, h);
             parse_one<u128>(ctx, "uint128", t, h);
             ctx.state(h);
             if (t.size() > 1)
               ctx.nontrivial();
           });
}

template <class T>
static void print_one(mc::Ctx &ctx, const char *name, T v)
{
  std::string want = text_of(v);
  S<T> s;
  s.v = v;
  s.w = T(7);
  std::string got = JS::serializeStruct(s, JS::SerializerOptions(JS::SerializerOptions::Compact));
  ctx.steps(2);
  if (got != "{\"v\":" + want + ",\"w\":7}")
    return ctx.fail("integer print", std::string(name) + " " + want + " is written as " + got);
  S<T> b;
  b.v = T(1);
  b.w = T(0);
  JS::ParseContext pc(got.data(), got.size());
  if (pc.parseTo(b) != JS::Error::NoError || b.v != v || b.w != T(7))
    return ctx.fail("integer round trip", std::string(name) + " " + want + " reads back as " + text_of(b.v));
  // the text one digit short of space and in an array
  std::vector<T> vec{v, v};
  std::string arr = JS::serializeStruct(vec, JS::SerializerOptions(JS::SerializerOptions::Compact));
  if (arr != "[" + want + "," + want + "]")
    return ctx.fail("integer print", std::string(name) + " array is written as " + arr);
}
// v, in every type that has it
static void print_all(mc::Ctx &ctx, bool neg, u128 m)
{
  ctx.exec([&] { return std::string("write ") + (neg ? "-" : "") + dec(m); },
           [&] {
             auto one = [&](auto zero, const char *name) {
               using T = decltype(zero);
               if (neg ? (Lim<T>::lo() < T(0) && m <= u128(0) - u128(i128(Lim<T>::lo()))) : m <= u128(Lim<T>::hi()))
                 print_one<T>(ctx, name, neg ? T(u128(0) - m) : T(m));
             };
             one(static_cast<int8_t>(0), "int8");
             one(static_cast<uint8_t>(0), "uint8");
             one(static_cast<char>(0), "char");
             one(static_cast<short>(0), "short");
             one(static_cast<unsigned short>(0), "ushort");
             one(static_cast<int>(0), "int");
             one(static_cast<unsigned>(0), "uint");
             one(static_cast<long>(0), "long");
             one(static_cast<unsigned long>(0), "ulong");
             one(static_cast<long long>(0), "llong");
             one(static_cast<unsigned long long>(0), "ullong");
             one(static_cast<i128>(0), "int128");
             one(static_cast<u128>(0), "uint128");
             ctx.state(mc::Hash().add(dec(m)).add(uint64_t(neg)));
             ctx.nontrivial();
           });
}

// every way of writing the digits d with a point and an exponent
static void forms(mc::Ctx &ctx, const std::string &d, bool full)
{
  int n = int(d.size());
  for (const char *sign : {"", "-"})
    for (const char *lead : {"", "0", "000000000000000000000"})
    {
      std::string s = std::string(sign) + lead;
      ctx.block([&] {
        parse_all(ctx, s + d);
        for (const char *tail : {".", ".0", ".5", ".9999999999999999999", ".00000000000000000000000000001", "e0", "E+0", "e-0", "e00000000000000000000000", ".0e0"})
          parse_all(ctx, s + d + tail);
        if (*lead && !full)
          return;
        for (int p = 0; p <= n; p += full ? 1 : (n > 6 ? n / 5 : 1))
        {
          std::string m = d.substr(0, size_t(p)) + "." + d.substr(size_t(p));
          int back = n - p;
          for (int e : {0, 1, back - 2, back - 1, back, back + 1, back + 2, back + 20, -1, -back, -p, -p - 1, -p + 1, -p + 3, 350, -350})
            parse_all(ctx, s + m + "e" + std::to_string(e));
          parse_all(ctx, s + m + "E+" + std::to_string(back));
          parse_all(ctx, s + m + "e+0" + std::to_string(back));
        }
        for (int e : {1, 2, 3, 5, 10, 18, 19, 20, 37, 38, 39, 40, 100, -1, -2, -3, -n + 1, -n, -n - 1})
        {
          parse_all(ctx, s + d + "e" + std::to_string(e));
          parse_all(ctx, s + d + ".7e" + std::to_string(e));
        }
      });
    }
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    // every short text over the characters of numbers, and some that are no part of them
    std::vector<std::string> sym;
    for (const char *c : {"0", "1", "2", "5", "9", "-", "+", ".", "e"})
      sym.push_back(c);
    mc::strings(ctx, sym, ctx.thorough ? 8 : 6, 2, [&](const std::string &s, int) {
      parse_all(ctx, s);
      return true;
    });
    sym.clear();
    for (const char *c : {"3", "7", "-", "E", " ", "x", "\\t", "\xc3", "_", "'", ",", "/", ":"})
      sym.push_back(c);
    mc::strings(ctx, sym, ctx.thorough ? 5 : 4, 2, [&](const std::string &s, int) {
      parse_all(ctx, s);
      return true;
    });
    // every byte at every position of a number
    for (int c = 1; c < 256; c++)
      ctx.block([&] {
        if (c == '"' || c == '\\')
          return;
        for (const char *base : {"17", "-120", "1.5", "3e2", "65536"})
          for (size_t p = 0; p <= strlen(base); p++)
          {
            std::string s(base);
            s.insert(s.begin() + long(p), char(c));
            parse_all(ctx, s);
          }
      });
    // all values of the small types and past their ends
    for (int lo = -70000; lo < 70000; lo += 1000)
      ctx.block([&] {
        for (int v = lo; v < lo + 1000; v++)
        {
          parse_all(ctx, std::to_string(v));
          print_all(ctx, v < 0, u128(v < 0 ? -v : v));
        }
      });
    for (int v = -300; v <= 300; v++)
      for (int lead = 0; lead < 25; lead += 3)
        for (const char *tail : {"", ".", ".00", ".999", "e0", "e1", "e+2", "e-1", "e-2"})
          parse_all(ctx, std::string(v < 0 ? "-" : "") + std::string(size_t(lead), '0') + std::to_string(v < 0 ? -v : v) + tail);
    // neighbourhoods of every power of two and ten
    const int near = ctx.thorough ? 300 : 30;
    for (int k = 0; k < 128; k++)
      ctx.block([&] {
        for (int d = -near; d <= near; d++)
        {
          u128 m = (u128(1) << k) + u128(i128(d));
          if ((d < 0 && m > (u128(1) << k)) || (k == 127 && d > 0 && m < 500))
            continue;
          parse_all(ctx, dec(m));
          parse_all(ctx, "-" + dec(m));
          print_all(ctx, false, m);
          print_all(ctx, true, m);
        }
      });
    u128 ten = 1;
    for (int k = 0; k <= 38; k++, ten *= 10)
      ctx.block([&] {
        for (int mul = 1; mul <= 9; mul++)
        {
          if (k == 38 && mul > 3)
            continue;
          for (int d = -near; d <= near; d++)
          {
            u128 m = ten * u128(mul) + u128(i128(d));
            if (d < 0 && u128(-d) > ten * u128(mul))
              continue;
            parse_all(ctx, dec(m));
            parse_all(ctx, "-" + dec(m));
            print_all(ctx, false, m);
            print_all(ctx, true, m);
          }
        }
      });
    // the ends of the widest type
    for (int d = 0; d <= near; d++)
    {
      print_all(ctx, false, ~u128(0) - u128(d));
      parse_all(ctx, dec(~u128(0) - u128(d)));
    }
    for (int k = 0; k < 30; k++) // 2^128 + k
      parse_all(ctx, "3402823669209384634633746074317682114" + std::to_string(56 + k));
    // boundaries written with every point and exponent
    for (const char *d : {"1", "9", "10", "99", "127", "128", "129", "255", "256", "257", "999", "32767", "32768", "32769", "65535", "65536",
                          "65537", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
                          "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615",
                          "18446744073709551616", "18446744073709551617", "99999999999999999999", "100000000000000000000",
                          "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
                          "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "12345678901234567890",
                          "1000000000000000000000000000000000000000", "0", "18446744073709551609", "1844674407370955161", "922337203685477580"})
      forms(ctx, d, ctx.thorough);
    // digit runs of every length
    for (char c : {'0', '1', '4', '9'})
      ctx.block([&] {
        for (size_t n = 1; n <= (ctx.thorough ? 400u : 90u); n++)
          for (const char *sign : {"", "-"})
          {
            std::string r(n, c);
            parse_all(ctx, sign + r);
            parse_all(ctx, sign + r + "e-" + std::to_string(n - 1));
            parse_all(ctx, sign + r + "e-" + std::to_string(n - 2 > n ? 0 : n - 2));
            parse_all(ctx, std::string(sign) + "0." + r + "e" + std::to_string(n));
            parse_all(ctx, std::string(sign) + "." + r + "e3");
            parse_all(ctx, std::string(sign) + r + "1");
            parse_all(ctx, std::string(sign) + "1" + r + "." + r);
            parse_all(ctx, std::string(sign) + r + "7e-" + std::to_string(n));
          }
      });
    // exponents of every size
    for (const char *m : {"0", "1", "-1", "0.001", "123456789", "-9.9", "0.0000000000000000000000000000000000000001"})
      for (const char *e : {"308", "309", "400", "-400", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967297",
                            "-4294967297", "18446744073709551616", "18446744073709551617", "-18446744073709551617",
                            "99999999999999999999999999", "-99999999999999999999999999"})
      {
        parse_all(ctx, std::string(m) + "e" + e);
        if (*e != '-')
          parse_all(ctx, std::string(m) + "E+" + e);
      }
  });
}
