// Reference meaning of number texts, on decimal digit strings.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>

namespace ref
{
struct Decimal
{
  bool ok = false, neg = false;
  std::string digits; // without leading and trailing zeros; empty = zero
  long exp = 0;       // value = 0.digits * 10^exp
};

inline Decimal decimal(const std::string &s)
{
  Decimal d;
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)))
    i++;
  if (i < s.size() && s[i] == '-')
  {
    d.neg = true;
    i++;
  }
  std::string ip, fp;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9')
    ip += s[i++];
  if (i < s.size() && s[i] == '.')
  {
    i++;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9')
      fp += s[i++];
  }
  if (ip.empty() && fp.empty())
    return d;
  long e = 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
  {
    i++;
    bool en = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-'))
      en = s[i++] == '-';
    size_t b = i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9')
    {
      if (e < 1000000000)
        e = e * 10 + (s[i] - '0');
      i++;
    }
    if (i == b)
      return d;
    if (en)
      e = -e;
  }
  if (i != s.size())
    return d;
  d.ok = true;
  d.digits = ip + fp;
  d.exp = long(ip.size()) + e;
  size_t z = d.digits.find_first_not_of('0');
  if (z == std::string::npos)
  {
    d.digits.clear();
    d.exp = 0;
    return d;
  }
  d.digits.erase(0, z);
  d.exp -= long(z);
  d.digits.erase(d.digits.find_last_not_of('0') + 1);
  return d;
}

// truncated toward zero and clamped to [lo, hi]
template <class T>
bool to_int(const std::string &s, T lo, T hi, T &out)
{
  Decimal d = decimal(s);
  if (!d.ok)
    return false;
  out = 0;
  unsigned __int128 v = 0;
  const unsigned __int128 top = ~(unsigned __int128)0;
  bool over = false;
  for (long k = 0; k < d.exp && !over && !d.digits.empty(); k++)
  {
    unsigned dig = k < long(d.digits.size()) ? unsigned(d.digits[size_t(k)] - '0') : 0;
    if (v > (top - dig) / 10)
      over = true;
    else
      v = v * 10 + dig;
  }
  if (d.neg)
  {
    if (!(lo < T(0)))
    {
      out = 0;
      return true;
    }
    unsigned __int128 m = (unsigned __int128)0 - (unsigned __int128)(__int128)lo;
    out = over || v >= m ? lo : T(-(__int128)v);
  }
  else
    out = over || v > (unsigned __int128)hi ? hi : T(v);
  return true;
}

inline bool to_double(const std::string &s, double &out)
{
  if (!decimal(s).ok)
    return false;
  out = strtod(s.c_str(), nullptr);
  return true;
}
inline bool to_float(const std::string &s, float &out)
{
  if (!decimal(s).ok)
    return false;
  out = strtof(s.c_str(), nullptr);
  return true;
}

// equal texts exactly when equal values
inline std::string norm_num(const std::string &s)
{
  Decimal d = decimal(s);
  if (!d.ok)
    return "?" + s;
  return std::string(d.neg ? "-" : "") + "0." + d.digits + "e" + std::to_string(d.exp);
}
} // namespace ref
