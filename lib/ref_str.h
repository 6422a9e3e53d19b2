// Reference meaning of string literals.
#pragma once
#include <string>

namespace ref
{
inline int hexval(char c)
{
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'f')
    return c - 'a' + 10;
  if (c >= 'A' && c <= 'F')
    return c - 'A' + 10;
  return -1;
}
// the code unit of the \uXXXX at position i, or -1
inline int unit_at(const std::string &s, size_t i)
{
  if (i + 6 > s.size() || s[i] != '\\' || s[i + 1] != 'u')
    return -1;
  int v = 0;
  for (size_t k = 2; k < 6; k++)
  {
    int h = hexval(s[i + k]);
    if (h < 0)
      return -1;
    v = v * 16 + h;
  }
  return v;
}
inline void utf8(unsigned cp, std::string &o)
{
  if (cp < 0x80)
    o += char(cp);
  else if (cp < 0x800)
  {
    o += char(0xc0 | cp >> 6);
    o += char(0x80 | (cp & 0x3f));
  }
  else if (cp < 0x10000)
  {
    o += char(0xe0 | cp >> 12);
    o += char(0x80 | (cp >> 6 & 0x3f));
    o += char(0x80 | (cp & 0x3f));
  }
  else
  {
    o += char(0xf0 | cp >> 18);
    o += char(0x80 | (cp >> 12 & 0x3f));
    o += char(0x80 | (cp >> 6 & 0x3f));
    o += char(0x80 | (cp & 0x3f));
  }
}
// a literal's text that denotes s
inline std::string encode(const std::string &s)
{
  std::string o;
  for (char c : s)
    if (static_cast<unsigned char>(c) < 0x20)
    {
      o += "\\u00";
      o += "0123456789abcdef"[c >> 4];
      o += "0123456789abcdef"[c & 15];
    }
    else
    {
      if (c == '"' || c == '\\')
        o += '\\';
      o += c;
    }
  return o;
}
// what the text between the quotes denotes; an escape that JSON does not define stands for itself
inline std::string decode(const std::string &s)
{
  std::string o;
  for (size_t i = 0; i < s.size();)
  {
    if (s[i] != '\\')
    {
      o += s[i++];
      continue;
    }
    if (i + 1 == s.size())
      break; // no literal ends like this; the text of an unquoted word may
    int u = unit_at(s, i);
    if (u >= 0)
    {
      i += 6;
      int lo = u >= 0xd800 && u <= 0xdbff ? unit_at(s, i) : -1;
      if (lo >= 0xdc00 && lo <= 0xdfff)
      {
        utf8(0x10000u + (unsigned(u - 0xd800) << 10) + unsigned(lo - 0xdc00), o);
        i += 6;
      }
      else
        utf8(unsigned(u), o);
      continue;
    }
    switch (s[i + 1])
    {
    case 'b':
      o += '\b';
      break;
    case 'f':
      o += '\f';
      break;
    case 'n':
      o += '\n';
      break;
    case 'r':
      o += '\r';
      break;
    case 't':
      o += '\t';
      break;
    case '"':
    case '\\':
    case '/':
      o += s[i + 1];
      break;
    default:
      o += '\\';
      o += s[i + 1];
    }
    i += 2;
  }
  return o;
}
} // namespace ref
