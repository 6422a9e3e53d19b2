// Documents in which one thing is large: a length, a count or a depth, from nothing to tens of
// thousands, at every small size and on both sides of the sizes at which programs change behaviour.
#pragma once
#include <string>
#include <vector>

namespace scale
{
// 0..40, then the neighbourhoods of the powers of two and of ten
inline std::vector<size_t> ladder(size_t max)
{
  std::vector<size_t> r;
  for (size_t n = 0; n <= max; n++)
  {
    bool take = n <= 40;
    for (size_t p = 64; !take && p <= n + 2; p *= 2)
      take = n + 1 >= p && n <= p + 1;
    for (size_t p = 100; !take && p <= n; p *= 10)
      take = n == p || n == p + 1;
    take = take || n == 47 || n == 48 || n == 49 || n == 80 || n == 95 || n == 96 || n == 97 || n == 150 || n == 200 || n == 300;
    if (take)
      r.push_back(n);
  }
  return r;
}
enum Kind
{
  STRING,
  STRING_ESCAPED,
  STRING_ESCAPE_LAST,
  STRING_UTF8,
  STRING_UNICODE,
  DIGITS,
  FRACTION,
  ARRAY_NUMBERS,
  ARRAY_STRINGS,
  ARRAY_WORDS,
  ARRAY_EMPTY,
  ARRAY_OBJECTS,
  PROPERTIES,
  PROPERTIES_COMPLEX,
  NAME,
  NAME_ESCAPED,
  DEEP_ARRAYS,
  DEEP_OBJECTS,
  DEEP_MIXED,
  SPACES,
  NEWLINES,
  STRICT_KINDS,
  // for the relaxed dialects
  WORD = STRICT_KINDS,
  WORD_NAME,
  COMMENT,
  COMMENT_LINES,
  NEWLINE_ELEMENTS,
  NEWLINE_PROPERTIES,
  TRAILING_COMMAS,
  KINDS
};
inline const char *name(int kind)
{
  static const char *n[] = {"string", "escapes", "string with an escape last", "two byte characters", "unicode escapes", "digits", "fraction digits", "numbers", "strings", "keywords",
                            "empty containers", "objects", "properties", "properties with containers", "name", "escaped name", "nested arrays", "nested objects", "nested mixed", "spaces", "newlines",
                            "unquoted value", "unquoted name", "comment", "comment lines", "elements by newline", "properties by newline", "nested trailing commas"};
  return n[kind];
}
// how many make sense
inline size_t most(int kind, bool thorough)
{
  switch (kind)
  {
  case DEEP_ARRAYS:
  case DEEP_OBJECTS:
  case DEEP_MIXED:
  case TRAILING_COMMAS:
    return thorough ? 4100 : 1030;
  case DIGITS:
  case FRACTION:
    return 5000;
  case PROPERTIES:
  case PROPERTIES_COMPLEX:
    return thorough ? 10001 : 2050;
  default:
    return thorough ? 140000 : 66000;
  }
}
// the options the value needs (words 1, newlines 2, commas 4, comments 8)
inline int flags(int kind)
{
  switch (kind)
  {
  case WORD:
  case WORD_NAME:
    return 1;
  case COMMENT:
  case COMMENT_LINES:
    return 8;
  case NEWLINE_ELEMENTS:
  case NEWLINE_PROPERTIES:
    return 2;
  case TRAILING_COMMAS:
    return 4;
  default:
    return 0;
  }
}
inline std::string times(size_t n, const std::string &s)
{
  std::string r;
  r.reserve(n * s.size());
  for (size_t i = 0; i < n; i++)
    r += s;
  return r;
}
template <class F>
inline std::string list(size_t n, const char *sep, F item)
{
  std::string r;
  for (size_t i = 0; i < n; i++)
  {
    if (i)
      r += sep;
    r += item(i);
  }
  return r;
}
// the value with n of it
inline std::string value(int kind, size_t n)
{
  auto num = [](size_t i) { return std::to_string(i); };
  switch (kind)
  {
  case STRING:
    return "\"" + list(n, "", [](size_t i) { return std::string(1, char('a' + i % 23)); }) + "\"";
  case STRING_ESCAPED:
    return "\"" + times(n, "\\\"") + "\"";
  case STRING_ESCAPE_LAST:
    return "\"" + std::string(n, 'y') + "\\n\"";
  case STRING_UTF8:
    return "\"" + times(n, "\xc3\xa9") + "\"";
  case STRING_UNICODE:
    return "\"" + times(n, "\\u20ac") + "\"";
  case DIGITS:
    return "1" + list(n, "", [](size_t i) { return std::string(1, char('0' + (i * 7 + 3) % 10)); });
  case FRACTION:
    return "-0.5" + list(n, "", [](size_t i) { return std::string(1, char('0' + (i * 3 + 1) % 10)); });
  case ARRAY_NUMBERS:
    return "[" + list(n, ",", num) + "]";
  case ARRAY_STRINGS:
    return "[" + list(n, ", ", [](size_t i) { return "\"s" + std::to_string(i) + "\""; }) + "]";
  case ARRAY_WORDS:
    return "[" + list(n, ",", [](size_t i) { return std::string(i % 3 == 0 ? "true" : i % 3 == 1 ? "null" : "false"); }) + "]";
  case ARRAY_EMPTY:
    return "[" + list(n, ",", [](size_t i) { return std::string(i % 2 ? "{}" : "[]"); }) + "]";
  case ARRAY_OBJECTS:
    return "[" + list(n, ",\n", [](size_t i) { return "{\"a\":" + std::to_string(i) + ",\"b\":[2]}"; }) + "]";
  case PROPERTIES:
    return "{" + list(n, ",", [](size_t i) { return "\"k" + std::to_string(i) + "\":" + std::to_string(i); }) + "}";
  case PROPERTIES_COMPLEX:
    return "{" + list(n, ",", [](size_t i) { return "\"k" + std::to_string(i) + "\":" + (i % 3 == 0 ? "[1,{}]" : i % 3 == 1 ? "\"t\"" : "{\"z\":[0]}"); }) + "}";
  case NAME:
    return "{\"" + std::string(n, 'n') + "\":1}";
  case NAME_ESCAPED:
    return "{\"" + times(n, "\\\\") + "\":1,\"q\":2}";
  case DEEP_ARRAYS:
    return std::string(n + 1, '[') + std::string(n + 1, ']');
  case DEEP_OBJECTS:
    return times(n, "{\"d\":") + "{}" + times(n, "}");
  case DEEP_MIXED:
  {
    std::string a, b;
    for (size_t i = 0; i < n; i++)
    {
      a += i % 3 == 1 ? "[7," : i % 3 == 2 ? "[" : "{\"d\":";
      b.insert(0, i % 3 == 1 ? "]" : i % 3 == 2 ? ",true]" : ",\"e\":\"f\"}");
    }
    return "[" + a + "1" + b + "]";
  }
  case SPACES:
  {
    std::string g(n, ' ');
    return "[" + g + "{" + g + "\"a\"" + g + ":" + g + "1" + g + "," + g + "\"b\"" + g + ":" + g + "\"t\"" + g + "}" + g + "," + g + "null" + g + "]";
  }
  case NEWLINES:
    return "[" + std::string(n, '\n') + "1" + times(n, "\r\n") + ",2]";
  case WORD:
    return "[" + std::string(n + 1, 'w') + ",x]";
  case WORD_NAME:
    return "{" + std::string(n + 1, 'w') + ":v,x:1}";
  case COMMENT:
    return "[1 //" + std::string(n, 'c') + "\n,//" + std::string(n, ']') + "\n2]";
  case COMMENT_LINES:
    return "[" + times(n, "//c\n") + "1" + times(n, " // \"\n") + "]";
  case NEWLINE_ELEMENTS:
    return "[" + list(n, "\n", num) + "\n]";
  case NEWLINE_PROPERTIES:
    return "{" + list(n > 3000 ? 3000 : n, "\n", [](size_t i) { return "\"k" + std::to_string(i) + "\":[]"; }) + "\n}";
  default:
    return times(n, "[[],") + "[]" + times(n, ",]");
  }
}
// places to cut a text of this size at: all of them if it is short
inline std::vector<size_t> places(size_t size)
{
  std::vector<size_t> r;
  for (size_t p = 0; p <= size; p++)
  {
    bool take = size <= 300 || p == size / 2 || p + 2 >= size || p + 20 == size;
    for (size_t q = 256; !take && q <= p + 1; q *= 16)
      take = p + 1 >= q && p <= q + 1;
    if (take || (size <= 2000 && (p <= 40 || p + 40 >= size || p % 128 == 0)))
      r.push_back(p);
  }
  return r;
}
// pieces of one size
inline std::vector<std::vector<size_t>> uniform(size_t size)
{
  std::vector<std::vector<size_t>> r;
  for (size_t u : {1, 2, 3, 7, 16, 31, 32, 33, 64, 100, 255, 256, 1000, 4096, 65536})
    if (u < size && size / u <= 2500)
    {
      r.emplace_back();
      for (size_t p = u; p < size; p += u)
        r.back().push_back(p);
    }
  return r;
}
inline std::string what(int kind, size_t n)
{
  return std::to_string(n) + " of " + name(kind);
}
} // namespace scale
