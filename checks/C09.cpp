// Byte strings to string literals and back.
#include "mc.h"
#include "ref_str.h"
#include "scale.h"
#include <map>
#define JS_STL_MAP
#include <json_struct/json_struct.h>
#include <json_struct/json_struct.h>

struct S
{
  std::string v = "old value that is longer than the short string buffer";
  int w = 0;
  JS_OBJ(v, w);
};

// the text between the quotes of a literal is well formed
static bool literal_ok(const std::string &t)
{
  for (size_t i = 0; i < t.size(); i++)
  {
    if (static_cast<unsigned char>(t[i]) < 0x20 || t[i] == '"')
      return false;
    if (t[i] != '\\')
      continue;
    if (i + 1 == t.size())
      return false;
    if (t[i + 1] == 'u')
    {
      if (ref::unit_at(t, i) < 0)
        return false;
      i += 5;
    }
    else if (!strchr("\"\\/bfnrt", t[i + 1]))
      return false;
    else
      i++;
  }
  return true;
}

template <class T>
static bool parse(const std::string &doc, T &t)
{
  std::vector<char> b(doc.begin(), doc.end());
  JS::ParseContext pc(b.data(), b.size());
  return pc.parseTo(t) == JS::Error::NoError;
}

static std::string write_string(const std::string &s)
{
  const JS::SerializerOptions compact(JS::SerializerOptions::Compact);
  S o;
  o.v = s;
  o.w = 7;
  std::string text = JS::serializeStruct(o, compact);
  if (text.size() < 14 || text.compare(0, 6, "{\"v\":\"") || text.compare(text.size() - 8, 8, "\",\"w\":7}"))
    return "written as " + mc::show(text);
  std::string lit = text.substr(6, text.size() - 14);
  if (!literal_ok(lit) || ref::decode(lit) != s)
    return "written as " + mc::show(text);
  S b;
  if (!parse(text, b) || b.v != s || b.w != 7)
    return "written as " + mc::show(text) + ", read back as " + mc::show(b.v);
  // as the name and the value of a map's entry, and as an element
  std::map<std::string, std::string> m, n;
  m[s] = s;
  m[s + "x"] = "y";
  text = JS::serializeStruct(m, compact);
  if (!parse(text, n) || n != m)
    return "written in a map as " + mc::show(text);
  std::vector<std::string> e{s, "", s}, f;
  text = JS::serializeStruct(e, compact);
  if (text != "[\"" + lit + "\",\"\",\"" + lit + "\"]" || !parse(text, f) || f != e)
    return "written in an array as " + mc::show(text);
  return "";
}
// a literal's text: no quote that is not escaped, an even number of backslashes at the end
static bool closed(const std::string &t)
{
  for (size_t i = 0; i < t.size(); i++)
  {
    if (t[i] == '"')
      return false;
    if (t[i] == '\\' && ++i == t.size())
      return false;
  }
  return true;
}
static std::string read_literal(const std::string &t)
{
  std::string want = ref::decode(t);
  S b;
  bool ok = parse("{\"v\":\"" + t + "\",\"w\":7}", b);
  if (!ok || b.v != want || b.w != 7)
    return "read as " + mc::show(b.v) + " should be " + mc::show(want);
  std::map<std::string, int> m;
  if (!parse("{\"" + t + "\":5}", m) || m.size() != 1 || m.begin()->first != want)
    return "read as a map's key as " + mc::show(m.empty() ? "nothing" : m.begin()->first) + " should be " + mc::show(want);
  std::vector<std::string> e;
  if (!parse("[\"" + t + "\",\"z\"]", e) || e.size() != 2 || e[0] != want || e[1] != "z")
    return "read as an element as " + mc::show(e.empty() ? "nothing" : e[0]) + " should be " + mc::show(want);
  return "";
}
static void wr(mc::Ctx &ctx, const std::string &s)
{
  ctx.exec([&] { return "write " + mc::show(s); },
           [&] {
             std::string r = write_string(s);
             ctx.steps(6);
             ctx.state(mc::Hash().add(s));
             if (!s.empty())
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("write", mc::show(s) + " is " + r);
           });
}
static void rd(mc::Ctx &ctx, const std::string &t)
{
  if (!closed(t))
    return;
  ctx.exec([&] { return "read " + mc::show(t); },
           [&] {
             std::string r = read_literal(t);
             ctx.steps(3);
             ctx.state(mc::Hash().add("r" + t));
             if (t.find('\\') != std::string::npos)
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("read", mc::show(t) + " is " + r);
           });
}
static std::string esc(unsigned u, bool upper = false)
{
  char b[16];
  snprintf(b, sizeof b, upper ? "\\u%04X" : "\\u%04x", u);
  return b;
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    // all strings of up to two bytes
    wr(ctx, "");
    for (int a = 0; a < 256; a++)
      ctx.block([&] {
        wr(ctx, std::string(1, char(a)));
        for (int b = 0; b < 256; b++)
        {
          std::string s{char(a), char(b)};
          wr(ctx, s);
          if (a && b)
          {
            rd(ctx, s);
            rd(ctx, "\\" + s);
            rd(ctx, s + "\\n");
          }
        }
        if (a)
          rd(ctx, std::string("\\") + char(a));
      });
    // longer strings of the bytes that matter
    std::vector<std::string> sym;
    for (const char *c : {"a", "\"", "\\", "\n", "\x1f", "/", "\xc3\xa9", "u", "\x7f", "\xff"})
      sym.push_back(c);
    sym.push_back(std::string(1, '\0'));
    mc::strings(ctx, sym, ctx.thorough ? 6 : 4, 1, [&](const std::string &s, int) {
      wr(ctx, s);
      return true;
    });
    sym.clear();
    for (const char *c : {"a", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d", "\\ude00", "\\uD800", "\\uDFFF",
                          "\\udbff", "\\udc00", "\\ue000", "\\uD7ff", "\xc3\xa9", "u", "0", "d", "\\u", "\\q", "\\u0000"})
      sym.push_back(c);
    mc::strings(ctx, sym, ctx.thorough ? 5 : 4, 1, [&](const std::string &s, int) {
      rd(ctx, s);
      return true;
    });
    // every unicode escape
    for (unsigned hi = 0; hi < 256; hi++)
      ctx.block([&] {
        for (unsigned lo = 0; lo < 256; lo++)
        {
          unsigned u = hi << 8 | lo;
          rd(ctx, esc(u));
          rd(ctx, "x" + esc(u, true) + "y");
          rd(ctx, esc(u) + esc(u));
          rd(ctx, esc(u) + esc(0xdc00));
          rd(ctx, esc(0xd800) + esc(u));
          rd(ctx, esc(0xdbff, true) + esc(u) + "\\t");
        }
      });
    // every surrogate pair
    for (unsigned h = 0xd800; h < 0xdc00; h++)
      ctx.block([&] {
        for (unsigned l = 0xdc00; l < 0xe000; l++)
          rd(ctx, esc(h, l & 1) + esc(l, h & 1));
      });
    // malformed and incomplete escapes stand for themselves
    for (const char *t : {"\\u", "\\u0", "\\u00", "\\u004", "\\u004g", "\\ug041", "\\u 041", "\\u+041", "\\u-041", "\\u0x41", "\\ud83d\\u", "\\ud83d\\ude0",
                          "\\ud83d\\ude0g", "\\ud83dude00", "\\ud83d\\n", "\\ud83d \\ude00", "\\U0041", "\\x41", "\\0", "\\'", "\\v", "\\a"})
      for (const char *post : {"", "z", "\\n", "\\\\", "\\u0041"})
        rd(ctx, std::string(t) + post);
    // each escape at each place relative to a vector block
    for (size_t pre = 0; pre <= (ctx.thorough ? 140u : 70u); pre++)
      ctx.block([&] {
        for (size_t post : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(14), size_t(15), size_t(16), size_t(17), size_t(31), size_t(32), size_t(33), size_t(48), size_t(64)})
        {
          for (const char *e : {"", "\\n", "\\\"", "\\\\", "\\u0041", "\\u20ac", "\\ud83d\\ude00", "\\ud83d", "\\n\\n", "\xe2\x82\xac"})
          {
            rd(ctx, std::string(pre, 'p') + e + std::string(post, 'q'));
            rd(ctx, std::string(pre, '\xc3') + e + std::string(post, '\x80') + e);
          }
          for (int c = 0; c < 256; c++)
            wr(ctx, std::string(pre, 'p') + char(c) + std::string(post, 'q'));
          for (const char *c : {"\"", "\\", "\x01"})
            for (size_t gap : {size_t(0), size_t(7), size_t(15), size_t(16), size_t(31)})
              wr(ctx, std::string(pre, '\xff') + c + std::string(gap, '!') + c + std::string(post, '#'));
        }
      });
    // long ones
    for (size_t n : scale::ladder(ctx.thorough ? 140000 : 66000))
      ctx.block([&] {
        for (const char *e : {"\n", "\"", "\\", "\x1f", "\xc3\xa9", "z"})
        {
          wr(ctx, std::string(n, 'p') + e);
          wr(ctx, e + std::string(n, 'p'));
          wr(ctx, scale::times(n, e));
          wr(ctx, std::string(n, 'p') + e + std::string(n, 'q') + e);
        }
        for (const char *e : {"\\n", "\\\"", "\\\\", "\\u0041", "\\u20ac", "\\ud83d\\ude00", "\\ud83d", "\\q", "\xe2\x82\xac"})
        {
          rd(ctx, std::string(n, 'p') + e);
          rd(ctx, e + std::string(n, 'p'));
          rd(ctx, scale::times(n, e));
          rd(ctx, std::string(n, 'p') + e + std::string(n, 'q') + e);
        }
      });
  });
}
