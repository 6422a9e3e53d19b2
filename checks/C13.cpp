// Reformatting: same tokens, well formed, a fixed point; errors reported.
#include "mc.h"
#include "docs.h"
#include "trees.h"
#include "scale.h"

struct Opts
{
  std::string name;
  JS::SerializerOptions o;
};
static std::vector<Opts> options()
{
  std::vector<Opts> r;
  r.push_back({"pretty", JS::SerializerOptions(JS::SerializerOptions::Pretty)});
  r.push_back({"compact", JS::SerializerOptions(JS::SerializerOptions::Compact)});
  for (unsigned char s : {0, 1, 4})
  {
    JS::SerializerOptions o;
    o.setShiftSize(s);
    r.push_back({"pretty shift " + std::to_string(s), o});
  }
  JS::SerializerOptions o;
  o.setStyle(JS::SerializerOptions::Compact);
  r.push_back({"set to compact", o});
  o = JS::SerializerOptions(JS::SerializerOptions::Compact);
  o.setStyle(JS::SerializerOptions::Pretty);
  o.setConvertAsciiToString(false);
  r.push_back({"set to pretty", o});
  return r;
}
static const std::vector<Opts> &opts()
{
  static const std::vector<Opts> o = options();
  return o;
}
static std::string squeeze(const std::string &s)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (in && s[i] == '\\' && i + 1 < s.size())
    {
      o += s[i++];
      o += s[i];
      continue;
    }
    if (s[i] == '"')
      in = !in;
    if (in || !strchr(" \t\r\n", s[i]))
      o += s[i];
  }
  return o;
}

static std::string run(const std::string &text, const Opts &op, size_t scratch, bool *valid)
{
  ref::Result r = ref::tokenize(text, ref::Opt());
  JV doc;
  size_t used = 0;
  bool whole = jv::build(r, used, doc);
  bool single = whole && used == r.toks.size();
  bool error = r.end != ref::End::NeedMore || !r.balanced;
  *valid = single && !error;
  if (!error && !single)
    return ""; // nothing, or more than one document
  std::vector<char> buf(text.begin(), text.end());
  buf.shrink_to_fit();
  char none = 0;
  std::string out(scratch, '#');
  JS::Error e = JS::reformat(buf.empty() ? &none : buf.data(), buf.size(), out, op.o);
  if (error)
    return e == JS::Error::NoError ? "accepted, giving " + mc::show(out) : "";
  if (e != JS::Error::NoError)
    return "error " + std::to_string(int(e));
  JV back;
  if (!jv::document(out, back) || !jv::identical(back, doc))
    return "gave " + mc::show(out);
  if (op.o.style() == JS::SerializerOptions::Compact && squeeze(out) != out)
    return "white space in " + mc::show(out);
  std::string again;
  if (JS::reformat(out, again, op.o) != JS::Error::NoError || again != out)
    return "gave " + mc::show(out) + " and then " + mc::show(again);
  return "";
}
static void one(mc::Ctx &ctx, const std::string &text, size_t o, size_t scratch = 0)
{
  ctx.exec([&] { return mc::show(text.substr(0, 400)) + " " + opts()[o].name + (scratch ? " over " + std::to_string(scratch) : ""); },
           [&] {
             bool valid = false;
             std::string r = run(text, opts()[o], scratch, &valid);
             ctx.steps(2);
             ctx.state(mc::Hash().add(text).add(uint64_t(o)));
             if (valid)
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("reformat", r.substr(0, 2000));
           });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    // every short text
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"", "1", " "}, ctx.thorough ? 8 : 7, 2, [&](const std::string &s, int) {
      one(ctx, s, s.size() % 2);
      return true;
    });
    mc::strings(ctx, {"[", "]", ",", "\"", "\\\"", "-", "1", ".5", "e3", "true", "null", "\n"}, ctx.thorough ? 7 : 6, 2, [&](const std::string &s, int) {
      one(ctx, "[" + s + "]", s.size() % 2);
      return true;
    });
    // every value up to a number of nodes, every style, with and without white space
    trees::Shape sh;
    sh.scalars = docs::vals({"1", "\"s\"", "null"});
    sh.names = {"k", "k\\\"l"};
    auto by = trees::all(sh, ctx.thorough ? 6 : 5);
    for (size_t n = 1; n < by.size(); n++)
      for (size_t i = 0; i < by[n].size(); i += 100)
        ctx.block([&] {
          for (size_t k = i; k < std::min(by[n].size(), i + 100); k++)
          {
            const JV &v = by[n][k];
            if (!v.container())
              continue;
            std::string text = jv::show(v), sp = docs::spaced(v);
            for (size_t o = 0; o < opts().size(); o += n < 5 ? 1 : 3)
            {
              one(ctx, text, o);
              one(ctx, sp, o);
            }
            if (n < 4)
              for (size_t c = 0; c < text.size(); c++)
              {
                one(ctx, text.substr(0, c), 0);
                one(ctx, text + text.substr(0, c), 0);
                one(ctx, text, 0, c + 1);
                one(ctx, text, 1, c + 1);
              }
          }
        });
    // values of every shape
    std::vector<std::string> vals = {"0", "-0", "-12.50", "1e5", "1E+5", "1.0e-7", "123456789012345678901234567890", "true", "false", "null", "\"\"",
                                     "\"\\\"\"", "\"\\\\\"", "\"\\u0041\\ud83d\\ude00\"", "\"a/b\\/c\"", "\"{}[],:\"", "\"\xc3\xa9\xff\"", "\" \\t \"", "\"\x7f\"", "\"null\"", "\"1\""};
    for (auto &a : vals)
      ctx.block([&] {
        for (auto &b : vals)
          for (size_t o = 0; o < opts().size(); o++)
          {
            one(ctx, "[" + a + "," + b + "]", o);
            one(ctx, "{\"x\":" + a + ",\"y\":{\"z\":" + b + "}}", o);
            one(ctx, "{ \"x\" : " + a + " ,\r\n\t\"y\" : [ " + b + " ] }", o);
          }
      });
    // white space and more around a document
    mc::strings(ctx, {" ", "\t", "\r", "\n", "\f", ",", "1", "[]"}, ctx.thorough ? 5 : 4, 1, [&](const std::string &s, int) {
      for (const char *doc : {"[]", "{\"a\":[1]}", "[[],{}]"})
      {
        one(ctx, doc + s, s.size() % 2);
        one(ctx, s + doc, s.size() % 2);
        one(ctx, s + doc + s, s.size() % 2);
      }
      return true;
    });
    // stopped at every depth
    for (size_t d = 1; d <= 70000; d += d < 600 ? 1 : d < 65530 ? 64930 : 1)
    {
      if (d > 65540)
        break;
      ctx.block([&] {
        one(ctx, std::string(d, '['), 1);
        one(ctx, std::string(d, '[') + "1", 1);
        if (d < 600)
        {
          std::string t;
          for (size_t i = 0; i < d; i++)
            t += i % 3 ? "{\"a\":" : "[[],";
          one(ctx, t, 1);
          one(ctx, t + "1", 0);
        }
      });
    }
    // deep and long
    for (size_t d = 1; d <= 600; d += d < 140 ? 1 : (ctx.thorough ? 7 : 46))
      ctx.block([&] {
        for (unsigned pat : {0u, 255u, 0x55u, 0x33u})
          for (size_t o = 0; o < opts().size(); o += d < 20 ? 1 : 2)
          {
            std::string t = jv::show(trees::nest(d, pat, docs::val("\"in\"")));
            one(ctx, t, o);
            one(ctx, t.substr(0, t.size() - 1), o);
          }
      });
    for (size_t base : {size_t(4096), size_t(8192), size_t(16384)})
      for (size_t n = base - 30; n <= base + 30; n++)
        ctx.block([&] {
          std::string s(n, 'y');
          one(ctx, "[\"" + s + "\",1]", 0);
          one(ctx, "[\"" + s + "\",1]", 1);
          one(ctx, "{\"" + s + "\":[]}", 1);
        });
    for (size_t n = 1; n < 2000; n += ctx.thorough ? 7 : 61)
    {
      std::string t = "[";
      for (size_t i = 0; i < n; i++)
        t += (i ? "," : "") + std::to_string(i);
      one(ctx, t + "]", 0);
      one(ctx, t + "]", 1);
      one(ctx, t + "]", 2, 3);
      one(ctx, t, 0);
    }
    // documents in which one thing is large
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t n : scale::ladder(scale::most(kind, ctx.thorough)))
        ctx.block([&] {
          std::string v = scale::value(kind, n);
          for (size_t o = 0; o < opts().size(); o += n < 40 ? 1 : 3)
          {
            one(ctx, "{\"p\":" + v + ",\"q\":[2]}", o);
            if (n < 5000)
            {
              one(ctx, "[" + v + "]", o, n);
              one(ctx, "[" + v + "}", o);
            }
          }
        });
  });
}
