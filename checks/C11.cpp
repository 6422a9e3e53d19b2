// Token sequences written with every option, against the texts they stand for.
#include "mc.h"
#include "docs.h"
#include "trees.h"
#include "layout.h"

struct Opts
{
  std::string name;
  JS::SerializerOptions o;
  bool pretty, quote_words, word_names = false;
  int shift, depth;
};
static std::vector<Opts> options(bool thorough)
{
  std::vector<Opts> r;
  for (int style = 0; style < 2; style++)
    for (int how = 0; how < 3; how++)
      for (int shift = -1; shift <= (thorough ? 12 : 5); shift++)
        for (int depth = 0; depth <= (shift < 3 ? 3 : 0); depth++)
          for (int words = 0; words < 2; words++)
          {
            if ((words && (depth > 1 || shift > 2)) || (how == 2 && (words || shift > 2)))
              continue;
            Opts o;
            JS::SerializerOptions::Style s = style ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty;
            o.shift = shift >= 0 ? shift : style ? 0 : 2;
            if (how == 2)
            {
              // the style last
              o.o = JS::SerializerOptions(style ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
              o.o.setShiftSize(static_cast<unsigned char>(o.shift));
              o.o.setDepth(depth);
              o.o.setStyle(s);
            }
            else
            {
              if (how)
              {
                o.o = JS::SerializerOptions(s == JS::SerializerOptions::Pretty && shift % 2 ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
                o.o.setStyle(s);
                o.o.setShiftSize(2);
              }
              else
                o.o = JS::SerializerOptions(s);
              if (shift >= 0)
                o.o.setShiftSize(static_cast<unsigned char>(shift));
              o.o.setDepth(depth);
            }
            o.o.setConvertAsciiToString(!words);
            o.pretty = !style;
            o.quote_words = !words;
            o.depth = depth;
            o.name = std::string(style ? "compact" : "pretty") + (how == 2 ? " set last" : how ? " set" : "") + " shift " + std::to_string(shift) + " depth " + std::to_string(depth) + (words ? " words" : "");
            r.push_back(o);
          }
  return r;
}

static void quote(JV &v)
{
  if (v.kind == JV::Word)
    v.kind = JV::Str;
  for (auto &k : v.kids)
    quote(k);
}
static std::string run(const trees::Tokens &t, const JV &v, const Opts &o, std::vector<char> &mem)
{
  JS::Serializer ser(mem.data(), mem.size());
  ser.setOptions(o.o);
  for (auto &k : t.list)
    if (!ser.write(k))
      return "not written";
  std::string got(mem.data(), ser.currentBuffer().used), want;
  bool first = true;
  layout::model(v, false, o.depth, false, first, o, want);
  if (got != want)
    return "wrote " + mc::show(got) + "\nwant  " + mc::show(want);
  // and the text has the tokens that were written
  JV back;
  ref::Opt words;
  words.words = !o.quote_words;
  std::string text = v.container() ? got : "[" + got + "]";
  if (!jv::document(text, back, words))
    return "not well-formed: " + mc::show(got);
  JV meant = v;
  if (!v.container())
  {
    meant = trees::leaf(JV::Arr);
    meant.kids.push_back(v);
  }
  if (o.quote_words)
    quote(meant);
  if (!jv::identical(back, meant))
    return "tokens differ: " + mc::show(got);
  return "";
}

static void explore(mc::Ctx &ctx, const JV &v, const std::vector<Opts> &opts, size_t step)
{
  static std::vector<char> mem(1 << 23);
  trees::Tokens t(v);
  trees::Tokens words(v);
  size_t bare = 0;
  for (auto &k : words.list)
    if (layout::is_word(std::string(k.name.data, k.name.size)))
    {
      k.name_type = JS::Type::Ascii;
      bare++;
    }
  if (bare)
    for (size_t i = 0; i < opts.size(); i += step)
    {
      if (opts[i].depth || opts[i].shift > 2)
        continue;
      Opts o = opts[i];
      o.word_names = true;
      ctx.exec([&] { return jv::show(v).substr(0, 300) + " " + o.name + ", names as words"; },
               [&] {
                 std::string r = run(words, v, o, mem);
                 ctx.steps(t.list.size());
                 ctx.nontrivial();
                 if (!r.empty())
                   ctx.fail("output", r.substr(0, 2000));
               });
    }
  for (size_t i = 0; i < opts.size(); i += step)
    ctx.exec([&] { return jv::show(v).substr(0, 300) + " " + opts[i].name; },
             [&] {
               std::string r = run(t, v, opts[i], mem);
               ctx.steps(t.list.size());
               ctx.state(mc::Hash().add(jv::show(v)).add(uint64_t(i)));
               if (t.list.size() > 1)
                 ctx.nontrivial();
               if (!r.empty())
                 ctx.fail("output", r.substr(0, 2000));
             });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    std::vector<Opts> opts = options(ctx.thorough);
    // every value up to a number of nodes; one leaf of each kind
    trees::Shape sh;
    sh.scalars = docs::vals({"1", "\"s\"", "null", "true"});
    sh.names = {"k"};
    auto by = trees::all(sh, ctx.thorough ? 6 : 5);
    for (size_t n = 1; n < by.size(); n++)
      for (size_t i = 0; i < by[n].size(); i += 200)
        ctx.block([&] {
          for (size_t k = i; k < std::min(by[n].size(), i + 200); k++)
            explore(ctx, by[n][k], opts, n < 5 ? 1 : 7);
        });
    // names and texts of every shape
    sh.scalars = docs::vals({"-0.5e-10", "\"\"", "\"a,b:{}[]\\\"\\\\ \\u0041\"", "false"});
    sh.scalars.push_back(trees::leaf(JV::Word, "word"));
    sh.names = {"", "n", "with \\\"quote\\\"", "{", ",", "\xc3\xa9"};
    by = trees::all(sh, ctx.thorough ? 4 : 3);
    for (size_t n = 1; n < by.size(); n++)
      for (size_t i = 0; i < by[n].size(); i += 50)
        ctx.block([&] {
          for (size_t k = i; k < std::min(by[n].size(), i + 50); k++)
            explore(ctx, by[n][k], opts, n < 4 ? 1 : 5);
        });
    // long words
    for (size_t n : {31, 64, 255, 256, 4095, 4096, 4097, 65535, 65536, 66000})
      ctx.block([&] {
        JV o = trees::leaf(JV::Obj);
        o.kids.push_back(trees::leaf(JV::Word, std::string(n, 'w')));
        o.kids[0].name = "k";
        o.kids.push_back(trees::leaf(JV::Num, "7"));
        o.kids[1].name = std::string(n, 'n');
        explore(ctx, o, opts, 1);
      });
    // wide and deep
    for (size_t w = 0; w <= 40; w++)
      ctx.block([&] {
        JV a = trees::leaf(JV::Arr), o = trees::leaf(JV::Obj);
        for (size_t i = 0; i < w; i++)
        {
          JV e = trees::leaf(i % 3 == 0 ? JV::Arr : JV::Num, i % 3 == 0 ? "" : "7");
          a.kids.push_back(e);
          e.name = "p" + std::to_string(i);
          o.kids.push_back(e);
        }
        explore(ctx, a, opts, 1);
        explore(ctx, o, opts, 1);
      });
    for (size_t d = 1; d <= 600; d += d < 140 ? 1 : (ctx.thorough ? 7 : 46))
      ctx.block([&] {
        for (unsigned pat : {0u, 255u, 0x55u, 0x33u, 0xe1u})
        {
          explore(ctx, trees::nest(d, pat, docs::val("\"in\"")), opts, d < 12 ? 1 : (d < 140 ? 5 : 13));
          JV v = trees::nest(d, pat, docs::val("{\"\":{\"\":[\"\"]},\"k\":null}"));
          for (JV *k = &v; k->container() && k->kids.size(); k = &k->kids[0])
            k->kids[0].name = "";
          explore(ctx, v, opts, d < 12 ? 1 : (d < 140 ? 7 : 13));
        }
      });
  });
}
