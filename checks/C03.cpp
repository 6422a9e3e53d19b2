// C03: the four relaxed-syntax options in all 16 combinations, compared with the reference tokenizer,
// and every text accepted without an option against the same text with more options.
#include "mc.h"
#include "js_util.h"
#include "scale.h"

// a text that is already accepted keeps its tokens when options are added (newlines outside of
// strings become separators, so only texts without newlines are held against that option)
static void monotone(mc::Ctx &ctx, const std::string &s, const Run *all)
{
  bool newline = s.find('\n') != std::string::npos;
  for (int a = 0; a < 16; a++)
  {
    if (all[a].end != JS::Error::NeedMoreData)
      continue;
    for (int bit = 1; bit < 16; bit *= 2)
    {
      int b = a | bit;
      if (b == a || (bit == 2 && newline))
        continue;
      // a lone '/' at the end may be the start of a comment; an unfinished word may go on
      if (all[b].end != all[a].end || all[a].toks.size() > all[b].toks.size() ||
          !std::equal(all[a].toks.begin(), all[a].toks.end(), all[b].toks.begin()))
      {
        if (bit == 8 && s.find('/') != std::string::npos)
          continue; // "//" is text in an unquoted word, a comment otherwise
        ctx.fail("an option changed an accepted text", "flags " + std::to_string(a) + ": " + show_run(all[a]) + "\nflags " +
                                                         std::to_string(b) + ": " + show_run(all[b]));
        return;
      }
    }
  }
}

static bool one(mc::Ctx &ctx, const std::string &text, const std::string &tail = "")
{
  bool alive = false;
  ref::Result m[16];
  const std::string s = text + tail;
  for (int f = 0; f < 16; f++)
  {
    m[f] = ref::tokenize(text, opt_of(f));
    alive = alive || m[f].end == ref::End::NeedMore;
    if (!tail.empty())
      m[f] = ref::tokenize(s, opt_of(f));
  }
  ctx.exec([&] { return "text=" + mc::show(s); },
           [&] {
             Run r[16];
             bool rich = false;
             for (int f = 0; f < 16; f++)
             {
               r[f] = run_whole(s, opt_of(f));
               ctx.state(mc::Hash().add(hash_run(r[f])).add(uint64_t(f)).get());
               ctx.steps(r[f].toks.size() + 1);
               rich = rich || m[f].toks.size() > 1;
               std::string d = diff_ref(r[f], m[f]);
               if (!d.empty())
                 ctx.fail("tokens differ from the reference", "flags=" + std::to_string(f) + " (words 1, newlines 2, commas 4, comments 8)\n" + d);
             }
             if (rich)
               ctx.nontrivial();
             monotone(ctx, s, r);
           });
  return alive;
}

static void explore(mc::Ctx &ctx, const std::string &prefix, const std::vector<std::string> &sym, int depth, int split,
                    const std::string &tail = "")
{
  mc::strings(ctx, sym, depth, split, [&](const std::string &t, int) { return one(ctx, prefix + t, tail); });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    explore(ctx, "", {"{", "}", "[", "]", ",", ":", "a", "1", "\n", "//", " "}, T ? 8 : 7, 3);
    explore(ctx, "", {"[", "]", ",", "/", "\n", "a", "\""}, T ? 9 : 8, 3);
    explore(ctx, "", {"{", "}", ":", ",", "/", "\n", "a", "\"b\""}, T ? 9 : 8, 3);
    explore(ctx, "{", {"\"a\"", ":", "1", ",", "\n", "}", "//c\n"}, T ? 9 : 8, 3);
    explore(ctx, "[", {"\"a\"", "1", ",", "\n", "]", "//]\n", "["}, T ? 9 : 8, 3);
    explore(ctx, "{a:", {"b", "_", ".", "-", "1", "/", "}", "\n"}, T ? 7 : 6, 2);
    explore(ctx, "[", {"true", "null", "x", ",", "]", "\n", "}"}, T ? 8 : 7, 2);
    explore(ctx, "{", {"true", "x", ":", ",", "}", "\n", "1"}, T ? 8 : 7, 2);
    // the same syntax with enough behind it, and gaps and comments long enough, for the vector code to run
    const std::string gap(37, ' '), tail(70, ' ');
    const std::string note = "//" + std::string(37, 'c') + "\n";
    for (auto &t : {std::string(20, ' '), tail})
    {
      explore(ctx, "", {"{", "}", "[", "]", ",", ":", "a", "1", "\n", "//", " "}, T ? 7 : 6, 3, t);
      explore(ctx, "[", {"\"a\"", "1", ",", "\n", "]", "//]\n", "[", "//"}, T ? 7 : 6, 3, t);
      explore(ctx, "{", {"\"a\"", ":", "b", ",", "\n", "}", "//c\n", "//"}, T ? 7 : 6, 3, t);
    }
    explore(ctx, "[", {"\"a\"", "1", ",", "\n", "]", note, gap, "b"}, T ? 7 : 6, 3, "");
    explore(ctx, "{", {"\"a\"", ":", "b", ",", "\n", "}", note, gap}, T ? 7 : 6, 3, "");
    explore(ctx, "[", {"\"a\"", "1", ",", "\n", "]", note, gap, "b"}, T ? 7 : 6, 3, tail);
    explore(ctx, "{", {"\"a\"", ":", "b", ",", "\n", "}", note, gap}, T ? 7 : 6, 3, tail);
    // documents in which one thing is large
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(std::min(scale::most(kind, T), size_t(T ? 17000 : 4100))))
        ctx.block([&] {
          std::string v = scale::value(kind, n);
          one(ctx, "{\"p\":" + v + ",\"q\":[2]}");
          one(ctx, "[" + v + "\n" + v + "]");
          one(ctx, "[" + v + ",//" + std::string(n % 100, 'x') + "\n" + v + ",]");
          one(ctx, "{p:" + v + "\nq:w}");
        });
    // every byte at every position of documents that use the relaxed syntax
    const std::vector<std::string> docs = {
      "{a:b}", "[a,b]", "{a:1\nb:2}", "[1\n2\n]", "{\"a\":1,}", "[[],]", "// c\n{\"a\":1}", "[1,// c\n2]", "{a://c\n1}",
      "{a //c\n:1}", "[\"x\" // c\n,\"y\"]", "{a:true,\nb:null,\n}", "{ab_c.d-e/f: ^`x }", "[1,2,// c ]\n]", "{\"a\":{b:[c,]},}\n// end\n",
      "{a:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,b:1}", "[//ccccccccccccccccccccccccccccccccccccccccccc\n1]"};
    for (auto &d : docs)
      for (size_t p = 0; p <= d.size(); p++)
        ctx.block([&] {
          one(ctx, d.substr(0, p));
          one(ctx, d.substr(0, p), tail);
          if (p < d.size())
            one(ctx, d.substr(0, p) + d.substr(p + 1));
          for (int b = 1; b < 256; b++)
          {
            one(ctx, d.substr(0, p) + char(b) + d.substr(p));
            one(ctx, d.substr(0, p) + char(b) + d.substr(p), tail);
            if (p < d.size())
              one(ctx, d.substr(0, p) + char(b) + d.substr(p + 1));
          }
        });
  });
}
