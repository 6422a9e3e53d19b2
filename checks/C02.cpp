// C02: the strict dialect, compared with the reference tokenizer on every text of a bounded space.
#include "mc.h"
#include "js_util.h"
#include "scale.h"

static void one(mc::Ctx &ctx, const std::string &s, const ref::Result &m)
{
  ctx.exec([&] { return "text=" + mc::show(s); },
           [&] {
             Run r = run_whole(s, ref::Opt());
             ctx.state(hash_run(r));
             ctx.steps(r.toks.size() + 1);
             if (m.toks.size() > 1)
               ctx.nontrivial();
             std::string d = diff_ref(r, m);
             if (!d.empty())
               ctx.fail("tokens differ from the reference", d);
           });
}
static void one(mc::Ctx &ctx, const std::string &s)
{
  one(ctx, s, ref::tokenize(s, ref::Opt()));
}

// every string over the alphabet behind the prefix; behind an error one more symbol is tried
static void explore(mc::Ctx &ctx, const std::string &prefix, const std::vector<std::string> &sym, int depth, int split,
                    const std::string &tail = "")
{
  int past = -1;
  mc::strings(ctx, sym, depth, split, [&](const std::string &t, int d) {
    std::string s = prefix + t;
    ref::Result m = ref::tokenize(s, ref::Opt());
    if (tail.empty())
      one(ctx, s, m);
    else
      one(ctx, s + tail);
    if (m.end == ref::End::NeedMore)
    {
      past = -1;
      return true;
    }
    if (past >= 0 && d > past)
      return false;
    past = d;
    return true;
  });
}

static const std::vector<std::string> docs = {
  "{}", "[]", "[1]", "{\"a\":1}", "[\"\"]", "{\"\":\"\"}", "[true,false,null]", "[[],{}]", "{\"a\":[1,{\"b\":2}],\"c\":3}",
  "[-1.5e+3,0]", " [ 1 , 2 ] ", "{ \"a\" : { } , \"b\" : [ ] }", "[\"a\\\"b\\\\\"]", "[\"\\u00e9\"]", "[1][2]", "{}\n{}",
  "[[[[1]]]]", "{\"a\":{\"a\":{\"a\":\"\"}}}", "[\"0123456789abcdef0123456789abcdef\",1]",
  "[12345678901234567890123456789012345]", "[                                    1]", "{\"a\"                  :1}",
  "{\"a\":1                                  ,\"b\":2}"};

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    explore(ctx, "", {"{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "\\", "\n"}, T ? 9 : 8, 3);
    explore(ctx, "", {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\\\"\"", "1", "true", " "}, T ? 10 : 9, 3);
    explore(ctx, "", {"{", "}", "[", "]", ",", ":", "\"k\"", "null", "-2.5e3"}, T ? 13 : 12, 4);
    explore(ctx, "[", {"]", ",", "1", "0", "-", "+", ".", "e", "E", " "}, T ? 9 : 8, 2);
    explore(ctx, "{\"a\":", {"}", ",", "1", "0", "-", ".", "e", "t", "\t"}, T ? 9 : 8, 2);
    explore(ctx, "[", {"t", "r", "u", "e", "]", ",", " "}, T ? 10 : 9, 2);
    explore(ctx, "[", {"f", "a", "l", "s", "e", "]", "n"}, T ? 10 : 9, 2);
    explore(ctx, "{\"a\":", {"n", "u", "l", "}", "]", "\n"}, T ? 10 : 9, 2);
    explore(ctx, "{", {"n", "u", "l", "\"", ":", "1", "}"}, T ? 10 : 9, 2);
    explore(ctx, "[\"", {"\\", "\"", "u", "n", "/", "\x80", "\n", "]", ","}, T ? 9 : 8, 2);
    explore(ctx, "{\"", {"\\", "\"", ":", "1", "}", "\xff", "\t"}, T ? 10 : 9, 2);
    explore(ctx, "[1", {" ", "\t", "\r", "\n", ",", "]", "2"}, T ? 9 : 8, 2);
    // the same with enough behind it for the vector code to run
    for (auto &t : {std::string(20, ' '), std::string(70, '\n')})
    {
      explore(ctx, "", {"{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "\\", "\n"}, T ? 8 : 7, 3, t);
      explore(ctx, "", {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\\\"\"", "1", "true", " "}, T ? 9 : 8, 3, t);
      explore(ctx, "[", {"]", ",", "1", "0", "-", "+", ".", "e", "E", " "}, T ? 7 : 6, 2, t);
      explore(ctx, "[\"", {"\\", "\"", "u", "n", "/", "\x80", "\n", "]", ","}, T ? 8 : 7, 2, t);
    }
    // strings, numbers, words and gaps of every length with one other byte at every place
    for (int n = 1; n <= (T ? 100 : 70); n++)
      for (int p = 0; p < n; p++)
        ctx.block([&] {
          const std::string fill[] = {std::string(n, 'x'), std::string(n, '7'), std::string(n, 't'), std::string(n, ' ')};
          const char *frame[][2] = {{"[\"", "\",1]"}, {"{\"", "\":2}"}, {"[", ",1]"}, {"{\"a\":", "}"}, {"[", "]"}, {"[", "1]"}, {"[1", ",2]"}, {"{\"a\"", ":2}"}};
          const int use[] = {0, 0, 1, 1, 2, 3, 3, 3};
          for (int k = 0; k < 8; k++)
            for (char c : std::string("\"\\,:]}[{/0a-.e+_ \n\t\r\v\x01\x7f\x80\xff\xc0"))
            {
              std::string f = fill[use[k]];
              f[size_t(p)] = c;
              one(ctx, frame[k][0] + f + frame[k][1]);
              if (p % 16 == 15)
                one(ctx, frame[k][0] + f + frame[k][1] + std::string(40, ' '));
            }
        });
    // every byte value at every position of documents: replaced, inserted, deleted; two bytes in short frames
    for (auto &d : docs)
      for (size_t p = 0; p <= d.size(); p++)
        ctx.block([&] {
          one(ctx, d.substr(0, p));
          if (p < d.size())
            one(ctx, d.substr(0, p) + d.substr(p + 1));
          for (int b = 1; b < 256; b++)
          {
            std::string c(1, char(b));
            one(ctx, d.substr(0, p) + c + d.substr(p));
            one(ctx, d.substr(0, p) + c + d.substr(p) + std::string(70, ' '));
            if (p < d.size())
              one(ctx, d.substr(0, p) + c + d.substr(p + 1));
            if (T)
              for (char e : std::string("{}[],:\"a1 \\\n\x80"))
                one(ctx, d.substr(0, p) + c + e + d.substr(p));
          }
        });
    const char *frame[][2] = {{"", ""}, {"[", "]"}, {"{\"a\":", "}"}, {"{", ":1}"}, {"[\"", "\"]"}, {"[1", "2]"}, {"{\"a\":1", "\"b\":2}"}};
    for (auto &f : frame)
      for (int b = 1; b < 256; b++)
        ctx.block([&] {
          for (int c = 1; c < 256; c++)
            one(ctx, f[0] + std::string(1, char(b)) + std::string(1, char(c)) + f[1]);
        });
    // nesting: every string of up to 20 brackets
    explore(ctx, "", {"[", "]"}, T ? 24 : 20, 6);
    // documents in which one thing is large; then the same without its end, and with one bracket exchanged
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t n : scale::ladder(scale::most(kind, T)))
        ctx.block([&] {
          std::string v = scale::value(kind, n), s = "{\"p\":" + v + ",\"q\":[2]}";
          one(ctx, s);
          one(ctx, "[" + v + "," + v + "]");
          one(ctx, s.substr(0, s.size() - 1));
          one(ctx, s.substr(0, v.size() + 4));
          one(ctx, s.substr(0, v.size() + 5) + "]");
          one(ctx, "[" + v + "}");
          one(ctx, "[" + v + " 1]");
          one(ctx, "[" + v + ":1]");
          if (n)
          {
            one(ctx, s.substr(0, 5 + v.size() / 2));
            one(ctx, s.substr(0, 5 + v.size() / 2) + "\x01" + s.substr(5 + v.size() / 2));
            one(ctx, s.substr(0, 5 + v.size() / 2) + "]" + s.substr(5 + v.size() / 2));
            one(ctx, s.substr(0, 5 + v.size() / 2) + "}" + s.substr(5 + v.size() / 2));
          }
        });
    for (size_t n : scale::ladder(T ? 5000 : 1100)) // roots
      ctx.block([&] {
        one(ctx, scale::times(n, "[1]"));
        one(ctx, scale::times(n, "{\"a\":{}}\n"));
      });
    // deep nesting
    for (int n : {1, 31, 32, 33, 64, 127, 128, 255, 256, 257, 300, 1000})
      for (int k = 0; k < 3; k++)
        ctx.block([&] {
          std::string s;
          for (int i = 0; i < n; i++)
            s += (k == 0 || (k == 2 && i % 2)) ? "[" : k == 1 && i == 0 ? "{" : k == 1 ? "\"a\":{" : i == 0 || s.back() == '[' ? "{\"b\":" : "{";
          one(ctx, s);
        });
  });
}
