// C01: every partition of a text into buffers, however they are handed over, gives the result of the
// whole text in one buffer.
#include "mc.h"
#include "chunks.h"
#include "scale.h"

static const char *feed_name[] = {"upfront", "callback", "retry"};

static void one(mc::Ctx &ctx, const std::string &s, const std::vector<size_t> &cuts, Feed f, int flags, const Run &w)
{
  ctx.exec(
    [&] {
      return "flags=" + std::to_string(flags) + " feed=" + feed_name[f] + " pieces=" + show_cuts(s, cuts);
    },
    [&] {
      Run r = run_pieces(s, cuts, f, opt_of(flags));
      ctx.state(hash_run(r));
      ctx.steps(r.toks.size() + cuts.size() + 1);
      if (w.toks.size() > 1 && !cuts.empty())
        ctx.nontrivial();
      if (!(r == w))
        ctx.fail("pieces differ from the whole", "pieces: " + show_run(r) + "\nwhole:  " + show_run(w));
    });
}

// Each buffer handed over in a way of its own: as soon as the one before it, from the callback, after NeedMoreData, or
// behind the next token although nobody asked.
enum Way
{
  ALONG,
  ASKED,
  AGAIN,
  EARLY
};
static Run run_mixed(const std::string &s, const std::vector<size_t> &cuts, const std::vector<int> &way, const ref::Opt &o)
{
  Run r;
  Pieces p(s, cuts);
  JS::Tokenizer t;
  set_flags(t, o);
  std::function<void(const char *)> rel = [&](const char *d) { p.on_release(d); };
  t.setReleaseCallback(rel);
  size_t next = 0;
  auto give = [&](JS::Tokenizer &tk) {
    do
    {
      tk.addData(p.buf[next].get(), p.len[next]);
      next++;
    } while (next < p.buf.size() && way[next] == ALONG);
  };
  if (way[0] == ALONG)
    give(t);
  t.setNeedMoreDataCallback([&](JS::Tokenizer &tk) {
    if (next < p.buf.size() && way[next] == ASKED)
      give(tk);
  });
  JS::Token k;
  for (size_t limit = s.size() + p.buf.size() + 4;; limit--)
  {
    r.end = t.nextToken(k);
    if (limit == 0)
    {
      r.runaway = true;
      return r;
    }
    if (r.end == JS::Error::NoError)
      r.toks.push_back(snap(k));
    else if (r.end != JS::Error::NeedMoreData || next >= p.buf.size())
      return r;
    if (next < p.buf.size() && (r.end == JS::Error::NeedMoreData ? way[next] != ASKED : way[next] == EARLY))
      give(t);
    else if (r.end == JS::Error::NeedMoreData && t.registeredBuffers() == 0 && next < p.buf.size() && way[next] == ASKED)
    {
      r.runaway = true; // it was not asked for
      return r;
    }
  }
}
static void mixed(mc::Ctx &ctx, const std::string &s, const std::vector<size_t> &cuts, int flags, const Run &w)
{
  std::vector<int> way(cuts.size() + 1, 0);
  size_t all = size_t(1) << (2 * way.size());
  for (size_t m = 0; m < all; m++)
  {
    for (size_t i = 0; i < way.size(); i++)
      way[i] = int(m >> (2 * i) & 3);
    if (way[0] == EARLY)
      continue;
    ctx.exec(
      [&] {
        std::string d;
        for (int x : way)
          d += "uarn"[x];
        return "flags=" + std::to_string(flags) + " ways=" + d + " pieces=" + show_cuts(s, cuts);
      },
      [&] {
        Run r = run_mixed(s, cuts, way, opt_of(flags));
        ctx.state(hash_run(r));
        ctx.steps(r.toks.size() + way.size());
        if (w.toks.size() > 1)
          ctx.nontrivial();
        if (!(r == w))
          ctx.fail("pieces differ from the whole", "pieces: " + show_run(r) + "\nwhole:  " + show_run(w));
      });
  }
}
static void mixed_cuts(mc::Ctx &ctx, const std::string &s, int flags, int pieces)
{
  Run w = run_whole(s, opt_of(flags));
  for (size_t a = 0; a <= s.size(); a++)
  {
    mixed(ctx, s, {a}, flags, w);
    if (pieces > 2)
      for (size_t b = a; b <= s.size(); b++)
        mixed(ctx, s, {a, b}, flags, w);
  }
}

static void all_partitions(mc::Ctx &ctx, const std::string &s, int flags)
{
  Run w = run_whole(s, opt_of(flags));
  size_t n = s.size();
  for (uint64_t mask = 1; n && mask < (1ull << (n - 1)); mask++)
  {
    std::vector<size_t> cuts;
    for (size_t b = 1; b < n; b++)
      if (mask >> (b - 1) & 1)
        cuts.push_back(b);
    one(ctx, s, cuts, Feed(mask % 3), flags, w);
    if (ctx.thorough)
    {
      one(ctx, s, cuts, Feed((mask + 1) % 3), flags, w);
      one(ctx, s, cuts, Feed((mask + 2) % 3), flags, w);
    }
  }
}

// all partitions into up to `pieces` buffers (2, 3 or 4), plus uniform ones, plus empty buffers
static void few_cuts(mc::Ctx &ctx, const std::string &s, int flags, int pieces)
{
  Run w = run_whole(s, opt_of(flags));
  size_t n = s.size();
  int k = 0;
  for (size_t a = 0; a <= n; a++)
  {
    for (int f = 0; f < 3; f++)
      one(ctx, s, {a}, Feed(f), flags, w);
    if (pieces >= 3)
      for (size_t b = a; b <= n; b++)
      {
        one(ctx, s, {a, b}, Feed(k++ % 3), flags, w);
        if (pieces >= 4)
          for (size_t c = b; c <= n; c++)
            one(ctx, s, {a, b, c}, Feed(k++ % 3), flags, w);
      }
  }
  for (size_t u = 1; u < n; u++)
  {
    std::vector<size_t> cuts, doubled;
    for (size_t b = u; b < n; b += u)
    {
      cuts.push_back(b);
      doubled.push_back(b);
      doubled.push_back(b);
    }
    for (int f = 0; f < 3; f++)
    {
      one(ctx, s, cuts, Feed(f), flags, w);
      one(ctx, s, doubled, Feed(f), flags, w);
    }
  }
}

static void small_texts(mc::Ctx &ctx, const std::vector<std::string> &sym, int depth, int split, int flags, size_t maxlen)
{
  ref::Opt o = opt_of(flags);
  mc::strings(ctx, sym, depth, split, [&](const std::string &s, int) {
    if (s.size() > maxlen)
      return false;
    all_partitions(ctx, s, flags);
    return ref::tokenize(s, o).end == ref::End::NeedMore;
  });
}

// long lexemes: the vector scanners work on 16 and 32 byte blocks
static std::string body(int kind, int len, int pos)
{
  std::string b;
  switch (kind)
  {
  case 0: // string without escapes
    return "\"" + std::string(size_t(len), 'x') + "\"";
  case 1: // string with an escaped quote at pos
    b = std::string(size_t(len), 'x');
    return "\"" + b.substr(0, size_t(pos)) + "\\\"" + b.substr(size_t(pos)) + "\"";
  case 2: // escaped backslash at pos
    b = std::string(size_t(len), 'x');
    return "\"" + b.substr(0, size_t(pos)) + "\\\\" + b.substr(size_t(pos)) + "\"";
  case 3:
    return std::string(size_t(len), '7') + "5";
  case 4:
    return std::string(size_t(len), ' ') + "3" + std::string(size_t(len), pos % 2 ? '\n' : '\t');
  case 5:
    return std::string(size_t(len), 'w') + "_./-^`q";
  case 6:
    return "1//" + std::string(size_t(len), 'c') + "\n";
  case 7:
    return "//" + std::string(size_t(len), ']') + "\n1";
  case 8:
    return std::string(size_t(len), ' ') + "//" + std::string(size_t(pos), '"') + "\n /v" + std::string(size_t(len), '/');
  default:
    return "-0." + std::string(size_t(len), '9') + "e+10";
  }
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    // 1. every short text over the structural characters, every partition
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "\\"}, T ? 7 : 6, 3, 0, 16);
    small_texts(ctx, {"[", "]", ",", "\"", "\\", "u", "n"}, T ? 8 : 7, 3, 0, 16);
    // 2. texts over whole lexemes, every partition of up to 16 (20) bytes
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "12", "true", "null", " "}, T ? 7 : 6, 3, 0,
                T ? 15 : 12);
    // 3. the relaxed dialects
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "/", "\n", "b", "2", " "}, T ? 7 : 6, 3, 15, 16);
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "/", "\n", "b", "2", " "}, T ? 6 : 5, 3, 9, 16);
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "//", "\n", "\"k\"", "2"}, T ? 7 : 6, 3, 8, 16);
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "\n", "\"k\"", "2"}, T ? 7 : 6, 3, 2, 16);
    small_texts(ctx, {"{", "}", "[", "]", ",", ":", "\n", "wx", "true", "2"}, T ? 7 : 6, 3, 7, 16);
    // 4. long lexemes around the vector block sizes, every partition into two and three buffers
    const char *shape[][2] = {{"[", ",2]"}, {"{\"kkk\":", ",\"z\":null}"}, {"{\"a\":[true,", "],\"b\":{}}"}};
    for (int kind = 0; kind < 10; kind++)
      for (int len = 0; len <= (T ? 70 : 36); len += (len < 36 ? 1 : 3))
        for (int sh = 0; sh < 3; sh++)
        {
          int npos = (kind == 1 || kind == 2) ? len + 1 : (kind == 4 || kind == 8) ? 2 : 1;
          for (int pos = 0; pos < npos; pos += (T || npos < 3 ? 1 : (len > 20 ? 5 : 3)))
            ctx.block([&] {
              std::string s = shape[sh][0] + body(kind, len, pos) + shape[sh][1];
              int flags = kind == 5 ? 1 : kind == 6 || kind == 7 ? 8 : kind == 8 ? 9 : 0;
              few_cuts(ctx, s, flags, sh == 0 || T ? 3 : 2);
              if (kind == 4 || kind == 6)
                few_cuts(ctx, s, flags | 2, 2);
            });
        }
    // 6. documents in which one thing is large, cut in two at many places and into pieces of one size
    int turn = 0;
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(scale::most(kind, T)))
        ctx.block([&] {
          std::string s = "{\"p\":" + scale::value(kind, n) + ",\"q\":[2]}";
          int flags = scale::flags(kind);
          Run w = run_whole(s, opt_of(flags));
          for (size_t p : scale::places(s.size()))
            one(ctx, s, {p}, Feed(turn++ % 3), flags, w);
          for (auto &cuts : scale::uniform(s.size()))
            one(ctx, s, cuts, Feed(turn++ % 3), flags, w);
        });
    // 7. each buffer in its own way
    const std::vector<std::string> lex[] = {{"{", "}", "[", "]", ",", ":", "\"a\"", "12", "true", " "}, {"{", "}", "[", "]", ",", ":", "//c\n", "\n", "k", "2"}};
    for (int l = 0; l < 2; l++)
      mc::strings(ctx, lex[l], T ? 6 : 5, 2, [&](const std::string &s, int) {
        mixed_cuts(ctx, s, l * 15, s.size() < 9 ? 3 : 2);
        return ref::tokenize(s, opt_of(l * 15)).end == ref::End::NeedMore;
      });
    for (const char *d : {"{\"a\\\"\":[1,\"b\\\\\",{\"c\":null}],\"d\":-1.5e3}", "[[],{},[true,false],\"\\u00e9\\n\",0]", "[1] {\"a\":2}\n[3]"})
      for (int flags : {0, 15})
        ctx.block([&] { mixed_cuts(ctx, d, flags, 3); });
    // 5. whole documents, every partition into up to four buffers
    const char *docs[] = {"{\"a\\\"\":[1,\"b\\\\\",{\"c\":null}],\"d\":-1.5e3}",
                          "[[],{},[true,false],\"\\u00e9\\n\",0]",
                          "{\"x\":{\"y\":{\"z\":[[\"\"]]}},\"w\":\"]}\"}", "[1] {\"a\":2}\n[3]"};
    for (auto d : docs)
    {
      std::string s = d;
      ctx.block([&] { few_cuts(ctx, s, 0, 4); });
      ctx.block([&] { few_cuts(ctx, s, 15, 3); });
    }
  });
}
