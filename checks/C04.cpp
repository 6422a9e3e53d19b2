// C04: the same texts through five builds of the tokenizer (scalar, SSE2, SSE4.2, AVX2, NEON on emulated intrinsics) linked into one
// program; all have to agree with each other, error codes included, and with the reference tokenizer.
#include "mc.h"
#include "js_util.h"
#include "scale.h"
#include "C04_unit.h"

static std::vector<Unit> &units()
{
  static std::vector<Unit> u;
  return u;
}
void register_unit(const Unit &u)
{
  units().push_back(u);
}

static std::string show_plain(const PlainRun &r)
{
  std::string o;
  for (auto &k : r.toks)
    o += "[" + k.name + ":" + std::to_string(k.nt) + "|" + k.value + ":" + std::to_string(k.vt) + "]";
  return o + " -> " + std::to_string(r.end);
}

// the text at `align` bytes from a 64 byte boundary, ending at the end of its allocation
static bool one(mc::Ctx &ctx, const std::string &s, int flags, size_t align = 0, size_t cut = std::string::npos)
{
  ref::Result m = ref::tokenize(s, opt_of(flags));
  ctx.exec(
    [&] {
      return "flags=" + std::to_string(flags) + " align=" + std::to_string(align) +
             (cut != std::string::npos ? " cut=" + std::to_string(cut) : "") + " text=" + mc::show(s);
    },
    [&] {
      static char *page = static_cast<char *>(aligned_alloc(64, 1 << 23));
      char *p = page + align;
      memcpy(p, s.data(), s.size());
      // what lies behind the text must not matter
      memset(p + s.size(), '"', 64);
      const char *piece[2] = {p, cut == std::string::npos ? nullptr : p + cut};
      size_t size[2] = {cut == std::string::npos ? s.size() : cut, cut == std::string::npos ? 0 : s.size() - cut};
      int n = cut == std::string::npos ? 1 : 2;
      PlainRun first;
      for (size_t u = 0; u < units().size(); u++)
      {
        PlainRun r;
        units()[u].run(piece, size, n, flags, r);
        ctx.steps(r.toks.size() + 1);
        if (u == 0)
        {
          first = r;
          mc::Hash h;
          for (auto &k : r.toks)
            h.add(k.name).add(k.value).add(uint64_t(k.vt));
          ctx.state(h.add(uint64_t(r.end)).get());
          if (r.toks.size() > 1)
            ctx.nontrivial();
          // and the reference
          bool same = r.toks.size() == m.toks.size() && (r.end == int(JS::Error::NeedMoreData)) == (m.end == ref::End::NeedMore);
          for (size_t i = 0; same && i < r.toks.size(); i++)
            same = r.toks[i].value == m.toks[i].value && r.toks[i].name == m.toks[i].name;
          if (!same)
            ctx.fail("tokens differ from the reference", std::string(units()[u].name) + ": " + show_plain(r) + "\nref: " + show_ref(m));
        }
        else if (!(r == first))
        {
          ctx.fail("build configurations differ", std::string(units()[0].name) + ": " + show_plain(first) + "\n" + units()[u].name +
                                                    ": " + show_plain(r));
          return;
        }
      }
    });
  return m.end == ref::End::NeedMore;
}

static void explore(mc::Ctx &ctx, const std::string &prefix, const std::vector<std::string> &sym, int depth, int split, int flags)
{
  mc::strings(ctx, sym, depth, split, [&](const std::string &t, int) { return one(ctx, prefix + t, flags); });
}

int main(int argc, char **argv)
{
  if (units().size() < 3)
  {
    fprintf(stderr, "build configurations are missing\n");
    return 2;
  }
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    int maxlen = T ? 140 : 72;
    struct Frame
    {
      const char *pre, *post;
      char fill;
      int flags;
    };
    const Frame frames[] = {
      {"[\"", "\",1]", 'x', 0},           // string value
      {"{\"", "\":1,\"b\":2}", 'k', 0},   // name
      {"[", ",2]", '7', 0},               // number
      {"{\"a\":1", ",\"b\":2}", ' ', 0},  // white space
      {"[", "1]", ' ', 0},
      {"{\"a\"", ":1}", '\n', 0},
      {"[1", "]", '\t', 2},
      {"[1,2", "]", ' ', 1},
      {"{", ":v,b:2}", 'w', 1},           // unquoted
      {"[", ",w]", 'W', 1},
      {"[1,//", "\n2]", 'c', 8},          // comments
      {"[1//", "\n,2]", '"', 8},
      {"{\"a\"://", "\n2}", '/', 8},
      {"[1//", "\n2]", 'c', 10},
      {"{a:b//", "\nc:d}", 'c', 15},
      {"//", "\n[1]", '[', 8},
    };
    for (auto &f : frames)
      for (int len = 0; len <= maxlen; len++)
        ctx.block([&] {
          std::string fill(size_t(len), f.fill);
          one(ctx, f.pre + fill + f.post, f.flags);
          for (size_t al = 0; al < 64; al += (T ? 1 : 5))
            one(ctx, f.pre + fill + f.post, f.flags, al);
          // truncated in the lexeme
          one(ctx, f.pre + fill, f.flags);
          // every byte value at every position
          for (int pos = 0; pos < len; pos++)
            for (int b = 1; b < 256; b++)
            {
              std::string t = fill;
              t[size_t(pos)] = char(b);
              one(ctx, f.pre + t + f.post, f.flags, size_t(pos) % 16);
            }
          // two special bytes at every pair of positions
          for (int pos = 0; pos + 1 < len; pos++)
            for (int pos2 = pos + 1; pos2 < std::min(len, pos + (T ? len : 18)); pos2++)
              for (const char *pr : {"\\\"", "\\\\", "\"\\", "\n/", "//", "e-", " \n", "/\n"})
              {
                std::string t = fill;
                t[size_t(pos)] = pr[0];
                t[size_t(pos2)] = pr[1];
                one(ctx, f.pre + t + f.post, f.flags);
              }
          // backslash runs of every length ending at every position
          if (f.fill == 'x' || f.fill == 'k')
            for (int pos = 0; pos < len; pos++)
              for (int run = 1; run <= std::min(pos + 1, 36); run++)
              {
                std::string t = fill;
                for (int i = 0; i < run; i++)
                  t[size_t(pos - i)] = '\\';
                one(ctx, f.pre + t + f.post, f.flags);
              }
          // every cut into two buffers
          std::string whole = f.pre + fill + f.post;
          for (size_t c = 0; c <= whole.size(); c++)
            one(ctx, whole, f.flags, 3, c);
        });
    // documents in which one thing is large
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(scale::most(kind, T)))
        ctx.block([&] {
          std::string s = "{\"p\":" + scale::value(kind, n) + ",\"q\":[2]}";
          for (size_t al = 0; al < 32; al += n > 1000 ? 17 : 5)
            one(ctx, s, scale::flags(kind), al);
          one(ctx, s, scale::flags(kind) | 2, 1);
          one(ctx, s, 15, 7);
          one(ctx, s, scale::flags(kind), 0, s.size() / 2);
          one(ctx, s + std::string(40, ' '), scale::flags(kind));
          one(ctx, s.substr(0, s.size() - 8), scale::flags(kind));
        });
    // short texts: the scalar tails
    explore(ctx, "", {"{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "\\", "\n"}, T ? 7 : 6, 3, 0);
    explore(ctx, "", {"{", "}", "[", "]", ",", ":", "//", "a", "1", "\n", "\""}, T ? 7 : 6, 3, 15);
    // the same behind enough padding that the vector paths are taken
    std::string pad(40, ' ');
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "\\", "/"}, T ? 6 : 5, 2, [&](const std::string &t, int) {
      bool alive = one(ctx, t + pad, 0);
      one(ctx, t + pad, 9);
      one(ctx, t + pad + "\n" + pad, 15);
      return alive || true;
    });
  });
}
