// Token sequences and values serialised into every partition of the output, with and without refusals.
#include "mc.h"
#include "docs.h"
#include "trees.h"
#include "scale.h"
#include <map>
#include <memory>
#define JS_STL_MAP
#include <json_struct/json_struct.h>

struct Inner
{
  std::string s;
  std::vector<int> l;
  JS_OBJ(s, l);
};
struct Big
{
  int a = -12;
  std::string b = "two \"words\"\n";
  Inner in;
  std::vector<Inner> many;
  double d = 1.5;
  JS::Optional<bool> o;
  JS_OBJ(a, b, in, many, d, o);
};

// Hands out buffers of the given sizes, each between guard bytes; refuses when they are used up.
struct Supply
{
  struct Buf
  {
    std::vector<char> mem;
    size_t size;
  };
  std::vector<std::unique_ptr<Buf>> bufs;
  std::vector<size_t> sizes;
  size_t next = 0, requests = 0, refused = 0;
  std::vector<size_t> used;

  char *give(size_t &n)
  {
    std::unique_ptr<Buf> b(new Buf);
    b->size = n = sizes[next++];
    b->mem.assign(n + 16, '\xee');
    bufs.push_back(std::move(b));
    return bufs.back()->mem.data() + 8;
  }
  bool intact() const
  {
    for (auto &b : bufs)
      for (size_t i = 0; i < 8; i++)
        if (b->mem[i] != '\xee' || b->mem[b->size + 8 + i] != '\xee')
          return false;
    return true;
  }
  std::string text(size_t last_used) const
  {
    std::string o;
    for (size_t i = 0; i < bufs.size(); i++)
      o.append(bufs[i]->mem.data() + 8, i + 1 == bufs.size() ? last_used : bufs[i]->size);
    return o;
  }
};

static std::vector<JS::SerializerOptions> options()
{
  std::vector<JS::SerializerOptions> r;
  r.push_back(JS::SerializerOptions(JS::SerializerOptions::Pretty));
  r.push_back(JS::SerializerOptions(JS::SerializerOptions::Compact));
  JS::SerializerOptions o;
  o.setShiftSize(3);
  r.push_back(o);
  o = JS::SerializerOptions();
  o.skipDelimiter(true);
  r.push_back(o);
  return r;
}

struct Doc
{
  std::string name;
  std::vector<JS::Token> toks;
  std::shared_ptr<trees::Tokens> keep;
  std::string whole[4];
  std::vector<size_t> ends[4]; // how much has been written after each token
};

static Doc make_doc(const JV &v)
{
  Doc d;
  d.name = jv::show(v);
  d.keep = std::make_shared<trees::Tokens>(v);
  d.toks = d.keep->list;
  std::vector<JS::SerializerOptions> opts = options();
  for (size_t s = 0; s < opts.size(); s++)
  {
    size_t chars = 4096, depth = 0, most = 0;
    for (auto &t : d.toks)
    {
      depth += t.value_type == JS::Type::ObjectStart || t.value_type == JS::Type::ArrayStart;
      most = std::max(most, depth);
      depth -= t.value_type == JS::Type::ObjectEnd || t.value_type == JS::Type::ArrayEnd;
      chars += t.name.size + t.value.size + 16;
    }
    std::vector<char> mem(chars + d.toks.size() * most * 4);
    JS::Serializer ser(mem.data(), mem.size());
    ser.setOptions(opts[s]);
    for (auto &t : d.toks)
    {
      ser.write(t);
      d.ends[s].push_back(ser.currentBuffer().used);
    }
    d.whole[s].assign(mem.data(), ser.currentBuffer().used);
  }
  return d;
}

static const std::vector<JS::SerializerOptions> &opt_list()
{
  static const std::vector<JS::SerializerOptions> o = options();
  return o;
}
// FIRST: the first buffer is set by hand, the rest come from the callback; otherwise all do
static std::string run(const Doc &d, size_t s, const std::vector<size_t> &sizes, int mode)
{
  size_t total = 0;
  for (size_t n : sizes)
    total += n;
  Supply sup;
  sup.sizes = sizes;
  JS::Serializer ser;
  ser.setOptions(opt_list()[s]);
  if (mode != 0 && !sizes.empty())
  {
    size_t n;
    char *p = sup.give(n);
    ser.setBuffer(p, n);
  }
  if (mode != 2)
    ser.setRequestBufferCallback([&](JS::Serializer &who) {
      sup.requests++;
      if (sup.next == sup.sizes.size())
      {
        sup.refused++;
        return;
      }
      size_t n;
      char *p = sup.give(n);
      who.setBuffer(p, n);
    });
  size_t last = 0;
  for (size_t i = 0; i < d.toks.size(); i++)
  {
    bool want = d.ends[s][i] <= total;
    bool ok = ser.write(d.toks[i]);
    if (sup.refused == 0 && ser.currentBuffer().buffer)
      last = ser.currentBuffer().used;
    if (!sup.intact())
      return "wrote outside a buffer";
    if (ok != want)
      return "token " + std::to_string(i) + (ok ? " reported as written without space" : " reported as not written");
    if (!ok)
    {
      // everything that fits was written, and it is what was to be written
      if (mode == 2 && sizes.empty())
        return "";
      std::string got = sup.text(sup.bufs.empty() ? 0 : sup.bufs.back()->size);
      if (got != d.whole[s].substr(0, total))
        return "before the refusal: " + mc::show(got);
      return "";
    }
  }
  std::string got = sup.text(last);
  if (got != d.whole[s])
    return "got " + mc::show(got) + "\nwant " + mc::show(d.whole[s]);
  return "";
}
static std::string show_sizes(const std::vector<size_t> &z)
{
  std::string o;
  for (size_t n : z)
    o += " " + std::to_string(n);
  return o;
}
static void one(mc::Ctx &ctx, const Doc &d, size_t s, const std::vector<size_t> &sizes, int mode)
{
  ctx.exec([&] { return d.name + " option " + std::to_string(s) + " mode " + std::to_string(mode) + " sizes" + show_sizes(sizes); },
           [&] {
             std::string r = run(d, s, sizes, mode);
             ctx.steps(d.toks.size() + sizes.size());
             ctx.state(mc::Hash().add(d.name).add(uint64_t(s)).add(show_sizes(sizes)));
             if (sizes.size() > 1)
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("output", r);
           });
}

// a struct through the callback
static std::string run_struct(const Big &b, size_t s, const std::vector<size_t> &sizes, const std::string &want)
{
  Supply sup;
  sup.sizes = sizes;
  JS::Serializer ser;
  ser.setOptions(opt_list()[s]);
  ser.setRequestBufferCallback([&](JS::Serializer &who) {
    if (sup.next == sup.sizes.size())
      return;
    size_t n;
    char *p = sup.give(n);
    who.setBuffer(p, n);
  });
  JS::Token t;
  JS::TypeHandler<Big>::from(b, t, ser);
  if (!sup.intact())
    return "wrote outside a buffer";
  std::string got = sup.text(ser.currentBuffer().used);
  return got == want ? "" : "got " + mc::show(got);
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    trees::Shape sh;
    sh.scalars = docs::vals({"1", "null", "\"ab\\n\""});
    sh.names = {"k", "lm"};
    auto by = trees::all(sh, 3);
    std::vector<JV> small;
    for (auto &l : by)
      for (auto &v : l)
        small.push_back(v);
    // every partition of the short outputs, complete and cut off at every length
    const size_t most = ctx.thorough ? 17 : 13;
    for (auto &v : small)
      ctx.block([&] {
        Doc d = make_doc(v);
        for (size_t s = 0; s < opt_list().size(); s++)
        {
          size_t n = d.whole[s].size();
          for (size_t len = 0; len <= std::min(n, most); len++)
          {
            std::vector<size_t> sizes;
            for (unsigned mask = 0; mask < (len ? 1u << (len - 1) : 1u); mask++)
            {
              sizes.clear();
              size_t run_len = 1;
              for (size_t i = 1; i < len; i++)
              {
                if (mask >> (i - 1) & 1)
                {
                  sizes.push_back(run_len);
                  run_len = 1;
                }
                else
                  run_len++;
              }
              if (len)
                sizes.push_back(run_len);
              if (len < n && len > 9 && mask % 7)
                continue;
              one(ctx, d, s, sizes, 0);
              if (mask % 3 == 0)
                one(ctx, d, s, sizes, 1);
              if (sizes.size() <= 1)
                one(ctx, d, s, sizes, 2);
            }
          }
          // the longer ones: up to three buffers at every place, and every uniform size
          for (size_t a = 0; a <= n + 2; a++)
          {
            one(ctx, d, s, {a}, 2);
            if (a && a < n)
              for (size_t b = a + 1; b <= n + 1; b++)
              {
                one(ctx, d, s, {a, b - a}, int(b & 1));
                if (b < n)
                  one(ctx, d, s, {a, b - a, n + 5}, int(a & 1));
              }
            if (a)
              one(ctx, d, s, std::vector<size_t>(n / a + 1, a), int(a & 1));
          }
        }
      });
    // larger documents
    std::vector<JV> large = docs::vals({"{\"a\":[1,2,{\"b\":null}],\"name\":\"a longer text \\u0041\",\"c\":{\"d\":{\"e\":[[],[[true]]]}},\"f\":-1.5e3}",
                                        "[[[[[[[1]]]]]]]", "{\"p\":{\"q\":{\"r\":{\"s\":{\"t\":{\"u\":{}}}}}}}"});
    large.push_back(trees::nest(12, 0x5a, docs::val("\"x\"")));
    for (auto &v : large)
      for (size_t s = 0; s < opt_list().size(); s++)
      {
        Doc d = make_doc(v);
        size_t n = d.whole[s].size();
        for (size_t a = 1; a <= n + 1; a++)
          ctx.block([&] {
            one(ctx, d, s, {a}, 2);
            one(ctx, d, s, {a}, 0);
            one(ctx, d, s, std::vector<size_t>(n / a + 1, a), 0);
            for (size_t b = a + 1; b <= n; b++)
            {
              one(ctx, d, s, {a, b - a, n}, 0);
              if (ctx.thorough || b - a < 12)
                for (size_t c = b + 1; c <= std::min(n, b + (ctx.thorough ? 40 : 4)); c++)
                  one(ctx, d, s, {a, b - a, c - b, n}, 1);
            }
          });
      }
    // a struct
    Big big;
    big.in.s = "s";
    big.in.l = {1, -22, 333};
    big.many.resize(2);
    big.many[0].s = "\\ and more";
    for (size_t s = 0; s < 3; s++)
    {
      std::string want = JS::serializeStruct(big, opt_list()[s]);
      for (size_t a = 1; a <= want.size(); a++)
        ctx.block([&] {
          auto go = [&](const std::vector<size_t> &sizes) {
            ctx.exec([&] { return "struct option " + std::to_string(s) + " sizes" + show_sizes(sizes); },
                     [&] {
                       std::string r = run_struct(big, s, sizes, want);
                       ctx.steps(sizes.size());
                       ctx.nontrivial();
                       ctx.state(mc::Hash().add(uint64_t(s)).add(show_sizes(sizes)));
                       if (!r.empty())
                         ctx.fail("output", r);
                     });
          };
          go(std::vector<size_t>(want.size() / a + 1, a));
          go({a, want.size()});
          for (size_t b = 1; b < 40; b++)
            go({a, b, want.size()});
        });
    }
    // a context that grows: every size of the string it starts with, and values around its growth
    for (size_t n = 0; n <= 400; n++)
      ctx.exec([&] { return "context over a string of " + std::to_string(n); },
               [&] {
                 std::string want = JS::serializeStruct(big);
                 std::string out(n, 'x');
                 {
                   JS::SerializerContext sc(out);
                   sc.serialize(big);
                 }
                 ctx.steps(1);
                 ctx.nontrivial();
                 if (out != want)
                   ctx.fail("context", "got " + mc::show(out));
               });
    for (size_t base : {size_t(4096), size_t(8192), size_t(16384), size_t(32768)})
      for (size_t n = base - 40; n <= base + 40; n++)
        ctx.exec([&] { return "text of " + std::to_string(n); },
                 [&] {
                   std::vector<std::string> v{std::string(n, 'y'), "end"};
                   std::string want = "[\"" + v[0] + "\",\"end\"]";
                   ctx.steps(1);
                   ctx.nontrivial();
                   if (JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact)) != want)
                     ctx.fail("context", "wrong output");
                 });
    // documents in which one thing is large: in pieces of one size, cut in two or three, and refused
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t k : scale::ladder(std::min<size_t>(scale::most(kind, ctx.thorough), ctx.thorough ? 66000 : 4100)))
        ctx.block([&] {
          JV v;
          if (!jv::document("{\"p\":" + scale::value(kind, k) + ",\"q\":[2]}", v))
            abort();
          if (k > 300 && kind >= scale::DEEP_ARRAYS && kind <= scale::DEEP_MIXED)
            return;
          Doc d = make_doc(v);
          d.name = scale::what(kind, k);
          for (size_t s = k % 2; s < 3; s += k < 40 ? 1 : 2)
          {
            size_t n = d.whole[s].size();
            int m = 0;
            for (size_t u : {1, 2, 3, 7, 16, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537})
              if (n / u < 3000)
                one(ctx, d, s, std::vector<size_t>(n / u + 1, u), m++ % 2);
            for (size_t a : scale::places(n))
            {
              one(ctx, d, s, {a}, 2);
              if (a && a < n)
              {
                one(ctx, d, s, {a, n}, m++ % 2);
                one(ctx, d, s, {a, 1, n}, m % 2);
                one(ctx, d, s, {1, a}, m % 2);
              }
            }
          }
        });
    for (int kind : {int(scale::STRING), int(scale::STRING_ESCAPED), int(scale::NAME), int(scale::ARRAY_NUMBERS)})
      for (size_t k : {size_t(65534), size_t(65535), size_t(65536), size_t(65537), size_t(131073)})
        ctx.block([&] {
          JV v;
          if (!jv::document("{\"p\":" + scale::value(kind, k) + ",\"q\":[2]}", v))
            abort();
          Doc d = make_doc(v);
          d.name = scale::what(kind, k);
          for (size_t s = 0; s < 2; s++)
          {
            size_t n = d.whole[s].size();
            for (size_t u : {size_t(255), size_t(4096), size_t(65535), size_t(65536), size_t(65537), n - 1, n})
              one(ctx, d, s, std::vector<size_t>(n / u + 1, u), u % 2);
            for (size_t a : {size_t(1), size_t(65535), size_t(65536), size_t(65544), n - 1})
            {
              one(ctx, d, s, {a}, 2);
              one(ctx, d, s, {a, n}, 0);
              one(ctx, d, s, {a, 1, n}, 1);
            }
          }
        });
    // a context that has to grow many times
    for (size_t n : scale::ladder(ctx.thorough ? 600000 : 140000))
      ctx.block([&] {
        for (int start : {0, 1, 100, 5000})
          ctx.exec([&] { return "context over a string of " + std::to_string(start) + ", " + std::to_string(n) + " elements"; },
                   [&] {
                     std::vector<int> v(n);
                     std::string want = "[";
                     for (size_t i = 0; i < n; i++)
                     {
                       v[i] = int(i * 3);
                       want += (i ? "," : "") + std::to_string(i * 3);
                     }
                     want += "]";
                     std::string out(size_t(start), 'x');
                     {
                       JS::SerializerContext sc(out);
                       sc.serializer.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
                       sc.serialize(v);
                     }
                     ctx.steps(n);
                     ctx.nontrivial();
                     ctx.state(mc::Hash().add(uint64_t(n)).add(uint64_t(start)));
                     if (out != want)
                       ctx.fail("context", "got " + mc::show(out));
                     if (JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact)) != want)
                       ctx.fail("context", "serializeStruct");
                   });
      });
  });
}
