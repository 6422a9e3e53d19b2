// The metadata of the tokens of every document up to a size, compared with its tree.
#include "types.h"
#include "docs.h"
#include "trees.h"
#include "scale.h"

struct Want
{
  const JV *v;
  size_t position, size, skip, children, complex_children, end;
  bool is_array, has_data;
  size_t first_with_data; // among the complex children
};
struct Sum
{
  size_t tokens = 0, metas = 0;
  bool data = false;
};
static Sum expect(const JV &v, size_t at, std::vector<Want> &out)
{
  Sum s;
  s.tokens = 1;
  if (!v.container())
  {
    s.data = true;
    return s;
  }
  size_t me = out.size();
  out.push_back(Want());
  s.metas = 1;
  size_t complex = 0, first = size_t(-1);
  for (auto &k : v.kids)
  {
    Sum c = expect(k, at + s.tokens, out);
    s.tokens += c.tokens;
    s.metas += c.metas;
    s.data = s.data || c.data;
    if (k.container())
    {
      if (c.data && first == size_t(-1))
        first = complex;
      complex++;
    }
  }
  s.tokens++;
  out[me] = {&v, at, s.tokens, s.metas, v.kids.size(), complex, at + s.tokens - 1, v.kind == JV::Arr, s.data, first};
  return s;
}
static std::string differ(const std::vector<JS::JsonMeta> &m, const std::vector<Want> &w)
{
  if (m.size() != w.size())
    return std::to_string(m.size()) + " entries instead of " + std::to_string(w.size());
  for (size_t i = 0; i < m.size(); i++)
  {
    auto bad = [&](const char *what, size_t a, size_t b) { return "entry " + std::to_string(i) + ": " + what + " " + std::to_string(a) + " instead of " + std::to_string(b); };
    if (m[i].position != w[i].position)
      return bad("position", m[i].position, w[i].position);
    if (m[i].size != w[i].size)
      return bad("size", m[i].size, w[i].size);
    if (m[i].skip != w[i].skip)
      return bad("skip", m[i].skip, w[i].skip);
    if (m[i].children != w[i].children)
      return bad("children", m[i].children, w[i].children);
    if (m[i].complex_children != w[i].complex_children)
      return bad("complex children", m[i].complex_children, w[i].complex_children);
    if (m[i].is_array != w[i].is_array)
      return bad("is array", m[i].is_array, w[i].is_array);
    if (m[i].has_data != w[i].has_data)
      return bad("has data", m[i].has_data, w[i].has_data);
#ifdef INTERNALS
    size_t f = JS::Internal::findFirstChildWithData(m, i);
    if (f != w[i].first_with_data)
      return bad("first child with data", f, w[i].first_with_data);
#endif
  }
  return "";
}

static void check(mc::Ctx &ctx, const JV &v, const std::string &how, const JS::JsonTokens &t, bool extract)
{
  std::vector<Want> w;
  Sum s = expect(v, 0, w);
  if (s.tokens != t.data.size())
    return ctx.fail("tokens", how + ": " + std::to_string(t.data.size()) + " tokens instead of " + std::to_string(s.tokens));
  auto m = JS::metaForTokens(t);
  std::string r = differ(m, w);
  if (!r.empty())
    return ctx.fail("metadata", how + ": " + r);
  ctx.steps(t.data.size());
  mc::Hash h;
  for (auto &x : w)
    h.add(uint64_t(x.size)).add(uint64_t(x.children)).add(uint64_t(x.is_array)).add(uint64_t(x.has_data));
  ctx.state(h.get());
  if (!extract)
    return;
  for (auto &x : w)
  {
    // the extent, taken out, is the container
    JS::JsonTokens sub;
    sub.data.assign(t.data.begin() + long(x.position), t.data.begin() + long(x.position + x.size));
    std::vector<Want> sw;
    expect(*x.v, 0, sw);
    r = differ(JS::metaForTokens(sub), sw);
    if (!r.empty())
      return ctx.fail("metadata", how + ", part " + mc::show(jv::show(*x.v)) + ": " + r);
    JS::ParseContext pc;
    pc.tokenizer.addData(&sub.data);
    JS::JsonTokens again;
    JV b;
    if (pc.parseTo(again) != JS::Error::NoError || !M<JS::JsonTokens>::write(again, b))
      return ctx.fail("extent", how + ", part " + mc::show(jv::show(*x.v)) + " is no value");
    std::string a = jv::show(b), c = jv::show(*x.v);
    if (a != c)
      return ctx.fail("extent", how + ", part " + mc::show(c) + " is " + mc::show(a));
  }
  // stepping over children by it visits exactly the children
  for (size_t i = 0; i < w.size(); i++)
  {
    size_t tok = m[i].position + 1, k = i + 1, n = 0;
    while (tok + 1 < m[i].position + m[i].size)
    {
      if (n >= w[i].v->kids.size())
        return ctx.fail("skipping", how + ": more children than there are");
      const JV &kid = w[i].v->kids[n];
      if (k < m.size() && m[k].position == tok)
      {
        if (!kid.container())
          return ctx.fail("skipping", how + ": out of step");
        tok += m[k].size;
        k += m[k].skip;
      }
      else
      {
        if (kid.container())
          return ctx.fail("skipping", how + ": out of step");
        tok++;
      }
      n++;
    }
    if (n != m[i].children)
      return ctx.fail("skipping", how + ": children missed");
  }
}

static void value(mc::Ctx &ctx, const JV &v, bool extract = true)
{
  ctx.exec([&] { return mc::show(jv::show(v).substr(0, 300)); },
           [&] {
             trees::Tokens built(v);
             JS::JsonTokens t;
             t.data = built.list;
             if (t.data.size() > 2)
               ctx.nontrivial();
             check(ctx, v, "built", t, extract);
             if (!v.container())
               return;
             for (int sp = 0; sp < 2; sp++)
             {
               std::string text = sp ? docs::spaced(v) : jv::show(v);
               JS::ParseContext pc(text.data(), text.size());
               JS::JsonTokens p;
               if (pc.parseTo(p) != JS::Error::NoError)
                 return ctx.fail("tokens", "not accepted");
               check(ctx, v, "parsed", p, extract && !sp);
               if (v.kind == JV::Obj && !sp)
               {
                 JS::Map map;
                 JS::ParseContext pm(text.data(), text.size());
                 if (pm.parseTo(map) != JS::Error::NoError)
                   return ctx.fail("tokens", "not accepted as a map");
                 std::vector<Want> w;
                 expect(v, 0, w);
                 std::string r = differ(map.meta, w);
                 if (!r.empty())
                   return ctx.fail("metadata", "of a map: " + r);
               }
             }
           });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    auto go = [&](const trees::Shape &sh, int max) {
      auto by = trees::all(sh, max);
      for (auto &l : by)
        for (size_t i = 0; i < l.size(); i += 64)
          ctx.block([&] {
            for (size_t k = i; k < l.size() && k < i + 64; k++)
              value(ctx, l[k]);
          });
    };
    trees::Shape sh;
    sh.names = {"a"};
    sh.scalars = docs::vals({"1"});
    go(sh, T ? 9 : 8);
    sh.scalars = docs::vals({"1", "\"[\"", "true", "null", "\"\"", "false", "-1.5e3"});
    sh.names = {"a", "", "{"};
    go(sh, T ? 4 : 3);
    sh.scalars = docs::vals({"1", "\"s\""});
    sh.names = {"a", "b"};
    go(sh, T ? 6 : 5);
    // wide and deep
    for (size_t n : {size_t(1), size_t(15), size_t(16), size_t(17), size_t(63), size_t(64), size_t(65), size_t(127), size_t(128), size_t(129), size_t(255), size_t(256), size_t(257), size_t(600)})
      for (unsigned pat : {0u, 255u, 0x55u, 0x33u})
        for (const char *leaf : {"1", "[]", "{}", "[[],{\"x\":{}}]", "[{},[1]]"})
          ctx.block([&] { value(ctx, trees::nest(n, pat, docs::val(leaf)), n < 100); });
    for (size_t n : {size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), size_t(70000)})
      for (int arr = 0; arr < 2; arr++)
        for (const char *kid : {"1", "[]", "{\"x\":1}"})
          ctx.block([&] {
            JV v = trees::leaf(arr ? JV::Arr : JV::Obj), k = docs::val(kid);
            k.name = arr ? "" : "n";
            v.kids.assign(n, k);
            value(ctx, v, false);
            JV o = trees::leaf(JV::Arr), e = docs::val("[]");
            o.kids = {e, v, e, docs::val("2")};
            o.kids[1].name = "";
            value(ctx, o, false);
          });
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t n : scale::ladder(scale::most(kind, T)))
        ctx.block([&] {
          JV v;
          if (!jv::document("{\"a\":[],\"p\":" + scale::value(kind, n) + ",\"q\":[[2],{}]}", v))
            abort();
          value(ctx, v, n <= 40);
        });
  });
}
