// Pairs of documents diffed, compared with a structural comparison of their trees.
#include "docs.h"
#include "js_util.h"
#include "trees.h"
#include "scale.h"
#include <json_struct/json_struct_diff.h>
#include <cmath>
#include <map>
#include <memory>
#include <functional>

// ---- the model ----
struct Flat
{
  std::vector<const JV *> node; // per token
  std::vector<bool> end;
  std::map<const JV *, size_t> at;
};
static void flatten(const JV &v, Flat &f)
{
  f.at[&v] = f.node.size();
  f.node.push_back(&v);
  f.end.push_back(false);
  if (!v.container())
    return;
  for (auto &k : v.kids)
    flatten(k, f);
  f.node.push_back(&v);
  f.end.push_back(true);
}
struct Report
{
  std::vector<JS::DiffType> marks;
  std::map<size_t, std::vector<size_t>> members, items; // tokens of the base missing at a token
};
static bool numbers_equal(const std::string &a, const std::string &b, const JS::DiffOptions &o)
{
  double x = strtod(a.c_str(), nullptr), y = strtod(b.c_str(), nullptr);
  if (x == y)
    return true;
  if (!(o.flags & JS::DiffFlags::FuzzyFloatComparison))
    return false;
  return std::fabs(x - y) <= o.fuzzyEpsilon;
}
struct Model
{
  const Flat &b, &d;
  const JS::DiffOptions &opt;
  Report r;
  Model(const Flat &b, const Flat &d, const JS::DiffOptions &o)
    : b(b)
    , d(d)
    , opt(o)
  {
    r.marks.assign(d.node.size(), JS::NoDiff);
  }
  static void range(const Flat &f, const JV &v, size_t &from, size_t &to)
  {
    from = f.at.at(&v);
    to = from + 1;
    while (v.container() && !(f.end[to - 1] && f.node[to - 1] == &v))
      to++;
  }
  void whole(const JV &v, JS::DiffType t)
  {
    size_t i, e;
    range(d, v, i, e);
    for (; i < e; i++)
      r.marks[i] = t;
  }
  void scalar(const JV &x, const JV &y)
  {
    bool eq = x.kind == JV::Num ? numbers_equal(x.text, y.text, opt) : x.text == y.text;
    if (!eq)
      r.marks[d.at.at(&y)] = JS::ValueDiff;
  }
  void missing(std::map<size_t, std::vector<size_t>> &to, const JV &y, const JV &x, JS::DiffType t)
  {
    size_t i, e, at = d.at.at(&y);
    range(b, x, i, e);
    for (; i < e; i++)
      to[at].push_back(i);
    r.marks[at] = t;
  }
  void value(const JV &x, const JV &y)
  {
    if (x.kind == JV::Obj)
    {
      for (auto &k : x.kids)
      {
        const JV *m = nullptr;
        for (auto &l : y.kids)
          if (l.name == k.name)
            m = &l;
        if (!m)
          missing(r.members, y, k, JS::MissingMembers);
        else if (m->kind == k.kind)
          value(k, *m);
        else
          whole(*m, JS::TypeDiff);
      }
      for (auto &l : y.kids)
        if (std::none_of(x.kids.begin(), x.kids.end(), [&](const JV &k) { return k.name == l.name; }))
          whole(l, JS::NewMember);
    }
    else if (x.kind == JV::Arr)
    {
      for (size_t i = 0; i < std::max(x.kids.size(), y.kids.size()); i++)
        if (i >= y.kids.size())
          missing(r.items, y, x.kids[i], JS::MissingArrayItems);
        else if (i >= x.kids.size())
          whole(y.kids[i], JS::NewArrayItem);
        else if (x.kids[i].kind == y.kids[i].kind)
          value(x.kids[i], y.kids[i]);
        else
          r.marks[d.at.at(&y.kids[i])] = JS::TypeDiff; // the place of the item
    }
    else
      scalar(x, y);
  }
  void root(const JV &x, const JV &y)
  {
    if (x.kind == y.kind)
      value(x, y);
    else
      whole(y, JS::RootItemDiff);
  }
};
// equal without regard to the order of properties
static bool equal(const JV &x, const JV &y, const JS::DiffOptions &o)
{
  if (x.kind != y.kind || x.kids.size() != y.kids.size())
    return false;
  if (x.kind == JV::Num)
    return numbers_equal(x.text, y.text, o);
  if (!x.container())
    return x.text == y.text;
  if (x.kind == JV::Arr)
  {
    for (size_t i = 0; i < x.kids.size(); i++)
      if (!equal(x.kids[i], y.kids[i], o))
        return false;
    return true;
  }
  for (auto &k : x.kids)
    if (std::none_of(y.kids.begin(), y.kids.end(), [&](const JV &l) { return l.name == k.name && equal(k, l, o); }))
      return false;
  return true;
}

struct Doc
{
  std::string text;
  JV v;
  Flat f;
  Doc(const JV &w, bool sp = false)
    : text(sp ? docs::spaced(w) : jv::show(w))
  {
    jv::first(text, v);
    flatten(v, f);
  }
  Doc(const Doc &) = delete;
};
static std::string tok_text(const JS::Token &t)
{
  return std::string(t.name.data, t.name.size) + ":" + std::string(t.value.data, t.value.size);
}
static std::string compare(const Doc &b, const Doc &d, const JS::DiffTokens &base, const JS::DiffTokens &got, const JS::DiffOptions &opt)
{
  Model m(b.f, d.f, opt);
  m.root(b.v, d.v);
  auto &g = got.diffs;
  if (got.error != JS::DiffError::NoError)
    return "error " + std::to_string(int(got.error));
  if (got.tokens.data.size() != m.r.marks.size() || g.size() != m.r.marks.size() || base.tokens.data.size() != b.f.node.size())
    return "the number of tokens is " + std::to_string(got.tokens.data.size()) + " instead of " + std::to_string(m.r.marks.size());
  size_t count = 0;
  for (size_t i = 0; i < g.size(); i++)
  {
    if (g[i] != m.r.marks[i])
      return "token " + std::to_string(i) + " (" + tok_text(got.tokens.data[i]) + ") is marked " + std::to_string(int(g[i])) + " instead of " + std::to_string(int(m.r.marks[i]));
    if (g[i] != JS::NoDiff && g[i] != JS::MissingMembers && g[i] != JS::MissingArrayItems)
      count++;
  }
  size_t lists = 0;
  for (int k = 0; k < 2; k++)
    for (auto &e : k ? m.r.items : m.r.members)
    {
      auto *l = k ? got.getMissingArrayItems(got.tokens.data[e.first]) : got.getMissingMembers(got.tokens.data[e.first]);
      if (!l)
        return "nothing is listed as missing at token " + std::to_string(e.first);
      if (l->size() != e.second.size())
        return std::to_string(l->size()) + " tokens are listed as missing at token " + std::to_string(e.first) + " instead of " + std::to_string(e.second.size());
      for (size_t i = 0; i < l->size(); i++)
        if (tok_text((*l)[i]) != tok_text(base.tokens.data[e.second[i]]) || (*l)[i].value_type != base.tokens.data[e.second[i]].value_type)
          return "missing token " + std::to_string(i) + " at token " + std::to_string(e.first) + " is " + tok_text((*l)[i]);
      lists++;
      count += l->size();
    }
  if (got.missingMembers.size() + got.missingArrayItems.size() != lists)
    return "more lists of missing tokens than there should be";
  if (equal(b.v, d.v, opt) != (got.diff_count == 0))
    return "the number of differences is " + std::to_string(got.diff_count);
  if (got.diff_count != count)
    return "the number of differences is " + std::to_string(got.diff_count) + " instead of " + std::to_string(count);
  for (auto t : base.diffs)
    if (t != JS::NoDiff)
      return "the base is marked";
  return "";
}

static JS::DiffOptions opts(int i)
{
  switch (i)
  {
  case 0:
    return JS::DiffOptions();
  case 1:
    return JS::DiffOptions(JS::DiffFlags::None, 1e-6);
  case 2:
    return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 0.5);
  case 3:
    return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 0);
  case 4:
    return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 1);
  case 5:
    return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 1e-6);
  case 6:
    return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 9007199254740992.0);
  default:
    return JS::DiffOptions(JS::DiffFlags::FuzzyFloatComparison, 1e300);
  }
}
static void pair(mc::Ctx &ctx, const Doc &b, const Doc &d, int o = 0)
{
  ctx.exec([&] { return "base=" + mc::show(b.text) + " diff=" + mc::show(d.text) + (o ? " options " + std::to_string(o) : ""); },
           [&] {
             JS::DiffOptions opt = opts(o);
             JS::DiffContext c(b.text, opt);
             if (c.error != JS::DiffError::NoError)
               return ctx.fail("error", "of the base: " + std::to_string(int(c.error)));
             size_t at = c.diff(d.text);
             if (at != 0 || c.diffs.size() != 1 || c.error != JS::DiffError::NoError)
               return ctx.fail("error", "of the diff: " + std::to_string(int(c.error)));
             ctx.steps(b.f.node.size() + d.f.node.size());
             mc::Hash h;
             for (auto t : c.diffs[0].diffs)
               h.add(uint64_t(t));
             ctx.state(h.add(d.text).add(uint64_t(c.diffs[0].diff_count)).get());
             if (c.diffs[0].diff_count)
               ctx.nontrivial();
             std::string r = compare(b, d, c.base, c.diffs[0], opt);
             if (!r.empty())
               ctx.fail("differences", r);
           });
}
// several documents, the base changed, options changed
static void triple(mc::Ctx &ctx, const Doc &b, const Doc &d, const Doc &e)
{
  ctx.exec([&] { return "base=" + mc::show(b.text) + " diffs=" + mc::show(d.text) + " and " + mc::show(e.text) + ", base changed"; },
           [&] {
             JS::DiffContext c(b.text);
             const Doc *base = &b;
             const Doc *list[] = {&d, &e};
             std::string r;
             int o = 0;
             auto check = [&](const char *when) {
               ctx.steps(2);
               for (size_t i = 0; i < 2 && r.empty(); i++)
               {
                 r = compare(*base, *list[i], c.base, c.diffs[i], opts(o));
                 if (!r.empty())
                   r = std::string(when) + ", diff " + std::to_string(i) + ": " + r;
               }
             };
             if (c.diff(d.text) != 0 || c.diff(e.text.c_str(), e.text.size()) != 1)
               return ctx.fail("error", "a document is not accepted");
             check("at first");
             c.changeBase(0);
             std::swap(base, list[0]);
             check("after the first change");
             o = 1;
             c.invalidate(opts(o));
             check("with other options");
             c.changeBase(1);
             std::swap(base, list[1]);
             check("after the second change");
             c.invalidate();
             check("computed again");
             o = 0;
             c.reset(e.text);
             base = &e;
             c.diff(b.text);
             c.diff(d.text);
             list[0] = &b;
             list[1] = &d;
             check("after a reset");
             ctx.nontrivial();
             if (!r.empty())
               ctx.fail("differences", r);
           });
}
// a text that is no complete document is an error, as base and as diff
static void bad(mc::Ctx &ctx, const std::string &text, const std::string &good, bool stopped = false)
{
  ref::Result r = ref::tokenize(text, ref::Opt());
  bool fine = !stopped && r.end == ref::End::NeedMore && r.balanced && !r.toks.empty();
  JV v;
  size_t i = 0;
  if (!stopped && r.end == ref::End::NeedMore && !r.toks.empty() && jv::build(r, i, v) && (i != r.toks.size() || !fine))
    return; // a document and the start of another
  ctx.exec([&] { return "text=" + mc::show(text); },
           [&] {
             std::vector<char> in(text.begin(), text.end());
             in.shrink_to_fit();
             JS::DiffContext c(in.data(), in.size());
             if ((c.error == JS::DiffError::NoError) != fine)
               return ctx.fail("error", "as base: " + std::to_string(int(c.error)));
             JS::DiffContext g(good);
             size_t at = g.diff(in.data(), in.size());
             if ((g.error == JS::DiffError::NoError) != fine || (at == size_t(-1)) == fine || g.diffs.size() != (fine ? 1 : 0))
               return ctx.fail("error", "as diff: " + std::to_string(int(g.error)) + " index " + std::to_string(at));
             if (fine)
             {
               JS::DiffContext s(in.data(), in.size());
               s.diff(in.data(), in.size());
               if (s.diffs.size() != 1 || s.diffs[0].diff_count)
                 return ctx.fail("differences", "a document differs from itself");
             }
             else
               ctx.nontrivial();
             // a document is accepted behind a bad one
             if (g.diff(good) != (fine ? 1u : 0u) || g.error != JS::DiffError::NoError || g.diffs.back().diff_count)
               return ctx.fail("error", "of the good document behind it: " + std::to_string(int(g.error)));
             ctx.steps(3);
             ctx.state(mc::Hash().add(text).add(uint64_t(fine)).get());
           });
}

// a context that has no base: everything is new; with a base it is as any other
static void baseless(mc::Ctx &ctx, const Doc &d, const Doc &e, int how)
{
  ctx.exec([&] { return std::string(how == 0 ? "no base" : how == 1 ? "base cleared" : "bad base") + " diffs=" + mc::show(d.text) + " and " + mc::show(e.text); },
           [&] {
             JS::DiffContext c;
             if (how == 1)
             {
               c.reset(e.text, opts(2));
               c.diff(d.text);
               c.clear();
               if (!c.diffs.empty() || c.base.tokens.data.size() || c.error != JS::DiffError::NoError)
                 return ctx.fail("clear", "something is left");
             }
             else if (how == 2)
             {
               c.reset(e.text.data(), e.text.size() - 1);
               if (c.error == JS::DiffError::NoError)
                 return ctx.fail("error", "the base is accepted");
             }
             const Doc *list[] = {&d, &e};
             for (size_t k = 0; k < 2; k++)
             {
               if (c.diff(list[k]->text) != k || c.error != JS::DiffError::NoError)
                 return ctx.fail("error", std::to_string(int(c.error)));
               const JS::DiffTokens &g = c.diffs[k];
               if (g.diffs.size() != list[k]->f.node.size() || g.diff_count != g.diffs.size())
                 return ctx.fail("differences", std::to_string(g.diff_count) + " differences");
               for (auto m : g.diffs)
                 if (m != JS::NewMember && m != JS::NewArrayItem)
                   return ctx.fail("differences", "a token is marked " + std::to_string(int(m)));
             }
             ctx.steps(4);
             ctx.nontrivial();
             // the first becomes the base, and what there was instead of one a document without tokens
             c.changeBase(0);
             ctx.state(mc::Hash().add(d.text).add(e.text).add(uint64_t(c.diffs[1].diff_count)).get());
             if (c.diffs[0].error == JS::DiffError::NoError && c.diffs[0].diff_count == 0)
               return ctx.fail("differences", "nothing is no different from a document");
             std::string r = compare(d, e, c.base, c.diffs[1], opts(0));
             if (!r.empty())
               return ctx.fail("differences", r);
             c.reset(e.text);
             if (c.diff(d.text) != 0)
               return ctx.fail("error", "after a reset");
             r = compare(e, d, c.base, c.diffs[0], opts(0));
             if (!r.empty())
               ctx.fail("differences", r);
           });
}

static std::vector<std::unique_ptr<Doc>> docs_of(const trees::Shape &sh, size_t max, bool sp = false)
{
  std::vector<std::unique_ptr<Doc>> r;
  auto by = trees::all(sh, max);
  for (auto &l : by)
    for (auto &v : l)
      if (v.container())
        r.emplace_back(new Doc(v, sp));
  return r;
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    trees::Shape sh;
    sh.distinct = true;
    // every pair up to a size
    sh.scalars = docs::vals({"1", "\"s\""});
    sh.names = {"a", "b"};
    {
      auto l = docs_of(sh, T ? 5 : 4);
      for (auto &b : l)
        ctx.block([&] {
          for (auto &d : l)
            pair(ctx, *b, *d);
        });
    }
    // every pair of small documents over more values
    sh.scalars = docs::vals({"1", "1.0", "2", "1.0000001", "1.4", "\"s\"", "\"t\"", "\"\"", "\"1\"", "true", "false", "null", "-0", "0", "1e400", "-1e400", "1e5", "100000"});
    sh.names = {"a", "ab"};
    {
      auto l = docs_of(sh, 2);
      for (auto &b : l)
        ctx.block([&] {
          for (auto &d : l)
            for (int o = 0; o < 3; o++)
              pair(ctx, *b, *d, o);
        });
    }
    // numbers at, inside and outside the tolerated distance
    {
      const std::vector<std::string> nums = {
        "0", "-0", "0.0", "0.5", "-0.5", "0.50000000000000011", "0.49999999999999994", "1", "1.0", "1.5", "-1", "-1.5", "2", "2.5", "1.4999999999999998",
        "1.5000000000000002", "1e-6", "-1e-6", "2e-6", "1.000000000000001e-6", "9.99999999999999e-7", "1.000001", "0.999999", "3", "9007199254740991", "9007199254740992",
        "9007199254740993", "9007199254740994", "18014398509481984", "1e300", "2e300", "-1e300", "1.5e300", "1e308", "-1e308", "1.7976931348623157e308", "5e-324", "1e400", "-1e400", "10", "1e1", "100e-1",
        "0.1", "0.10", "1E1", "12345678901234567890", "12345678901234567891", "0.30000000000000004", "0.3"};
      for (auto &x : nums)
        ctx.block([&] {
          for (auto &y : nums)
            for (int o = 0; o < 8; o++)
            {
              Doc b(docs::val("[" + x + "]")), d(docs::val("[" + y + "]"));
              pair(ctx, b, d, o);
              Doc bo(docs::val("{\"a\":" + x + "}")), dn(docs::val("{\"a\":" + y + "}"));
              pair(ctx, bo, dn, o);
            }
        });
    }
    sh.scalars = docs::vals({"1", "\"s\"", "true", "null"});
    sh.names = {"a", "b", "c"};
    {
      auto l = docs_of(sh, 3), s = docs_of(sh, 3, true);
      for (auto &b : l)
        ctx.block([&] {
          for (auto &d : s)
            pair(ctx, *b, *d);
        });
    }
    // larger documents and everything one or two changes away from them
    const std::vector<std::string> big = {
      "{\"a\":1,\"b\":{\"c\":[1,2,{\"d\":\"x\"}],\"e\":null},\"f\":[]}", "[{\"k\":1,\"l\":[[],[1]]},[\"x\",\"x\",\"x\"],{},true]", "{\"a\":{\"a\":{\"a\":{\"a\":1}}}}", "[[[[1,2],[3]],[]],[4,{\"m\":5}]]",
      "{\"p\":[{\"i\":1},{\"i\":2},{\"i\":3}],\"q\":{\"p\":[{\"i\":1}]}}", "[1,2,3,4,5,6]", "{\"a\":true,\"b\":false,\"c\":null,\"d\":\"\",\"e\":0.25}"};
    auto unique_names = [](const JV &v) {
      std::function<bool(const JV &)> ok = [&](const JV &w) {
        if (w.kind == JV::Obj)
          for (size_t i = 0; i < w.kids.size(); i++)
            for (size_t j = 0; j < i; j++)
              if (w.kids[i].name == w.kids[j].name)
                return false;
        for (auto &k : w.kids)
          if (!ok(k))
            return false;
        return true;
      };
      return v.container() && ok(v);
    };
    const auto repl = docs::vals({"7", "\"r\"", "[]", "{}", "[{\"n\":[1]},2]", "{\"x\":{\"y\":1}}"});
    for (auto &t : big)
    {
      JV v;
      jv::first(t, v);
      std::vector<JV> near{v};
      docs::changes(v, repl, [&](const JV &w) {
        if (unique_names(w))
          near.push_back(w);
      });
      for (auto &w : near)
        ctx.block([&] {
          Doc b(v), d(w, true);
          pair(ctx, b, d);
          pair(ctx, d, b);
          Doc b2(near[near.size() / 2]);
          triple(ctx, b, d, b2);
          triple(ctx, d, b2, b);
          for (int how = 0; how < 3; how++)
          {
            baseless(ctx, b, d, how);
            baseless(ctx, d, b2, how);
          }
          if (T || &w - near.data() < 40)
            docs::changes(w, docs::vals({"7", "[{\"n\":1}]"}), [&](const JV &x) {
              if (!unique_names(x))
                return;
              Doc e(x);
              pair(ctx, b, e);
              pair(ctx, e, d);
            });
        });
    }
    // deep and wide
    for (size_t n = 1; n <= 60; n++)
      ctx.block([&] {
        for (unsigned pat : {0u, 255u, 0x55u})
        {
          Doc b(trees::nest(n, pat, docs::val("1"))), d(trees::nest(n, pat, docs::val("2"))), e(trees::nest(n + 1, pat, docs::val("1")));
          pair(ctx, b, d);
          pair(ctx, b, e);
          pair(ctx, e, b);
        }
        JV a = trees::leaf(JV::Arr), o = trees::leaf(JV::Obj);
        for (size_t i = 0; i < n; i++)
        {
          JV k = i % 3 ? docs::val("5") : docs::val("[1,{\"z\":2}]");
          a.kids.push_back(k);
          k.name = "m" + std::to_string(i);
          o.kids.push_back(k);
        }
        JV ra = a, ro = o;
        std::reverse(ra.kids.begin(), ra.kids.end());
        std::reverse(ro.kids.begin(), ro.kids.end());
        Doc A(a), O(o), RA(ra), RO(ro);
        pair(ctx, A, RA);
        pair(ctx, O, RO);
        ra.kids.pop_back();
        ro.kids.erase(ro.kids.begin());
        Doc SA(ra), SO(ro);
        pair(ctx, A, SA);
        pair(ctx, O, SO);
        pair(ctx, SA, A);
        pair(ctx, SO, O);
        pair(ctx, A, O);
      });
    // any text
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", " "}, T ? 8 : 7, 2, [&](const std::string &s, int) {
      bad(ctx, s, "{\"a\":[1]}");
      return true;
    });
    for (auto &t : big)
      for (size_t n = 0; n <= t.size(); n++)
        ctx.block([&] {
          bad(ctx, t.substr(0, n), "[1]");
          for (char c : std::string("{}[],:\"\\x1 \x01"))
          {
            std::string s = t;
            s.insert(n, 1, c);
            bad(ctx, s, "[]");
            if (n < t.size())
            {
              s = t;
              s[n] = c;
              bad(ctx, s, "{}");
            }
          }
        });
    // documents in which one thing is large, with a change at the front, in the middle, at the end, and none
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t n : scale::ladder(std::min<size_t>(scale::most(kind, T), T ? 2050 : kind == scale::NAME_ESCAPED || kind < scale::ARRAY_NUMBERS ? 5000 : 520)))
        ctx.block([&] {
          JV v;
          if (!jv::document("{\"a\":1,\"p\":" + scale::value(kind, n) + ",\"q\":[2]}", v))
            abort();
          Doc b(v);
          pair(ctx, b, b);
          if (n > 300 && kind >= scale::DEEP_ARRAYS && kind <= scale::DEEP_MIXED)
            return;
          JV w = v;
          w.kids[2] = docs::val("[3,{}]");
          w.kids[2].name = "q";
          Doc end(w);
          pair(ctx, b, end);
          w = v;
          w.kids[0].text = "9";
          w.kids.push_back(docs::val("[[]]"));
          w.kids.back().name = "r";
          Doc front(w);
          pair(ctx, b, front);
          pair(ctx, front, b);
          JV *in = &(w = v).kids[1];
          while (in->container() && !in->kids.empty())
            in = &in->kids[in->kids.size() / 2];
          std::string name = in->name;
          *in = docs::val(in->kind == JV::Num ? "\"changed\"" : "777");
          in->name = name;
          Doc middle(w);
          pair(ctx, b, middle);
          pair(ctx, middle, end);
          if (n < 40)
          {
            triple(ctx, b, middle, front);
            for (int how = 0; how < 3; how++)
              baseless(ctx, middle, b, how);
          }
          // nothing in its place, and everything different
          w = v;
          w.kids[1].kids.clear();
          Doc none(w);
          pair(ctx, b, none);
          pair(ctx, none, b);
          if (n <= 5000 && kind >= scale::ARRAY_NUMBERS && kind < scale::NAME)
          {
            w = v;
            for (auto &k : w.kids[1].kids)
            {
              std::string name = k.name;
              k = docs::val("[\"changed\"]");
              k.name = name;
            }
            Doc all(w);
            pair(ctx, b, all);
          }
          // one more, one less
          JV u;
          if (jv::document("{\"a\":1,\"p\":" + scale::value(kind, n + 1) + ",\"q\":[2]}", u))
          {
            Doc more(u);
            pair(ctx, b, more);
            pair(ctx, more, b);
          }
        });
    // arrays of tens of thousands
    for (size_t n : {size_t(65534), size_t(65535), size_t(65536), size_t(65537)})
        ctx.block([&] {
          JV v;
          if (!jv::document("{\"a\":1,\"p\":" + scale::value(scale::ARRAY_NUMBERS, n) + ",\"q\":[2]}", v))
            abort();
          Doc b(v);
          JV w = v;
          w.kids[1].kids.back() = docs::val("\"changed\"");
          w.kids[1].kids[1] = docs::val("[[]]");
          w.kids[2] = docs::val("[3,{}]");
          w.kids[2].name = "q";
          Doc other(w);
          pair(ctx, b, other);
          w = v;
          w.kids[1].kids.pop_back();
          Doc fewer(w);
          pair(ctx, b, fewer);
          pair(ctx, fewer, b);
          w.kids[1].kids.clear();
          Doc none(w);
          pair(ctx, b, none);
          pair(ctx, none, b);
        });
    // stopped at every depth
    for (size_t d = 1; d <= 65537; d += d < 600 ? 1 : d < 65535 ? 65535 - d : 1)
      for (const char *open : {"[", "{\"a\":"})
      {
        std::string t;
        for (size_t i = 0; i < d; i++)
          t += open;
        // (too deep for the model to follow)
        bad(ctx, t, "[1]", true);
        bad(ctx, t + "1", "{\"a\":1}", true);
      }
  });
}
