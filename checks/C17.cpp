// Members that capture raw JSON: for every value, spelling and partition into buffers they hold the
// source text (or the tokens) of their value, and their neighbours hold their own.
#include "types.h"
#include "chunks.h"
#include "docs.h"
#include "trees.h"
#include "scale.h"
#include "abyss.h"

template <class T>
struct Host
{
  int first = -1;
  T x = T();
  std::string mid = "-";
  T y = T();
  int last = -2;
  JS_OBJ(first, x, mid, y, last);
  template <class V>
  static void reflect(V &v)
  {
    v({"first"}, &Host::first);
    v({"x"}, &Host::x);
    v({"mid"}, &Host::mid);
    v({"y"}, &Host::y);
    v({"last"}, &Host::last);
  }
};

struct In
{
  std::string text;
  ref::Opt opt;
  JV doc;
  bool whole;
  In(const std::string &t, const ref::Opt &o = ref::Opt())
    : text(t)
    , opt(o)
  {
    whole = jv::first(text, doc, opt);
  }
};

template <class T>
static JS::Error parse(const In &in, Pieces &p, Feed feed, T &t)
{
  JS::ParseContext pc;
  set_flags(pc.tokenizer, in.opt);
  std::function<void(const char *)> rel = [&](const char *d) { p.on_release(d); };
  size_t next = 0;
  if (p.buf.size() > 1)
    pc.tokenizer.setReleaseCallback(rel);
  if (feed == UPFRONT)
    for (; next < p.buf.size(); next++)
      pc.tokenizer.addData(p.buf[next].get(), p.len[next]);
  else
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &tk) {
      if (next < p.buf.size())
      {
        tk.addData(p.buf[next].get(), p.len[next]);
        next++;
      }
    });
  JS::Error e = pc.parseTo(t);
  if (pc.error != e)
    return JS::Error::UserDefinedErrors;
  return e;
}

// `before` (if any) is parsed to the object first
template <class T>
std::string compare(const In *before, const In &in, const std::vector<size_t> &cuts, Feed feed, bool &accepted, uint64_t &state)
{
  T real = T(), model = T();
  std::unique_ptr<Pieces> old;
  Env env;
  if (before)
  {
    old.reset(new Pieces(before->text, {}));
    JS::Error e = parse(*before, *old, UPFRONT, real);
    env.src = before->text.data();
    bool want = before->whole && M<T>::read(before->doc, model, env);
    if (want != (e == JS::Error::NoError))
      return "before: error " + std::to_string(int(e));
    if (!want)
      return "";
  }
  Pieces p(in.text, cuts);
  JS::Error e = parse(in, p, feed, real);
  env.src = in.text.data();
  bool want = in.whole && M<T>::read(in.doc, model, env);
  accepted = want;
  state = mc::Hash().add(std::string(type_name<T>())).add(uint64_t(e)).get();
  if (want != (e == JS::Error::NoError))
    return std::string(want ? "should be accepted" : "should be an error") + ", got error " + std::to_string(int(e));
  if (!want)
    return "";
  std::string a = dump(real), b = dump(model);
  state = mc::Hash().add(std::string(type_name<T>())).add(a).get();
  if (a != b)
    return "holds " + a + "\nshould hold " + b;
  return "";
}
using Cmp = std::string (*)(const In *, const In &, const std::vector<size_t> &, Feed, bool &, uint64_t &);
struct Op
{
  const char *name;
  Cmp host, tuple, vec, map;
};
template <class T>
Op op()
{
  return {type_name<T>(), compare<Host<T>>, compare<std::tuple<T, int>>, compare<std::vector<T>>, nullptr};
}
template <class T>
Op opm()
{
  Op o = op<T>();
  o.map = compare<StrMap<T>>;
  return o;
}

static void one(mc::Ctx &ctx, const char *name, const char *place, Cmp c, const In *before, const In &in, const std::vector<size_t> &cuts, Feed feed)
{
  if (!c)
    return;
  ctx.exec(
    [&] {
      return std::string(name) + " " + place + " <- " + show_cuts(in.text, cuts) + (feed == CALLBACK ? " on demand" : "") + (before ? " after " + mc::show(before->text) : "") +
             (in.opt.words ? " words" : "") + (in.opt.newlines ? " newlines" : "") + (in.opt.commas ? " commas" : "") + (in.opt.comments ? " comments" : "");
    },
    [&] {
      bool accepted = false;
      uint64_t st = 0;
      std::string r = c(before, in, cuts, feed, accepted, st);
      ctx.state(st);
      ctx.steps(cuts.size() + 1);
      if (accepted)
        ctx.nontrivial();
      if (!r.empty())
        ctx.fail("capture", r);
    });
}

using Cuts = std::function<void(const std::vector<size_t> &)>;
static void cuts_upto(size_t n, size_t max, const Cuts &f)
{
  std::vector<size_t> c;
  std::function<void(size_t)> go = [&](size_t from) {
    f(c);
    if (c.size() == max)
      return;
    for (size_t i = from; i < n; i++)
    {
      c.push_back(i);
      go(i + 1);
      c.pop_back();
    }
  };
  go(1);
}
static void every_cut(size_t n, const Cuts &f)
{
  cuts_upto(n, n, f);
}
static void uniform_cuts(size_t n, size_t max, const Cuts &f)
{
  for (size_t k = 1; k <= max && k < n; k++)
  {
    std::vector<size_t> c;
    for (size_t i = k; i < n; i += k)
      c.push_back(i);
    f(c);
  }
}

// the ways one value is written, with the options that takes
static std::string relaxed(const JV &v, int &n)
{
  std::string o;
  static const char *cm[] = {"/*}]*/", " ", "//{\"\n", "/***/", "\n"};
  auto sep = [&] { return cm[size_t(n++) % 5]; };
  if (v.container())
  {
    o = v.kind == JV::Obj ? "{" : "[";
    o += sep();
    for (size_t i = 0; i < v.kids.size(); i++)
    {
      if (v.kind == JV::Obj)
        o += v.kids[i].name.empty() || n % 2 ? "\"" + v.kids[i].name + "\":" : v.kids[i].name + ":";
      o += relaxed(v.kids[i], n);
      o += sep();
      o += ",";
    }
    o += sep();
    return o + (v.kind == JV::Obj ? "}" : "]");
  }
  return v.kind == JV::Str ? '"' + v.text + '"' : v.text;
}

static std::string member(const std::string &x, const std::string &y, bool sp = false)
{
  return sp ? "{ \"first\" : 11 , \"x\" :\n" + x + "\n, \"mid\" : \"m\" , \"y\" : " + y + " , \"last\" :22 }" : "{\"first\":11,\"x\":" + x + ",\"mid\":\"m\",\"y\":" + y + ",\"last\":22}";
}

// values of any depth: only their text and the number of their tokens are known
static std::string held(const JS::JsonObject &x) { return x.data; }
static std::string held(const JS::JsonArray &x) { return x.data; }
static std::string held(const JS::JsonObjectOrArray &x) { return x.data; }
static std::string held(const JS::JsonObjectRef &x) { return std::string(x.ref.data, x.ref.size); }
static std::string held(const JS::JsonArrayRef &x) { return std::string(x.ref.data, x.ref.size); }
static std::string held(const JS::JsonObjectOrArrayRef &x) { return std::string(x.ref.data, x.ref.size); }
static std::string held(const JS::JsonTokens &x)
{
  return x.data.empty() ? "" : std::string(x.data.front().value.data, x.data.back().value.data + x.data.back().value.size);
}
template <class T>
static bool kind_fits(bool object)
{
  bool only_object = std::is_same<T, JS::JsonObject>::value || std::is_same<T, JS::JsonObjectRef>::value;
  bool only_array = std::is_same<T, JS::JsonArray>::value || std::is_same<T, JS::JsonArrayRef>::value;
  return object ? !only_array : !only_object;
}
template <class T>
static void deep(mc::Ctx &ctx, int pattern, size_t n, size_t cut)
{
  ctx.exec([&] { return std::string(type_name<T>()) + " <- " + abyss::what(pattern, n) + (cut ? " cut at " + std::to_string(cut) : ""); },
           [&] {
             std::string v = abyss::value(pattern, n), text = "{\"first\":11,\"x\":" + v + ",\"mid\":\"m\",\"y\":" + v + ",\"last\":22}";
             std::vector<char> a(text.begin(), text.begin() + long(cut)), b(text.begin() + long(cut), text.end());
             JS::ParseContext pc;
             if (cut)
               pc.tokenizer.addData(a.data(), a.size());
             pc.tokenizer.addData(b.data(), b.size());
             Host<T> h;
             JS::Error e = pc.parseTo(h);
             ctx.steps(2 * n);
             ctx.nontrivial();
             ctx.state(mc::Hash().add(std::string(type_name<T>())).add(uint64_t(n * 8 + size_t(pattern))));
             bool want = kind_fits<T>(v[0] == '{');
             if ((e == JS::Error::NoError) != want)
               return ctx.fail("outcome", "error " + std::to_string(int(e)));
             if (!want)
               return;
             if (held(h.x) != v || held(h.y) != v)
               return ctx.fail("capture", "holds " + std::to_string(held(h.x).size()) + " and " + std::to_string(held(h.y).size()) + " bytes instead of " + std::to_string(v.size()));
             if (h.first != 11 || h.mid != "m" || h.last != 22)
               return ctx.fail("neighbours", std::to_string(h.first) + " " + h.mid + " " + std::to_string(h.last));
           });
}
template <class T>
static void deep_all(mc::Ctx &ctx, bool cuts)
{
  for (size_t n : abyss::depths())
    for (int p = 0; p < abyss::PATTERNS; p++)
    {
      deep<T>(ctx, p, n, 0);
      if (cuts)
        for (size_t c : {size_t(16), n, n + 20, 2 * n + 10})
          deep<T>(ctx, p, n, c);
    }
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    // what owns its text can be read from any number of buffers
    const std::vector<Op> owning = {opm<JS::JsonObject>(), opm<JS::JsonArray>(), opm<JS::JsonObjectOrArray>(), opm<std::string>(), opm<std::optional<JS::JsonObject>>(), op<UPtr<JS::JsonArray>>(),
                                    opm<Vec<JS::JsonObjectOrArray>>(), opm<JS::NullableChecked<JS::JsonObjectOrArray>>(), opm<std::tuple<JS::JsonArray, JS::JsonObject>>(), opm<StrMap<JS::JsonObject>>()};
    const std::vector<Op> refs = {op<JS::JsonObjectRef>(), op<JS::JsonArrayRef>(), op<JS::JsonObjectOrArrayRef>(), opm<JS::JsonTokens>(), opm<std::vector<JS::Token>>(), opm<JS::Map>(), op<std::optional<JS::JsonObjectRef>>(), op<Vec<JS::JsonTokens>>()};
    std::vector<Op> any = owning;
    any.insert(any.end(), refs.begin(), refs.end());

    trees::Shape sh;
    sh.scalars = docs::vals({"1", "\"}\""});
    sh.names = {"a"};
    auto small = trees::all(sh, T ? 5 : 4);
    sh.scalars = docs::vals({"12", "\"]{\\\"\"", "true", "null"});
    sh.names = {"x", "last"};
    auto rich = trees::all(sh, T ? 4 : 3);
    std::vector<JV> some = docs::vals({"{}", "[]", "7", "\"s\"", "null", "[[]]", "{\"a\":[{}]}", "true"});

    // one buffer: every value in every place, over every earlier content
    auto places = [&](const JV &v, size_t turn) {
      std::string t = turn % 2 ? docs::spaced(v) : jv::show(v);
      for (auto &o : any)
      {
        for (auto &w : some)
        {
          std::string u = jv::show(w);
          In a(member(t, u, turn % 3 == 0)), b(member(u, t));
          one(ctx, o.name, "members", o.host, nullptr, a, {}, UPFRONT);
          one(ctx, o.name, "members", o.host, &a, b, {}, UPFRONT);
          one(ctx, o.name, "members", o.host, &b, a, {}, UPFRONT);
          In l("[" + t + "," + u + "]");
          one(ctx, o.name, "in vector", o.vec, nullptr, l, {}, UPFRONT);
          In m("{\"k\":" + u + ",\"l\" : " + t + "}");
          one(ctx, o.name, "in map", o.map, nullptr, m, {}, UPFRONT);
        }
        In p("[" + t + ",5]");
        one(ctx, o.name, "in tuple", o.tuple, nullptr, p, {}, UPFRONT);
        In bare("{\"nobody\":" + t + ",\"x\" :" + t + ",\"last\":3}");
        one(ctx, o.name, "members", o.host, nullptr, bare, {}, UPFRONT);
        In twice("{\"x\":" + t + ",\"last\":3,\"x\":{},\"y\":[]}");
        one(ctx, o.name, "members", o.host, nullptr, twice, {}, UPFRONT);
      }
    };
    size_t turn = 0;
    for (auto *f : {&small, &rich})
      for (auto &l : *f)
        for (auto &v : l)
        {
          turn++;
          ctx.block([&] { places(v, turn); });
        }
    // with the relaxed options
    for (auto *f : {&small, &rich})
      for (auto &l : *f)
        for (auto &v : l)
          ctx.block([&] {
            ref::Opt o;
            o.words = o.comments = o.commas = true;
            int n = int(turn++);
            std::string t = relaxed(v, n);
            for (int nl = 0; nl < 2; nl++)
            {
              o.newlines = nl;
              In a("{//{\nfirst:11,x:" + t + "/*\"*/,y:{},last:22}", o), b("{y:[1//\n],x:" + t + ",,last/**/:3,}", o), c("[" + t + ",7]", o);
              for (auto &p : any)
              {
                one(ctx, p.name, "members", p.host, nullptr, a, {}, UPFRONT);
                one(ctx, p.name, "members", p.host, &a, b, {}, UPFRONT);
                one(ctx, p.name, "in tuple", p.tuple, nullptr, c, {}, UPFRONT);
              }
              for (auto &p : owning)
              {
                if (&p - owning.data() > 3)
                  break;
                cuts_upto(a.text.size(), 1, [&](const std::vector<size_t> &cut) { one(ctx, p.name, "members", p.host, nullptr, a, cut, cut.size() && cut[0] % 2 ? CALLBACK : UPFRONT); });
                cuts_upto(c.text.size(), 2, [&](const std::vector<size_t> &cut) { one(ctx, p.name, "in tuple", p.tuple, nullptr, c, cut, UPFRONT); });
                uniform_cuts(a.text.size(), 5, [&](const std::vector<size_t> &cut) { one(ctx, p.name, "members", p.host, nullptr, a, cut, CALLBACK); });
              }
            }
          });
    // every partition of short texts
    for (auto &l : small)
      for (auto &v : l)
        for (int form = 0; form < 3; form++)
          ctx.block([&] {
            std::string t = form == 1 ? docs::spaced(v) : jv::show(v);
            In in(form == 2 ? "{\"k\":" + t + ",\"l\":[]}" : "[" + t + ",5]");
            for (auto &o : owning)
            {
              Cmp c = form == 2 ? o.map : o.tuple;
              for (Feed f : {UPFRONT, CALLBACK})
              {
                auto go = [&](const std::vector<size_t> &cut) { one(ctx, o.name, form == 2 ? "in map" : "in tuple", c, nullptr, in, cut, f); };
                if (in.text.size() <= (T ? 12 : 9))
                  every_cut(in.text.size(), go);
                else
                {
                  cuts_upto(in.text.size(), in.text.size() <= (T ? 30 : 16) ? 3 : 2, go);
                  uniform_cuts(in.text.size(), 4, go);
                }
              }
            }
          });
    // members and neighbours cut everywhere, over an earlier content
    for (auto *f : {&small, &rich})
      for (auto &l : *f)
        for (auto &v : l)
          ctx.block([&] {
            std::string t = jv::show(v);
            In a(member(t, v.kind == JV::Obj ? "{\"q\":1}" : "[2]")), b(member(v.kind == JV::Obj ? "{}" : "[]", t, true));
            for (auto &o : owning)
              for (Feed fd : {UPFRONT, CALLBACK})
              {
                cuts_upto(a.text.size(), 1, [&](const std::vector<size_t> &cut) {
                  one(ctx, o.name, "members", o.host, nullptr, a, cut, fd);
                  one(ctx, o.name, "members", o.host, &b, a, cut, fd);
                });
                uniform_cuts(a.text.size(), 12, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "members", o.host, &b, a, cut, fd); });
                uniform_cuts(b.text.size(), 12, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "members", o.host, &a, b, cut, fd); });
              }
          });
    // long lexemes and gaps inside the captured value
    for (size_t n = 0; n <= (T ? 70 : 40); n++)
      ctx.block([&] {
        std::string s(n, 'x'), g(n, ' ');
        if (n > 2)
          s[n / 2] = '}', s[n - 1] = '{';
        for (const std::string &t : {"{\"" + s + "\":\"" + s + "\"}", "[" + g + "1" + g + "]", "[\"" + s + "\",{" + g + "}]", "{\"a\":-" + std::string(n + 1, '7') + "}"})
        {
          In a("{\"x\":" + t + ",\"last\":3}"), c("[" + t + ",5]"), m("{\"" + s + "\":" + t + ",\"l\":" + t + "}");
          for (auto &o : owning)
          {
            if (&o - owning.data() > 3)
              break;
            for (Feed fd : {UPFRONT, CALLBACK})
            {
              cuts_upto(a.text.size(), 1, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "members", o.host, nullptr, a, cut, fd); });
              cuts_upto(m.text.size(), 1, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "in map", o.map, nullptr, m, cut, fd); });
              uniform_cuts(m.text.size(), 40, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "in map", o.map, nullptr, m, cut, fd); });
            }
            cuts_upto(c.text.size(), c.text.size() < 45 || T ? 2 : 1, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "in tuple", o.tuple, nullptr, c, cut, UPFRONT); });
          }
          for (auto &o : refs)
            one(ctx, o.name, "in tuple", o.tuple, nullptr, c, {}, UPFRONT);
        }
      });
    // deep ones
    for (size_t n = 1; n <= 600; n += n < 20 ? 1 : 29)
      ctx.block([&] {
        for (unsigned pat : {0u, 255u, 0x55u, 0x33u})
        {
          std::string t = jv::show(trees::nest(n, pat, docs::val("1")));
          In c("[" + t + ",5]");
          for (auto &o : any)
            one(ctx, o.name, "in tuple", o.tuple, nullptr, c, {}, UPFRONT);
          for (auto &o : owning)
            uniform_cuts(c.text.size(), 3, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "in tuple", o.tuple, nullptr, c, cut, CALLBACK); });
        }
      });
    // values in which one thing is large, names and gaps around them too, cut in two and into pieces of one size
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(std::min<size_t>(scale::most(kind, T), T ? 66000 : 5000)))
        ctx.block([&] {
          std::string t = scale::value(kind, n), g(n, ' '), nm(n, 'n');
          ref::Opt o = opt_of(scale::flags(kind));
          In c("[" + t + ",5]", o), m("{\"a\":1,\"" + nm + "\":" + g + t + g + ",\"l\":" + t + "}", o), h("{\"first\":11,\"nobody\":" + t + ",\"x\":" + g + t + ",\"mid\":\"m\",\"y\":" + t + ",\"last\":22}", o);
          for (auto &p : any)
          {
            one(ctx, p.name, "in tuple", p.tuple, nullptr, c, {}, UPFRONT);
            one(ctx, p.name, "in map", p.map, nullptr, m, {}, UPFRONT);
            one(ctx, p.name, "members", p.host, nullptr, h, {}, UPFRONT);
          }
          int k = 0;
          for (auto &p : owning)
          {
            if (&p - owning.data() > 3)
              break;
            for (size_t at : scale::places(c.text.size()))
              if (at > 0 && at < c.text.size())
                one(ctx, p.name, "in tuple", p.tuple, nullptr, c, {at}, Feed(k++ % 2));
            for (size_t at : scale::places(m.text.size()))
              if (at > 0 && at < m.text.size())
                one(ctx, p.name, "in map", p.map, nullptr, m, {at}, Feed(k++ % 2));
            for (auto &cuts : scale::uniform(h.text.size()))
              one(ctx, p.name, "members", p.host, nullptr, h, cuts, Feed(k++ % 2));
          }
        });
    deep_all<JS::JsonObject>(ctx, true);
    deep_all<JS::JsonArray>(ctx, true);
    deep_all<JS::JsonObjectOrArray>(ctx, true);
    deep_all<JS::JsonObjectRef>(ctx, false);
    deep_all<JS::JsonArrayRef>(ctx, false);
    deep_all<JS::JsonObjectOrArrayRef>(ctx, false);
    deep_all<JS::JsonTokens>(ctx, false);
    // any text at all where the value should be
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"a\"", "1", " "}, T ? 7 : 6, 2, [&](const std::string &s, int) {
      In c("[" + s + ",5]");
      for (auto &o : any)
        one(ctx, o.name, "in tuple", o.tuple, nullptr, c, {}, UPFRONT);
      return true;
    });
    mc::strings(ctx, {"{", "}", "[", "]", "\"a\":", "1", ","}, T ? 6 : 5, 2, [&](const std::string &s, int) {
      In c("[" + s + ",5]"), h("{\"first\":1,\"x\":" + s + ",\"mid\":\"\",\"y\":[],\"last\":2}");
      for (auto &o : owning)
      {
        if (&o - owning.data() > 3)
          break;
        cuts_upto(c.text.size(), 2, [&](const std::vector<size_t> &cut) { one(ctx, o.name, "in tuple", o.tuple, nullptr, c, cut, UPFRONT); });
        one(ctx, o.name, "members", o.host, nullptr, h, {}, UPFRONT);
      }
      return true;
    });
  });
}
