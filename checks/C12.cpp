// Objects with every sequence of properties, bound to structs with aliases and super classes.
#include "docs.h"
#include "types.h"
#include "scale.h"
#include "abyss.h"

#ifndef PART
#define PART 0
#endif

struct Names // names that share beginnings, ends and lengths; an alias that is close to a name
{
  int a = -1;
  int ab = -2;
  int abc = -3;
  std::string abd = "d";
  std::optional<int> b;
  int under_score = -6;
  JS_OBJECT(JS_MEMBER(a), JS_MEMBER(ab), JS_MEMBER_ALIASES(abc, "abcd", "A"), JS_MEMBER_WITH_NAME(abd, "abx"), JS_MEMBER_ALIASES(b, "bb"),
            JS_MEMBER_WITH_NAME_AND_ALIASES(under_score, "", "_"));
  template <class V>
  static void reflect(V &v)
  {
    v({"a"}, &Names::a);
    v({"ab"}, &Names::ab);
    v({"abc", "abcd", "A"}, &Names::abc);
    v({"abx"}, &Names::abd);
    v({"b", "bb"}, &Names::b);
    v({"", "_"}, &Names::under_score);
  }
};
struct Swap // an alias of one member is the name of another: names come first
{
  int one = -1;
  int two = -2;
  int three = -3;
  JS_OBJECT(JS_MEMBER_ALIASES(one, "two", "x"), JS_MEMBER_ALIASES(two, "three", "y"), JS_MEMBER_ALIASES(three, "one", "z"));
  template <class V>
  static void reflect(V &v)
  {
    v({"one", "two", "x"}, &Swap::one);
    v({"two", "three", "y"}, &Swap::two);
    v({"three", "one", "z"}, &Swap::three);
  }
};
struct A0
{
  int a0 = -10;
  std::optional<int> a0o;
  JS_OBJ(a0, a0o);
};
struct A1 : A0
{
  int a1 = -11;
  JS_OBJ_SUPER(JS_SUPER(A0), a1);
};
struct B0
{
  std::string b0 = "b0";
  JS_OBJECT(JS_MEMBER_ALIASES(b0, "b0alias"));
};
struct B00
{
  bool b00 = true;
  int b01 = -20;
  JS_OBJ(b00, b01);
};
struct B1 : B0, B00
{
  int b1 = -21;
  std::vector<int> b2 = {-22};
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(B0), JS_SUPER_CLASS(B00)), JS_MEMBER(b1), JS_MEMBER(b2));
};
struct Tall : A1, B1 // super classes of super classes
{
  int own = -30;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(A1), JS_SUPER_CLASS(B1)), JS_MEMBER(own));
  template <class V>
  static void reflect(V &v)
  {
    v({"own"}, &Tall::own);
    v({"a1"}, &A1::a1, "A1");
    v({"a0"}, &A0::a0, "A0");
    v({"a0o"}, &A0::a0o, "A0");
    v({"b1"}, &B1::b1, "B1");
    v({"b2"}, &B1::b2, "B1");
    v({"b0", "b0alias"}, &B0::b0, "B0");
    v({"b00"}, &B00::b00, "B00");
    v({"b01"}, &B00::b01, "B00");
  }
};
struct Deep // structs in structs, in sequences and in maps
{
  Q q;
  std::vector<P> ps;
  std::map<std::string, P> pm;
  std::optional<P> po;
  JS_OBJ(q, ps, pm, po);
  template <class V>
  static void reflect(V &v)
  {
    v({"q"}, &Deep::q);
    v({"ps"}, &Deep::ps);
    v({"pm"}, &Deep::pm);
    v({"po"}, &Deep::po);
  }
};
// more members than fit in one word of any bookkeeping
struct Wide
{
#define W8(p) int p##0 = -1, p##1 = -1, p##2 = -1, p##3 = -1, p##4 = -1, p##5 = -1, p##6 = -1, p##7 = -1;
  W8(a) W8(b) W8(c) W8(d)
  JS_OBJ(a0, a1, a2, a3, a4, a5, a6, a7, b0, b1, b2, b3, b4, b5, b6, b7, c0, c1, c2, c3, c4, c5, c6, c7, d0, d1, d2, d3, d4, d5, d6, d7);
  template <class V>
  static void reflect(V &v)
  {
#define R8(p) v({#p "0"}, &Wide::p##0), v({#p "1"}, &Wide::p##1), v({#p "2"}, &Wide::p##2), v({#p "3"}, &Wide::p##3), v({#p "4"}, &Wide::p##4), v({#p "5"}, &Wide::p##5), v({#p "6"}, &Wide::p##6), v({#p "7"}, &Wide::p##7);
    R8(a) R8(b) R8(c) R8(d)
  }
};
#if PART == 3
// long names that differ in their last character or in their length
#define X1 "n"
#define X2 X1 X1
#define X4 X2 X2
#define X8 X4 X4
#define X16 X8 X8
#define X32 X16 X16
#define X64 X32 X32
#define X128 X64 X64
#define X256 X128 X128
struct Long
{
  int a15 = -1, b15 = -2;
  int a16 = -1, b16 = -2;
  int a17 = -1, b17 = -2;
  int a31 = -1, b31 = -2;
  int a32 = -1, b32 = -2;
  int a33 = -1, b33 = -2;
  int a63 = -1, b63 = -2;
  int a64 = -1, b64 = -2;
  int a65 = -1, b65 = -2;
  int a127 = -1, b127 = -2;
  int a128 = -1, b128 = -2;
  int a129 = -1, b129 = -2;
  int a255 = -1, b255 = -2;
  int a256 = -1, b256 = -2;
  int a257 = -1, b257 = -2;
  JS_OBJECT(JS_MEMBER_WITH_NAME(a15, X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b15, X8 X4 X2 "b", "alias" X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME(a16, X16),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b16, X8 X4 X2 X1 "b", "alias" X16),
            JS_MEMBER_WITH_NAME(a17, X16 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b17, X16 "b", "alias" X16 X1),
            JS_MEMBER_WITH_NAME(a31, X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b31, X16 X8 X4 X2 "b", "alias" X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME(a32, X32),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b32, X16 X8 X4 X2 X1 "b", "alias" X32),
            JS_MEMBER_WITH_NAME(a33, X32 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b33, X32 "b", "alias" X32 X1),
            JS_MEMBER_WITH_NAME(a63, X32 X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b63, X32 X16 X8 X4 X2 "b", "alias" X32 X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME(a64, X64),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b64, X32 X16 X8 X4 X2 X1 "b", "alias" X64),
            JS_MEMBER_WITH_NAME(a65, X64 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b65, X64 "b", "alias" X64 X1),
            JS_MEMBER_WITH_NAME(a127, X64 X32 X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b127, X64 X32 X16 X8 X4 X2 "b", "alias" X64 X32 X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME(a128, X128),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b128, X64 X32 X16 X8 X4 X2 X1 "b", "alias" X128),
            JS_MEMBER_WITH_NAME(a129, X128 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b129, X128 "b", "alias" X128 X1),
            JS_MEMBER_WITH_NAME(a255, X128 X64 X32 X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b255, X128 X64 X32 X16 X8 X4 X2 "b", "alias" X128 X64 X32 X16 X8 X4 X2 X1),
            JS_MEMBER_WITH_NAME(a256, X256),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b256, X128 X64 X32 X16 X8 X4 X2 X1 "b", "alias" X256),
            JS_MEMBER_WITH_NAME(a257, X256 X1),
            JS_MEMBER_WITH_NAME_AND_ALIASES(b257, X256 "b", "alias" X256 X1));
  template <class V>
  static void reflect(V &v)
  {
    v({X8 X4 X2 X1}, &Long::a15);
    v({X8 X4 X2 "b", "alias" X8 X4 X2 X1}, &Long::b15);
    v({X16}, &Long::a16);
    v({X8 X4 X2 X1 "b", "alias" X16}, &Long::b16);
    v({X16 X1}, &Long::a17);
    v({X16 "b", "alias" X16 X1}, &Long::b17);
    v({X16 X8 X4 X2 X1}, &Long::a31);
    v({X16 X8 X4 X2 "b", "alias" X16 X8 X4 X2 X1}, &Long::b31);
    v({X32}, &Long::a32);
    v({X16 X8 X4 X2 X1 "b", "alias" X32}, &Long::b32);
    v({X32 X1}, &Long::a33);
    v({X32 "b", "alias" X32 X1}, &Long::b33);
    v({X32 X16 X8 X4 X2 X1}, &Long::a63);
    v({X32 X16 X8 X4 X2 "b", "alias" X32 X16 X8 X4 X2 X1}, &Long::b63);
    v({X64}, &Long::a64);
    v({X32 X16 X8 X4 X2 X1 "b", "alias" X64}, &Long::b64);
    v({X64 X1}, &Long::a65);
    v({X64 "b", "alias" X64 X1}, &Long::b65);
    v({X64 X32 X16 X8 X4 X2 X1}, &Long::a127);
    v({X64 X32 X16 X8 X4 X2 "b", "alias" X64 X32 X16 X8 X4 X2 X1}, &Long::b127);
    v({X128}, &Long::a128);
    v({X64 X32 X16 X8 X4 X2 X1 "b", "alias" X128}, &Long::b128);
    v({X128 X1}, &Long::a129);
    v({X128 "b", "alias" X128 X1}, &Long::b129);
    v({X128 X64 X32 X16 X8 X4 X2 X1}, &Long::a255);
    v({X128 X64 X32 X16 X8 X4 X2 "b", "alias" X128 X64 X32 X16 X8 X4 X2 X1}, &Long::b255);
    v({X256}, &Long::a256);
    v({X128 X64 X32 X16 X8 X4 X2 X1 "b", "alias" X256}, &Long::b256);
    v({X256 X1}, &Long::a257);
    v({X256 "b", "alias" X256 X1}, &Long::b257);
  }
};
// three super classes with super classes of their own, one of them wide
struct T0
{
  int t0 = -1, t1 = -2, t2 = -3;
  JS_OBJ(t0, t1, t2);
};
struct U0
{
  int u0 = -4;
  JS_OBJ(u0);
};
struct U1
{
  int u1 = -5, u2 = -6;
  JS_OBJ(u1, u2);
};
struct U2
{
  std::string u3 = "u3";
  JS_OBJ(u3);
};
struct U : U0, U1, U2
{
  int u = -7;
  std::optional<int> uo;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(U0), JS_SUPER_CLASS(U1), JS_SUPER_CLASS(U2)), JS_MEMBER(u), JS_MEMBER_ALIASES(uo, "u-alias"));
};
struct V0 : Wide
{
  int v0 = -8;
  JS_OBJ_SUPER(JS_SUPER(Wide), v0);
};
struct V1 : V0
{
  int v1 = -9;
  JS_OBJ_SUPER(JS_SUPER(V0), v1);
};
struct Family : T0, U, V1
{
  int f0 = -10, f1 = -11;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(T0), JS_SUPER_CLASS(U), JS_SUPER_CLASS(V1)), JS_MEMBER(f0), JS_MEMBER_ALIASES(f1, "t3"));
  template <class V>
  static void reflect(V &v)
  {
    v({"f0"}, &Family::f0);
    v({"f1", "t3"}, &Family::f1);
    v({"t0"}, &T0::t0, "T0");
    v({"t1"}, &T0::t1, "T0");
    v({"t2"}, &T0::t2, "T0");
    v({"u"}, &U::u, "U");
    v({"uo", "u-alias"}, &U::uo, "U");
    v({"u0"}, &U0::u0, "U0");
    v({"u1"}, &U1::u1, "U1");
    v({"u2"}, &U1::u2, "U1");
    v({"u3"}, &U2::u3, "U2");
    v({"v1"}, &V1::v1, "V1");
    v({"v0"}, &V0::v0, "V0");
#define F8(p) v({#p "0"}, &Wide::p##0, "Wide"), v({#p "1"}, &Wide::p##1, "Wide"), v({#p "2"}, &Wide::p##2, "Wide"), v({#p "3"}, &Wide::p##3, "Wide"), v({#p "4"}, &Wide::p##4, "Wide"), v({#p "5"}, &Wide::p##5, "Wide"), v({#p "6"}, &Wide::p##6, "Wide"), v({#p "7"}, &Wide::p##7, "Wide");
    F8(a) F8(b) F8(c) F8(d)
  }
};
#endif

static JV trees_leaf_obj()
{
  JV v;
  v.kind = JV::Obj;
  return v;
}
static std::string sorted(std::vector<std::string> v)
{
  std::sort(v.begin(), v.end());
  std::string o;
  for (auto &s : v)
    o += "<" + s + ">";
  return o;
}

// opt: bit 0 refuse unknown properties, bit 1 refuse unassigned members, bit 2 do not track
template <class T>
static std::string bind(const std::string &text, const JV &doc, int opt, size_t cut, bool filled, uint64_t *state)
{
  T real = filled ? M<T>::make(M<T>::count() / 2 + 1) : T(), model = filled ? M<T>::make(M<T>::count() / 2 + 1) : T();
  JS::ParseContext pc;
  pc.allow_missing_members = !(opt & 1);
  pc.allow_unasigned_required_members = !(opt & 2);
  pc.track_member_assignement_state = !(opt & 4);
  std::vector<char> one(text.begin(), text.begin() + long(std::min(cut, text.size()))), two(text.begin() + long(std::min(cut, text.size())), text.end());
  one.shrink_to_fit();
  two.shrink_to_fit();
  pc.tokenizer.addData(one.data(), one.size());
  if (!two.empty())
    pc.tokenizer.addData(two.data(), two.size());
  JS::Error err = pc.parseTo(real);
  Env env;
  env.allow_missing = !(opt & 1);
  env.allow_unassigned = !(opt & 2);
  env.track = !(opt & 4);
  env.src = text.data();
  bool want = M<T>::read(doc, model, env), ok = err == JS::Error::NoError;
  std::string got = dump(real);
  *state = mc::Hash().add(got).add(uint64_t(err)).add(std::string(type_name<T>())).get();
  if (want != ok)
    return std::string(want ? "should be accepted" : "should be an error") + ", got error " + std::to_string(int(err));
  if (ok && got != dump(model))
    return "holds " + got + "\nshould hold " + dump(model);
  if (ok || err == JS::Error::MissingPropertyMember || err == JS::Error::UnknownPropertyMember || err == JS::Error::UnassignedRequiredMember)
  {
    if (sorted(pc.missing_members) != sorted(env.missing))
      return "lists " + sorted(pc.missing_members) + " as without member, should list " + sorted(env.missing);
    if (sorted(pc.unassigned_required_members) != sorted(env.unassigned))
      return "lists " + sorted(pc.unassigned_required_members) + " as unassigned, should list " + sorted(env.unassigned);
  }
  return "";
}

using Bind = std::string (*)(const std::string &, const JV &, int, size_t, bool, uint64_t *);
static void one(mc::Ctx &ctx, const char *type, Bind f, const std::string &text, const JV &doc, int opt, size_t cut, bool filled)
{
  ctx.exec([&] { return std::string(type) + " <- " + mc::show(text) + " options " + std::to_string(opt) + (filled ? " filled" : "") + (cut < text.size() ? " cut " + std::to_string(cut) : ""); },
           [&] {
             uint64_t st = 0;
             std::string r = f(text, doc, opt, cut, filled, &st);
             ctx.steps(1 + doc.kids.size());
             ctx.state(st);
             if (doc.kids.size() > 1)
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("binding", r);
           });
}
static void doc_of(mc::Ctx &ctx, const char *type, Bind f, const JV &doc, int cuts)
{
  std::string text = jv::show(doc), sp = docs::spaced(doc);
  JV spv;
  jv::first(text, spv);
  for (int opt = 0; opt < 8; opt++)
  {
    one(ctx, type, f, text, spv, opt, text.size(), false);
    if (opt == 0 || opt == 3)
      one(ctx, type, f, text, spv, opt, text.size(), true);
  }
  JV sv;
  jv::first(sp, sv);
  one(ctx, type, f, sp, sv, 0, sp.size(), false);
  if (cuts)
    for (size_t c = 1; c < text.size(); c++)
    {
      one(ctx, type, f, text, spv, 0, c, false);
      one(ctx, type, f, text, spv, 3, c, false);
    }
}
struct Alpha
{
  std::vector<JV> props;
  void add(const char *name, const char *value)
  {
    JV v = docs::val(value);
    v.name = name;
    props.push_back(v);
  }
};
static void sequences(mc::Ctx &ctx, const char *type, Bind f, const Alpha &a, size_t max, size_t cut_max)
{
  std::function<void(JV &)> go = [&](JV &d) {
    doc_of(ctx, type, f, d, d.kids.size() <= cut_max);
    if (d.kids.size() == max)
      return;
    for (auto &p : a.props)
    {
      d.kids.push_back(p);
      if (d.kids.size() == 2)
        ctx.block([&] { go(d); });
      else
        go(d);
      d.kids.pop_back();
    }
  };
  JV d = trees_leaf_obj();
  go(d);
}

// properties without a member, of any depth
static void deep(mc::Ctx &ctx, int pattern, size_t n, int opt, size_t cut)
{
  ctx.exec([&] { return "an unknown property of " + abyss::what(pattern, n) + " options " + std::to_string(opt) + (cut ? " cut at " + std::to_string(cut) : ""); },
           [&] {
             std::string v = abyss::value(pattern, n), text = "{\"nobody\":" + v + ",\"p\":5,\"none\":" + v + ",\"q\":\"x\"}";
             std::vector<char> a(text.begin(), text.begin() + long(cut)), b(text.begin() + long(cut), text.end());
             JS::ParseContext pc;
             pc.allow_missing_members = !(opt & 1);
             pc.allow_unasigned_required_members = !(opt & 2);
             if (cut)
               pc.tokenizer.addData(a.data(), a.size());
             pc.tokenizer.addData(b.data(), b.size());
             P h;
             JS::Error e = pc.parseTo(h);
             ctx.steps(2 * n);
             ctx.nontrivial();
             ctx.state(mc::Hash().add(uint64_t(n * 32 + size_t(pattern) * 4 + size_t(opt))));
             if (e != (opt & 1 ? JS::Error::MissingPropertyMember : JS::Error::NoError))
               return ctx.fail("outcome", "error " + std::to_string(int(e)));
             if (opt & 1)
               return;
             if (h.p != 5 || h.q != "x" || pc.missing_members != std::vector<std::string>({"nobody", "none"}) || !pc.unassigned_required_members.empty())
               return ctx.fail("members", std::to_string(h.p) + " " + h.q + ", " + std::to_string(pc.missing_members.size()) + " properties without a member");
           });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    size_t n = ctx.thorough ? 6 : 5;
    (void)n;
#if PART == 0
    {
      Alpha a;
      for (const char *k : {"a", "ab", "abc", "abcd", "A", "b", "bb", "", "_"})
        a.add(k, "1");
      a.add("abx", "\"t\"");
      a.add("abd", "2");
      a.add("aB", "[1,{\"a\":2}]");
      a.add("abcde", "{\"ab\":3,\"abc\":[]}");
      sequences(ctx, type_name<Names>(), bind<Names>, a, n - 1, 2);
    }
    {
      Alpha a;
      for (const char *k : {"one", "two", "three", "x", "y", "z"})
        a.add(k, "1"), a.add(k, "2");
      a.add("w", "{\"one\":7}");
      sequences(ctx, type_name<Swap>(), bind<Swap>, a, n - 1, 2);
    }
    {
      Alpha a;
      a.add("p", "1");
      a.add("p", "2");
      a.add("q", "\"x\"");
      a.add("r", "null");
      a.add("r", "{}");
      a.add("r", "[[],{\"p\":9}]");
      a.add("pq", "\"}\"");
      sequences(ctx, type_name<P>(), bind<P>, a, n + 1, 2);
    }
#elif PART == 1
    {
      Alpha a;
      a.add("d", "1");
      a.add("o-name", "1.5");
      a.add("alias1", "2.5");
      a.add("alias2", "3.5");
      a.add("other", "4.5");
      a.add("b1", "4");
      a.add("b2", "false");
      a.add("shared", "\"x\"");
      a.add("sh", "\"y\"");
      a.add("u", "{\"b1\":7,\"d\":[{}]}");
      a.add("s", "[\"d\",{\"sh\":1}]");
      sequences(ctx, type_name<D>(), bind<D>, a, n, 1);
    }
    {
      Alpha a;
      a.add("own", "1");
      a.add("a1", "2");
      a.add("a0", "3");
      a.add("a0o", "4");
      a.add("b1", "5");
      a.add("b2", "[6]");
      a.add("b0", "\"seven\"");
      a.add("b0alias", "\"eight\"");
      a.add("b00", "false");
      a.add("b01", "9");
      a.add("c", "[[{}]]");
      sequences(ctx, type_name<Tall>(), bind<Tall>, a, n - 1, 1);
      // every subset of the members, in three orders
      for (unsigned mask = 0; mask < 1u << 10; mask++)
        ctx.block([&] {
          JV d = trees_leaf_obj();
          for (unsigned i = 0; i < 10; i++)
            if (mask >> i & 1)
              d.kids.push_back(a.props[i]);
          doc_of(ctx, type_name<Tall>(), bind<Tall>, d, false);
          std::reverse(d.kids.begin(), d.kids.end());
          doc_of(ctx, type_name<Tall>(), bind<Tall>, d, false);
          std::rotate(d.kids.begin(), d.kids.begin() + long(d.kids.size() / 2), d.kids.end());
          doc_of(ctx, type_name<Tall>(), bind<Tall>, d, false);
        });
    }
#elif PART == 2
    {
      Alpha p, a;
      std::vector<std::string> ps = {"{}", "{\"p\":1}", "{\"q\":\"k\"}", "{\"p\":2,\"q\":\"l\"}", "{\"z\":1,\"p\":3}", "{\"q\":\"m\",\"z\":{\"p\":8}}"};
      for (auto &s : ps)
      {
        a.add("po", s.c_str());
        a.add("ps", ("[" + s + "]").c_str());
        a.add("ps", ("[{\"p\":5,\"q\":\"n\"}," + s + "]").c_str());
        a.add("pm", ("{\"k1\":" + s + ",\"k2\":{\"q\":\"o\",\"p\":6}}").c_str());
        a.add("q", ("{\"inner\":" + s + ",\"l\":[1]}").c_str());
        a.add("q", ("{\"l\":[],\"y\":1,\"inner\":" + s + ",\"o\":5}").c_str());
      }
      a.add("q", "{}");
      a.add("unknown", "{\"q\":{},\"ps\":[{\"p\":1}]}");
      sequences(ctx, type_name<Deep>(), bind<Deep>, a, n - 2, 1);
      std::vector<JV> small(a.props.begin(), a.props.end());
      // all four members in every order
      for (size_t i = 0; i < a.props.size(); i += ctx.thorough ? 1 : 5)
        for (size_t j = 0; j < a.props.size(); j += ctx.thorough ? 3 : 7)
          ctx.block([&] {
            JV d = trees_leaf_obj();
            d.kids = {a.props[i], a.props[j], a.props[(i + 2) % a.props.size()], a.props[(j + 3) % a.props.size()]};
            doc_of(ctx, type_name<Deep>(), bind<Deep>, d, false);
          });
    }
    // each member of a wide struct alone, missing, last, first, repeated
    std::vector<JV> all;
    for (char c : {'a', 'b', 'c', 'd'})
      for (int i = 0; i < 8; i++)
      {
        JV v = docs::val(std::to_string(int(all.size()) + 1));
        v.name = std::string(1, c) + std::to_string(i);
        all.push_back(v);
      }
    for (size_t i = 0; i < all.size(); i++)
      ctx.block([&] {
        JV d = trees_leaf_obj();
        d.kids = {all[i]};
        doc_of(ctx, type_name<Wide>(), bind<Wide>, d, false);
        d.kids = all;
        d.kids.erase(d.kids.begin() + long(i));
        doc_of(ctx, type_name<Wide>(), bind<Wide>, d, false);
        d.kids = all;
        std::rotate(d.kids.begin(), d.kids.begin() + long(i), d.kids.end());
        doc_of(ctx, type_name<Wide>(), bind<Wide>, d, false);
        for (size_t j = 0; j < all.size(); j++)
        {
          d.kids = {all[i], all[j]};
          doc_of(ctx, type_name<Wide>(), bind<Wide>, d, false);
          d.kids = all;
          d.kids[i].name = all[j].name;
          doc_of(ctx, type_name<Wide>(), bind<Wide>, d, false);
        }
      });
#elif PART == 3
    auto prop = [](const std::string &name, const std::string &value) {
      JV v = docs::val(value);
      v.name = name;
      return v;
    };
    auto doc = [](const std::vector<JV> &kids) {
      JV d = trees_leaf_obj();
      d.kids = kids;
      return d;
    };
    auto each_one = [&](const char *type, Bind f, const std::vector<JV> &all) {
      for (size_t i = 0; i < all.size(); i++)
        ctx.block([&] {
          doc_of(ctx, type, f, doc({all[i]}), true);
          JV d = doc(all);
          d.kids.erase(d.kids.begin() + long(i));
          doc_of(ctx, type, f, d, false);
          d = doc(all);
          d.kids[i].name += "?";
          doc_of(ctx, type, f, d, false);
          d = doc(all);
          std::rotate(d.kids.begin(), d.kids.begin() + long(i), d.kids.end());
          doc_of(ctx, type, f, d, false);
          for (size_t j = 0; j < all.size(); j++)
          {
            doc_of(ctx, type, f, doc({all[i], all[j]}), false);
            d = doc(all);
            d.kids[i].name = all[j].name;
            doc_of(ctx, type, f, d, false);
          }
        });
    };
    std::vector<JV> longs, family;
    for (size_t k : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257})
    {
      longs.push_back(prop(std::string(k, 'n'), std::to_string(k)));
      longs.push_back(prop(k % 2 ? std::string(k - 1, 'n') + "b" : "alias" + std::string(k, 'n'), std::to_string(k + 1000)));
    }
    each_one(type_name<Long>(), bind<Long>, longs);
    for (size_t k = 0; k <= 600; k++)
      ctx.block([&] {
        for (const char *e : {"", "b", "c", "nb"})
        {
          doc_of(ctx, type_name<Long>(), bind<Long>, doc({prop(std::string(k, 'n') + e, "5")}), k < 70);
          doc_of(ctx, type_name<Long>(), bind<Long>, doc({longs[k % longs.size()], prop("alias" + std::string(k, 'n') + e, "5")}), false);
        }
      });
    int value = 0;
    for (const char *k : {"f0", "f1", "t0", "t1", "t2", "u", "uo", "u0", "u1", "u2", "v1", "v0"})
      family.push_back(prop(k, std::to_string(++value)));
    family.push_back(prop("u3", "\"text\""));
    for (char c : {'a', 'b', 'c', 'd'})
      for (int i = 0; i < 8; i++)
        family.push_back(prop(std::string(1, c) + std::to_string(i), std::to_string(++value)));
    each_one(type_name<Family>(), bind<Family>, family);
    for (unsigned mask = 0; mask < 1u << 11; mask++)
      ctx.block([&] {
        JV d = doc({});
        for (unsigned i = 0; i < 11; i++)
          if (mask >> i & 1)
            d.kids.push_back(family[i]);
        d.kids.insert(d.kids.end(), family.begin() + 11, family.end());
        doc_of(ctx, type_name<Family>(), bind<Family>, d, false);
      });
    // properties without a member in which one thing is large, and many of them
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t k : scale::ladder(scale::most(kind, ctx.thorough)))
        ctx.block([&] {
          JV v = prop("nobody", scale::value(kind, k)), p = prop("p", "1"), q = prop("q", "\"x\"");
          for (const JV &d : {doc({p, v, q}), doc({v, p, v, q, v}), doc({v}), doc({q, v})})
          {
            std::string text = jv::show(d);
            JV again;
            jv::first(text, again);
            for (int opt : {0, 1, 2, 3, 4})
              one(ctx, type_name<P>(), bind<P>, text, again, opt, text.size(), false);
            if (k < 5000)
            {
              int opt = 0;
              for (size_t c : scale::places(text.size()))
                one(ctx, type_name<P>(), bind<P>, text, again, opt++ % 4, c, false);
            }
          }
        });
    for (size_t k : scale::ladder(ctx.thorough ? 10001 : 2050))
      ctx.block([&] {
        std::vector<JV> many;
        for (size_t i = 0; i < k; i++)
          many.push_back(prop("u" + std::to_string(i), i % 3 ? "[1]" : "{\"p\":3}"));
        auto a = many, b = many, c = many;
        a.push_back(prop("p", "1"));
        b.insert(b.begin(), prop("q", "\"x\""));
        c.insert(c.begin() + long(k / 2), prop("p", "9"));
        for (auto *l : {&a, &b, &c})
          doc_of(ctx, type_name<P>(), bind<P>, doc(*l), false);
        // the last of many counts
        for (size_t i = 0; i < k; i++)
          many[i] = prop("p", std::to_string(i));
        doc_of(ctx, type_name<P>(), bind<P>, doc(many), false);
      });
    for (size_t n : abyss::depths())
      for (int p = 0; p < abyss::PATTERNS; p++)
        for (int opt = 0; opt < 4; opt++)
          for (size_t c : {size_t(0), size_t(15), n + 12, 3 * n})
            deep(ctx, p, n, opt, c);
#endif
  });
}
