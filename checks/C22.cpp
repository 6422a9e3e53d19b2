// Structs of three members that may be absent, null or present, in every combination.
#include "types.h"
#include "docs.h"

#ifndef PART
#define PART 0
#define PARTS 1
#endif

template <class A, class B, class C>
struct Tri
{
  A a = A();
  B b = B();
  C c = C();
  JS_OBJ(a, b, c);
  template <class V>
  static void reflect(V &v)
  {
    v({"a"}, &Tri::a);
    v({"b"}, &Tri::b);
    v({"c"}, &Tri::c);
  }
};

struct Op
{
  const char *name;
  // filled: 0 as built, 1.. the members hold something
  std::string (*read)(const std::string &, const JV *, int filled, bool allow, bool &accepted, uint64_t &state);
  std::string (*write)(size_t i, int style, uint64_t &state);
};

template <class T, class A, class B, class C>
T filled_with(int f)
{
  T t;
  if (f)
  {
    t.a = M<A>::make(M<A>::count() - 1 - size_t(f > 1) * (M<A>::count() > 2));
    t.b = M<B>::make(f == 2 ? 0 : M<B>::count() - 1);
    t.c = M<C>::make(M<C>::count() - 1);
  }
  return t;
}
static std::vector<std::string> sorted(std::vector<std::string> v)
{
  std::sort(v.begin(), v.end());
  return v;
}
static std::string join(const std::vector<std::string> &v)
{
  std::string o;
  for (auto &s : v)
    o += s + " ";
  return o;
}
template <class A, class B, class C>
std::string read(const std::string &text, const JV *doc, int filled, bool allow, bool &accepted, uint64_t &state)
{
  using T = Tri<A, B, C>;
  std::vector<char> buf(text.begin(), text.end());
  buf.shrink_to_fit();
  T real = filled_with<T, A, B, C>(filled), model = filled_with<T, A, B, C>(filled);
  JS::ParseContext pc;
  pc.allow_unasigned_required_members = allow;
  JS::Error e = parse_text(buf, real, pc);
  Env env;
  env.src = text.data();
  env.allow_unassigned = allow;
  bool want = doc && M<T>::read(*doc, model, env);
  accepted = want;
  state = mc::Hash().add(std::string(type_name<T>())).add(uint64_t(e)).get();
  if (want != (e == JS::Error::NoError))
    return std::string(want ? "should be accepted" : "should be an error") + ", got error " + std::to_string(int(e));
  if (want)
  {
    std::string x = dump(real), y = dump(model);
    state = mc::Hash().add(std::string(type_name<T>())).add(x).get();
    if (x != y)
      return "holds " + x + "\nshould hold " + y;
  }
  if (want || e == JS::Error::UnassignedRequiredMember)
    if (sorted(pc.unassigned_required_members) != sorted(env.unassigned))
      return "without a property: " + join(pc.unassigned_required_members) + "should be: " + join(env.unassigned);
  return "";
}
template <class A, class B, class C>
std::string write(size_t i, int style, uint64_t &state)
{
  using T = Tri<A, B, C>;
  auto pick = [&](size_t n) {
    size_t m = n < 4 ? n : 4, k = i % 4;
    i /= 4;
    return k < m ? (k + 1 == m ? n - 1 : k) : 0;
  };
  T t;
  t.a = M<A>::make(pick(M<A>::count()));
  t.b = M<B>::make(pick(M<B>::count()));
  t.c = M<C>::make(pick(M<C>::count()));
  JV want, got;
  if (!M<T>::write(t, want))
    return "the model has no text for it";
  JS::SerializerOptions o(style ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  std::string out = JS::serializeStruct(t, o);
  state = mc::Hash().add(std::string(type_name<T>())).add(out).get();
  if (!jv::document(out, got))
    return "no document: " + out;
  if (!jv::same(want, got))
    return "wrote " + out + "\nshould be " + jv::show(want);
  // and back, into one that holds something else
  for (int f = 0; f < 3; f++)
  {
    T back = filled_with<T, A, B, C>(f), model = filled_with<T, A, B, C>(f);
    JS::ParseContext pc(out);
    Env env;
    env.src = out.data();
    if (pc.parseTo(back) != JS::Error::NoError || !M<T>::read(got, model, env))
      return "does not read back: " + out;
    if (dump(back) != dump(model))
      return "read back as " + dump(back) + "\nshould be " + dump(model);
  }
  return "";
}

template <class A, class B, class C>
Op op()
{
  return {type_name<Tri<A, B, C>>(), read<A, B, C>, write<A, B, C>};
}

template <class... Ts>
struct Table
{
  static const size_t N = sizeof...(Ts);
  template <size_t I>
  using at = std::tuple_element_t<I % N, std::tuple<Ts...>>;
};
using Members = Table<int, JS::Nullable<int>, JS::NullableChecked<int>, JS::Optional<int>, JS::OptionalChecked<int>, std::optional<int>, UPtr<int>, SPtr<int>, SUPtr<int>, JS::SilentString, SVec<int>, JS::NullableChecked<P>,
                      JS::OptionalChecked<JS::NullableChecked<int>>, std::optional<std::string>, UPtr<P>, std::optional<UPtr<int>>, std::optional<P>>;

template <size_t K>
void add(std::vector<Op> &ops)
{
  if constexpr (K < Members::N * Members::N)
  {
    const size_t i = K / Members::N, j = K % Members::N;
    ops.push_back(op<Members::at<i>, Members::at<j>, Members::at<i * 5 + j * 3 + 1>>());
    add<K + PARTS>(ops);
  }
}

// ---- the wrappers on their own: every sequence of constructions, assignments and readings over two objects ----
// what an object should hold; flag: it has a value (the wrappers without a flag always do)
template <class T>
struct Cell
{
  T data = T();
  bool has = false;
};
template <class W>
struct Wrap;
template <class T>
struct Wrap<JS::Nullable<T>>
{
  using value = T;
  static const bool flagged = false, nulls = true;
  static bool has(const JS::Nullable<T> &)
  {
    return true;
  }
  static std::string more(const JS::Nullable<T> &)
  {
    return "";
  }
};
template <class T>
struct Wrap<JS::NullableChecked<T>>
{
  using value = T;
  static const bool flagged = true, nulls = true;
  static bool has(const JS::NullableChecked<T> &w)
  {
    return !w.null;
  }
  static std::string more(const JS::NullableChecked<T> &)
  {
    return "";
  }
};
template <class T>
struct Wrap<JS::Optional<T>>
{
  using value = T;
  static const bool flagged = false, nulls = false;
  static bool has(const JS::Optional<T> &)
  {
    return true;
  }
  static std::string more(const JS::Optional<T> &)
  {
    return "";
  }
};
template <class T>
struct Wrap<JS::OptionalChecked<T>>
{
  using value = T;
  static const bool flagged = true, nulls = false;
  static bool has(const JS::OptionalChecked<T> &w)
  {
    return w.assigned;
  }
  static std::string more(const JS::OptionalChecked<T> &w)
  {
    std::optional<T> o = w.opt();
    return o.has_value() != w.assigned || (o && !(*o == w.data)) ? "opt() is something else" : "";
  }
};
template <class T>
struct Vals;
template <>
struct Vals<int>
{
  static int at(int i)
  {
    return 10 + i;
  }
  static std::string text(int v)
  {
    return std::to_string(v);
  }
};
template <>
struct Vals<std::string>
{
  static std::string at(int i)
  {
    return "a string too long to be kept inside of it, number " + std::to_string(i);
  }
  static std::string text(const std::string &v)
  {
    return "\"" + v + "\"";
  }
};
template <>
struct Vals<std::vector<int>>
{
  static std::vector<int> at(int i)
  {
    return std::vector<int>(size_t(i % 3 + 1), i);
  }
  static std::string text(const std::vector<int> &v)
  {
    std::string o;
    for (int i : v)
      o += (o.empty() ? "" : ",") + std::to_string(i);
    return "[" + o + "]";
  }
};
template <class W>
struct One
{
  int z = 1;
  W m;
  JS_OBJ(z, m);
};
static const std::vector<const char *> wrap_ops = {"A=W()",     "A=W(const)", "A=W(move)",      "A=const",  "A=move",    "A=B",    "A=move(B)", "B=W(A)",
                                                   "B=W(move(A))", "A()=value",  "A<-value", "A<-null", "A<-absent", "swap(A,B)", "A=A"};
template <class W>
std::string wrapped(const std::vector<int> &seq, uint64_t &state)
{
  using X = Wrap<W>;
  using T = typename X::value;
  using V = Vals<T>;
  One<W> a, b;
  Cell<T> x, y;
  x.has = y.has = !X::flagged;
  auto judge = [&](const One<W> &o, const Cell<T> &c, const char *n) -> std::string {
    if (!(o.m.data == c.data))
      return std::string(n) + " holds something else";
    if (&o.m() != &o.m.data || &const_cast<W &>(o.m)() != &o.m.data)
      return std::string(n) + "() is not the value";
    if (X::has(o.m) != c.has)
      return std::string(n) + (c.has ? " should have a value" : " should not have a value");
    std::string m = X::more(o.m);
    if (!m.empty())
      return n + m;
    std::string out = JS::serializeStruct(o, JS::SerializerOptions(JS::SerializerOptions::Compact));
    std::string want = "{\"z\":1";
    if (c.has)
      want += ",\"m\":" + V::text(c.data);
    else if (X::nulls)
      want += ",\"m\":null";
    want += "}";
    if (out != want)
      return std::string(n) + " is written as " + out + " instead of " + want;
    return "";
  };
  int k = 0;
  mc::Hash h;
  for (size_t i = 0; i <= seq.size(); i++)
  {
    for (int s = 0; s < 2; s++)
    {
      std::string r = s ? judge(b, y, "B") : judge(a, x, "A");
      if (!r.empty())
        return "after " + std::to_string(i) + " steps: " + r;
      h.add(uint64_t(s ? y.has : x.has)).add(V::text(s ? y.data : x.data));
    }
    if (i == seq.size())
      break;
    T v = V::at(++k);
    const T cv = v;
    auto take = [&] {
      x.data = cv;
      x.has = true;
    };
    switch (seq[i])
    {
    case 0:
      a.m = W();
      x = Cell<T>();
      x.has = !X::flagged;
      break;
    case 1: {
      const W w(cv);
      a.m = w;
      take();
      break;
    }
    case 2:
      a.m = W(std::move(v));
      take();
      break;
    case 3:
      a.m = cv;
      take();
      break;
    case 4:
      a.m = std::move(v);
      take();
      break;
    case 5: {
      const W &w = b.m;
      a.m = w;
      x = y;
      break;
    }
    case 6:
      a.m = std::move(b.m);
      x = y;
      b.m = W();
      y = Cell<T>();
      y.has = !X::flagged;
      break;
    case 7: {
      const W &o = a.m;
      W w(o);
      b.m = w;
      y = x;
      break;
    }
    case 8: {
      W w(std::move(a.m));
      b.m = w;
      y = x;
      a.m = W();
      x = Cell<T>();
      x.has = !X::flagged;
      break;
    }
    case 9:
      a.m() = cv;
      x.data = cv;
      break;
    case 10:
    case 11:
    case 12: {
      std::string t = seq[i] == 10 ? "{\"m\":" + V::text(cv) + "}" : seq[i] == 11 ? "{\"m\":null}" : "{}";
      if (seq[i] == 11 && !X::nulls)
        break;
      JS::ParseContext pc(t);
      if (pc.parseTo(a) != JS::Error::NoError)
        return t + " is not read";
      if (seq[i] == 10)
        take();
      else if (seq[i] == 11)
        x.has = !X::flagged;
      break;
    }
    case 13:
      std::swap(a.m, b.m);
      std::swap(x, y);
      break;
    case 14: {
      const W &o = a.m;
      a.m = o;
      break;
    }
    }
  }
  state = h.get();
  return "";
}
struct WrapOp
{
  const char *name;
  std::string (*run)(const std::vector<int> &, uint64_t &);
};
static void wrappers(mc::Ctx &ctx)
{
  const std::vector<WrapOp> ops = {
#define W(t) {#t, wrapped<t>}
    W(JS::Nullable<int>), W(JS::NullableChecked<int>), W(JS::Optional<int>), W(JS::OptionalChecked<int>),
    W(JS::Nullable<std::string>), W(JS::NullableChecked<std::string>), W(JS::Optional<std::string>), W(JS::OptionalChecked<std::string>),
    W(JS::NullableChecked<std::vector<int>>), W(JS::OptionalChecked<std::vector<int>>)
#undef W
  };
  const size_t depth = ctx.thorough ? 5 : 4;
  for (auto &o : ops)
  {
    std::vector<int> seq;
    std::function<void()> go = [&] {
      ctx.exec(
        [&] {
          std::string s = o.name;
          for (int i : seq)
            s += std::string(" ") + wrap_ops[size_t(i)];
          return s;
        },
        [&] {
          uint64_t st = 0;
          std::string r = o.run(seq, st);
          ctx.steps(seq.size());
          ctx.state(mc::Hash().add(std::string(o.name)).add(st).get());
          if (seq.size() > 1)
            ctx.nontrivial();
          if (!r.empty())
            ctx.fail("wrapper", r);
        });
      if (seq.size() == depth)
        return;
      for (int i = 0; i < int(wrap_ops.size()); i++)
      {
        seq.push_back(i);
        if (seq.size() == 1)
          ctx.block(go);
        else
          go();
        seq.pop_back();
      }
    };
    go();
  }
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    std::vector<Op> ops;
    add<PART>(ops);
    if (PART == 0)
      wrappers(ctx);
    const std::vector<std::string> vals = {"", "null", "7", "\"s\"", "[1]", "[]", "{\"p\":1,\"q\":\"z\"}", "true", "\"\""};
    auto one = [&](const Op &o, const std::string &text, int filled, bool allow) {
      ctx.exec([&] { return std::string(o.name) + " <- " + text + (filled ? " filled " + std::to_string(filled) : "") + (allow ? "" : " strict"); },
               [&] {
                 JV doc;
                 bool whole = jv::first(text, doc), accepted = false;
                 uint64_t st = 0;
                 std::string r = o.read(text, whole ? &doc : nullptr, filled, allow, accepted, st);
                 ctx.steps(jv::nodes(doc));
                 ctx.state(st);
                 if (accepted)
                   ctx.nontrivial();
                 if (!r.empty())
                   ctx.fail("members", r);
               });
    };
    for (auto &o : ops)
      ctx.block([&] {
        for (auto &a : vals)
          for (auto &b : vals)
            for (auto &c : vals)
            {
              std::string fwd, back;
              auto put = [&](const char *n, const std::string &v) {
                if (v.empty())
                  return;
                std::string m = std::string("\"") + n + "\":" + v;
                fwd += (fwd.empty() ? "" : ",") + m;
                back = m + (back.empty() ? "" : " ,\n") + back;
              };
              put("a", a);
              put("b", b);
              put("c", c);
              for (int f = 0; f < 3; f++)
                for (int al = 0; al < 2; al++)
                {
                  one(o, "{" + fwd + "}", f, al);
                  if (f < 2 || ctx.thorough)
                    one(o, "{ " + back + " }", f, al);
                }
            }
        // twice: the later one counts, and null does not undo more than it says
        for (const char *n : {"a", "b", "c"})
          for (auto &x : vals)
            for (auto &y : vals)
              if (!x.empty() && !y.empty())
                for (int f = 0; f < 3; f++)
                  one(o, std::string("{\"") + n + "\":" + x + ",\"none\":null,\"" + n + "\":" + y + "}", f, true);
        for (size_t i = 0; i < 64; i++)
          for (int s = 0; s < 2; s++)
            ctx.exec([&] { return std::string("write ") + o.name + " number " + std::to_string(i) + (s ? " compact" : ""); },
                     [&] {
                       uint64_t st = 0;
                       std::string r = o.write(i, s, st);
                       ctx.steps(3);
                       ctx.state(st);
                       ctx.nontrivial();
                       if (!r.empty())
                         ctx.fail("written", r);
                     });
      });
  });
}
