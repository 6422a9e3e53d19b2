// The family of target types that the type-level checks range over.
#pragma once
#include "model.h"

// ---- user types ----
JS_ENUM(Color, red, green, re, redd)
JS_ENUM_DECLARE_STRING_PARSER(Color)
template <>
struct EnumNames<Color>
{
  static const std::vector<std::string> &names()
  {
    static const std::vector<std::string> n = {"red", "green", "re", "redd"};
    return n;
  }
};

struct P // one mandatory number, one mandatory text
{
  int p = -5;
  std::string q = "old";
  JS_OBJ(p, q);
  template <class V>
  static void reflect(V &v)
  {
    v({"p"}, &P::p);
    v({"q"}, &P::q);
  }
};
struct Q // nested and optional
{
  P inner;
  std::optional<int> o;
  std::vector<int> l = {9};
  JS_OBJ(inner, o, l);
  template <class V>
  static void reflect(V &v)
  {
    v({"inner"}, &Q::inner);
    v({"o"}, &Q::o);
    v({"l"}, &Q::l);
  }
};
struct Base1
{
  int b1 = -1;
  std::string shared = "b";
  JS_OBJECT(JS_MEMBER(b1), JS_MEMBER_ALIASES(shared, "sh"));
};
struct Base2
{
  bool b2 = true;
  JS_OBJ(b2);
};
struct D : Base1, Base2 // super classes and aliases
{
  int d = -3;
  double other = 0.5;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base1), JS_SUPER_CLASS(Base2)), JS_MEMBER(d),
                       JS_MEMBER_WITH_NAME_AND_ALIASES(other, "o-name", "alias1", "alias2"));
  template <class V>
  static void reflect(V &v)
  {
    v({"d"}, &D::d);
    v({"o-name", "alias1", "alias2"}, &D::other);
    v({"b2"}, &Base2::b2, "Base2");
    v({"b1"}, &Base1::b1, "Base1");
    v({"shared", "sh"}, &Base1::shared, "Base1");
  }
};
struct Ext // described from outside
{
  short e = 3;
  std::vector<std::string> f;
  template <class V>
  static void reflect(V &v)
  {
    v({"e"}, &Ext::e);
    v({"f"}, &Ext::f);
  }
};
JS_OBJ_EXT(Ext, e, f);

// ---- places a type can stand in ----
template <class T>
struct Mid // between two neighbours
{
  int first = -1;
  T x = T();
  int last = -2;
  JS_OBJ(first, x, last);
  template <class V>
  static void reflect(V &v)
  {
    v({"first"}, &Mid::first);
    v({"x"}, &Mid::x);
    v({"last"}, &Mid::last);
  }
};
template <class T, size_t N>
struct Mid<T[N]>
{
  int first = -1;
  T x[N] = {};
  int last = -2;
  JS_OBJ(first, x, last);
  template <class V>
  static void reflect(V &v)
  {
    v({"first"}, &Mid::first);
    v({"x"}, &Mid::x);
    v({"last"}, &Mid::last);
  }
};

// ---- type lists ----
template <class T>
struct Tag
{
  using type = T;
};
template <class... Ts>
struct L
{
};
template <class F, class... Ts>
void each(L<Ts...>, F f)
{
  (f(Tag<Ts>()), ...);
}
template <class... A, class... B>
L<A..., B...> cat(L<A...>, L<B...>);
template <class A, class B>
using Cat = decltype(cat(A(), B()));
template <template <class> class W, class X>
struct MapL;
template <template <class> class W, class... Ts>
struct MapL<W, L<Ts...>>
{
  using type = L<W<Ts>...>;
};
template <template <class> class W, class X>
using Each = typename MapL<W, X>::type;

template <class T>
using Vec = std::vector<T>;
template <class T>
using Arr2 = std::array<T, 2>;
template <class T>
using CArr2 = T[2];
template <class T>
using Avc2 = JS::ArrayVariableContent<T, 2>;
template <class T>
using StrMap = std::map<std::string, T>;
template <class T>
using StrUMap = std::unordered_map<std::string, T>;
template <class T>
using TupA = std::tuple<T, int>;
template <class T>
using TupB = JS::Tuple<std::string, T>;
template <class T>
using SVec = JS::SilentVector<T>;
template <class T>
using SPtr = std::shared_ptr<T>;
template <class T>
using UPtr = std::unique_ptr<T>;
template <class T>
using SUPtr = JS::SilentUniquePtr<T>;

using Scalars = L<bool, char, int8_t, uint8_t, short, unsigned short, int, unsigned, long, unsigned long, long long,
                  unsigned long long, double, float, std::string, Color>;
using Times = L<std::chrono::system_clock::time_point, std::chrono::steady_clock::time_point>;
using Structs = L<P, Q, D, Ext>;
using Raws = L<JS::JsonObject, JS::JsonArray, JS::JsonObjectOrArray, JS::JsonObjectRef, JS::JsonArrayRef,
               JS::JsonObjectOrArrayRef, JS::JsonTokens, std::vector<JS::Token>, JS::Map>;

// every wrapper around T (a copyable one)
template <class T>
using Wraps =
  L<JS::Nullable<T>, JS::NullableChecked<T>, JS::Optional<T>, JS::OptionalChecked<T>, std::optional<T>, SPtr<T>,
    UPtr<T>, SUPtr<T>, Vec<T>, SVec<T>, JS::OneOrMany<T>, Arr2<T>, Avc2<T>, StrMap<T>, StrUMap<T>, TupA<T>, TupB<T>>;
using Sets = L<std::set<int>, std::set<std::string>, std::unordered_set<int>, std::unordered_set<std::string>>;

template <class T>
const char *type_name()
{
  const char *p = __PRETTY_FUNCTION__;
  const char *q = strstr(p, "T = ");
  return q ? q + 4 : p;
}

// parse the text in one buffer of its exact size
template <class T>
JS::Error parse_text(const std::vector<char> &buf, T &t, JS::ParseContext &pc)
{
  char one = 0;
  pc.tokenizer.addData(buf.empty() ? &one : buf.data(), buf.size());
  return pc.parseTo(t);
}

// parse `text` to a copy of the object make() gives and compare with the model
template <class T>
std::string compare_parse(const std::string &text, const JV *doc, T (*make)(), bool *accepted, uint64_t *state)
{
  std::vector<char> buf(text.begin(), text.end());
  buf.shrink_to_fit();
  T real(make());
  JS::ParseContext pc;
  JS::Error err = parse_text(buf, real, pc);
  bool ok = err == JS::Error::NoError;
  if (pc.error != err)
    return "the context's error differs from the one returned";
  Env env;
  env.src = text.data();
  T model(make());
  bool want = doc && M<T>::read(*doc, model, env);
  *accepted = want;
  *state = mc::Hash().add(std::string(type_name<T>())).add(uint64_t(err)).get();
  if (ok != want)
    return std::string(want ? "should be accepted" : "should be an error") + ", got error " + std::to_string(int(err));
  if (!ok)
    return "";
  std::string a = dump(real), b = dump(model);
  *state = mc::Hash().add(std::string(type_name<T>())).add(a).get();
  if (a != b)
    return "holds " + a + "\nshould hold " + b;
  return "";
}
template <class T>
T make_default()
{
  return T();
}
template <class T, int NUM, int DEN>
T make_filled()
{
  return M<T>::make(M<T>::count() * NUM / DEN);
}
using Compare = std::string (*)(const std::string &, const JV *, bool *, uint64_t *);
template <class T>
std::string compare_fresh(const std::string &text, const JV *doc, bool *a, uint64_t *s)
{
  return compare_parse<T>(text, doc, make_default<T>, a, s);
}
template <class T>
std::string compare_filled(const std::string &text, const JV *doc, bool *a, uint64_t *s)
{
  return compare_parse<T>(text, doc, make_filled<T, 2, 3>, a, s);
}
