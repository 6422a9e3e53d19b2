// Values of every type, written in every style and read back.
#include "docs.h"
#include "types.h"
#include "scale.h"
#include "layout.h"

#ifndef PART
#define PART 0
#endif

static std::vector<JS::SerializerOptions> styles()
{
  std::vector<JS::SerializerOptions> r;
  r.push_back(JS::SerializerOptions(JS::SerializerOptions::Pretty));
  r.push_back(JS::SerializerOptions(JS::SerializerOptions::Compact));
  JS::SerializerOptions o;
  o.setShiftSize(0);
  r.push_back(o);
  o.setShiftSize(7);
  r.push_back(o);
  o = JS::SerializerOptions();
  o.setStyle(JS::SerializerOptions::Compact);
  r.push_back(o);
  o.setStyle(JS::SerializerOptions::Pretty);
  r.push_back(o);
  return r;
}
static std::string plain(const std::string &s)
{
  return s;
}
static const std::vector<JS::SerializerOptions> &style_list()
{
  static const std::vector<JS::SerializerOptions> s = styles();
  return s;
}

// without the white space between tokens
static inline std::string squeeze(const std::string &s)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (in && s[i] == '\\')
    {
      o += s[i++];
      o += s[i];
      continue;
    }
    if (s[i] == '"')
      in = !in;
    if (in || !strchr(" \t\r\n", s[i]))
      o += s[i];
  }
  return o;
}
// LOSSY: nothing is written for some values of an element type, so that they cannot be read back
template <class T, bool LOSSY>
static std::string round_of(T t, size_t i, size_t style, uint64_t *state)
{
  std::string want = dump(t);
  std::string text = style == 0 ? JS::serializeStruct(t) : JS::serializeStruct(t, style_list()[style - 1]);
  if (dump(t) != want)
    return "serialising changed the value";
  JV v, w;
  if (!jv::document(text, v))
    return "not well-formed: " + plain(text);
  if (!M<T>::write(t, w) || !jv::same(v, w))
    return "wrote " + plain(text) + "\nshould write " + jv::show(w);
  *state = mc::Hash().add(std::string(type_name<T>())).add(text).get();
#ifdef WELL_FORMED
  // the styles differ in white space between the tokens only, and compact has none
  const bool raw = strstr(type_name<T>(), "Json") != nullptr;
  std::string bare = squeeze(text), other = squeeze(JS::serializeStruct(t, JS::SerializerOptions(JS::SerializerOptions::Compact)));
  if (bare != other)
    return "wrote " + plain(text) + "\ncompact " + plain(other);
  if (style > 0 && !raw && style_list()[style - 1].style() == JS::SerializerOptions::Compact && bare != text)
    return "white space in " + plain(text);
  if (!raw) // and each value is on its line
  {
    layout::Style l;
    l.pretty = style == 0 || style_list()[style - 1].style() == JS::SerializerOptions::Pretty;
    l.shift = style == 0 ? 2 : style_list()[style - 1].shiftSize();
    std::string lines = layout::of(v, l);
    if (lines != text)
      return "wrote " + plain(text) + "\nlaid out as " + plain(lines);
  }
  return "";
#endif
  std::vector<char> buf(text.begin(), text.end());
  buf.shrink_to_fit();
  // into a new object
  {
    T back = T();
    JS::ParseContext pc;
    JS::Error e = parse_text(buf, back, pc);
    std::string got = dump(back);
    if (!LOSSY && (e != JS::Error::NoError || got != want))
      return "wrote " + plain(text) + "\nread back with error " + std::to_string(int(e)) + " " + got + "\nwant " + want;
    Env env;
    env.src = text.data();
    T model = T();
    bool ok = M<T>::read(v, model, env);
    if (ok != (e == JS::Error::NoError) || (ok && dump(model) != got))
      return "wrote " + plain(text) + "\nread back with error " + std::to_string(int(e)) + " " + got + "\nmodel " + dump(model);
    // and written again, it is the same text
    if (ok && !LOSSY)
    {
      std::string again = style == 0 ? JS::serializeStruct(back) : JS::serializeStruct(back, style_list()[style - 1]);
      JV x;
      bool hashed = strstr(type_name<T>(), "unordered") != nullptr;
      if (!hashed && again != text && !(jv::document(again, x) && strstr(type_name<T>(), "Json") && jv::same(x, v)))
        return "wrote " + plain(text) + "\nthen " + plain(again);
    }
  }
  // into one that held something else
  {
    T back = M<T>::make((i + M<T>::count() / 2 + 1) % M<T>::count());
    T model = M<T>::make((i + M<T>::count() / 2 + 1) % M<T>::count());
    JS::ParseContext pc;
    JS::Error e = parse_text(buf, back, pc);
    Env env;
    env.src = text.data();
    bool ok = M<T>::read(v, model, env);
    if (ok != (e == JS::Error::NoError) || (ok && dump(model) != dump(back)))
      return "wrote " + plain(text) + "\nread over another value with error " + std::to_string(int(e)) + " " + dump(back) + "\nmodel " +
             dump(model);
  }
  return "";
}

template <class T, bool LOSSY>
static std::string round(size_t i, size_t style, uint64_t *state)
{
  return round_of<T, LOSSY>(M<T>::make(i), i, style, state);
}
// a value in which something is large; false if the type has no such value
template <class T, bool LOSSY>
static bool round_large(const JV &v, const std::string &src, size_t style, uint64_t *state, std::string &r)
{
  T t = T();
  Env env;
  env.src = src.data();
  if (!M<T>::read(v, t, env))
    return false;
  r = round_of<T, LOSSY>(std::move(t), 0, style, state);
  return true;
}

struct Op
{
  const char *name;
  size_t count;
  std::string (*run)(size_t, size_t, uint64_t *);
  bool (*large)(const JV &, const std::string &, size_t, uint64_t *, std::string &);
};
struct Large
{
  std::string what, text; // the text of a value
};
static const std::vector<Large> &larges(bool T)
{
  static std::vector<Large> r;
  if (!r.empty())
    return r;
  for (size_t n : scale::ladder(T ? 4100 : 260))
  {
    for (int k : {scale::STRING, scale::STRING_ESCAPED, scale::STRING_UTF8, scale::STRING_UNICODE})
      r.push_back({scale::what(k, n), scale::value(k, n)});
    for (const char *e : {"7", "true", "1.5", "\"a\"", "\"red\"", "[7]", "[]", "{}", "{\"p\":7,\"q\":\"a\"}", "{\"k\":7}", "[7,7]", "[\"a\",7]"})
    {
      r.push_back({std::to_string(n) + " elements " + e, "[" + scale::list(n, ",", [&](size_t) { return std::string(e); }) + "]"});
      r.push_back({std::to_string(n) + " properties " + e, "{" + scale::list(n, ",", [&](size_t i) { return "\"k" + std::to_string(i) + "\":" + e; }) + "}"});
    }
    for (int k : {scale::ARRAY_NUMBERS, scale::ARRAY_STRINGS, scale::ARRAY_EMPTY, scale::ARRAY_OBJECTS, scale::PROPERTIES, scale::PROPERTIES_COMPLEX, scale::NAME, scale::NAME_ESCAPED, scale::DEEP_ARRAYS, scale::DEEP_OBJECTS, scale::DEEP_MIXED})
      if (n <= scale::most(k, T))
        r.push_back({scale::what(k, n), scale::value(k, n)});
  }
  for (size_t n : {1023, 1025, 4095, 4096, 4097, 8191, 8193, 65535, 65537})
    for (int k : {scale::STRING, scale::STRING_ESCAPED, scale::ARRAY_NUMBERS, scale::ARRAY_STRINGS, scale::PROPERTIES, scale::NAME})
      if (n <= scale::most(k, T) && (n < 5000 || k == scale::STRING || k == scale::ARRAY_NUMBERS))
        r.push_back({scale::what(k, n), scale::value(k, n)});
  return r;
}

static void explore(mc::Ctx &ctx, const Op &o)
{
  ctx.block([&] {
    size_t limit = ctx.thorough ? 200000 : 5000, n = std::min(limit, o.count);
    for (size_t k = 0; k < n; k++)
    {
      // spread over the domain when it is larger than the limit
      size_t i = o.count <= limit ? k : k * (o.count / limit) + k % 7;
      for (size_t s = 0; s <= style_list().size(); s++)
        ctx.exec([&] { return std::string(o.name) + " value " + std::to_string(i) + " style " + std::to_string(s); },
                 [&] {
                   uint64_t st = 0;
                   std::string r = o.run(i, s, &st);
                   ctx.state(st);
                   ctx.steps(2);
                   ctx.nontrivial();
                   if (!r.empty())
                     ctx.fail("round trip", r);
                 });
    }
  });
  if (strstr(o.name, "time_point")) // the numbers in there are no points in time that are claimed
    return;
  const auto &ls = larges(ctx.thorough);
  for (size_t b = 0; b < ls.size(); b += 400)
    ctx.block([&] {
      for (size_t i = b; i < std::min(b + 400, ls.size()); i++)
        ctx.exec([&] { return std::string(o.name) + " with " + ls[i].what; },
                 [&] {
                   bool any = false;
                   // as itself, or as the part in the middle
                   for (int mid = 0; mid < 2; mid++)
                   {
                     std::string doc = mid ? "{\"first\":1,\"x\":" + ls[i].text + ",\"last\":2}" : ls[i].text;
                     JV v;
                     if (!jv::document(doc, v) || mid != (strncmp(o.name, "Mid<", 4) == 0))
                       continue;
                     uint64_t st = 0;
                     std::string r;
                     size_t style = i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : (i / 3) % (style_list().size() + 1);
                     if (!o.large(v, doc, style, &st, r))
                       continue;
                     any = true;
                     ctx.state(st);
                     if (!r.empty())
                       ctx.fail("round trip", r.size() > 3000 ? r.substr(0, 3000) : r);
                   }
                   ctx.steps(2);
                   if (any)
                     ctx.nontrivial();
                 });
    });
}

template <class Ts, bool LOSSY>
static void run(mc::Ctx &ctx)
{
  each(Ts(), [&](auto t) {
    using T = typename decltype(t)::type;
    Op o = {type_name<Mid<T>>(), M<Mid<T>>::count(), round<Mid<T>, LOSSY>, round_large<Mid<T>, LOSSY>};
    explore(ctx, o);
  });
}
// the type alone, in a sequence and in a map
template <class Ts>
static void places(mc::Ctx &ctx)
{
  each(Ts(), [&](auto t) {
    using T = typename decltype(t)::type;
    explore(ctx, Op{type_name<Vec<T>>(), M<Vec<T>>::count(), round<Vec<T>, false>, round_large<Vec<T>, false>});
    explore(ctx, Op{type_name<StrMap<T>>(), M<StrMap<T>>::count(), round<StrMap<T>, false>, round_large<StrMap<T>, false>});
    explore(ctx, Op{type_name<std::tuple<T, T>>(), M<std::tuple<T, T>>::count(), round<std::tuple<T, T>, false>, round_large<std::tuple<T, T>, false>});
  });
}

// captures that nothing was read into
template <class T>
static void unset(mc::Ctx &ctx, const char *stands_for)
{
  for (size_t s = 0; s < style_list().size(); s++)
    ctx.exec([&] { return std::string("unset ") + type_name<T>() + " style " + std::to_string(s); },
             [&] {
               ctx.steps(4);
               ctx.nontrivial();
               auto look = [&](const std::string &text, const std::string &want) {
                 ctx.state(mc::Hash().add(text).get());
                 JV v, w;
                 jv::document(want, w);
                 if (!jv::document(text, v) || !jv::same(v, w))
                   ctx.fail("unset", "wrote " + text + "\nshould write " + want);
               };
               std::string x = stands_for, name = x.empty() ? "" : ",\"x\":" + x;
               Mid<T> m;
               m.first = 1;
               m.last = 2;
               const auto &o = style_list()[s];
               look(JS::serializeStruct(m, o), "{\"first\":1" + name + ",\"last\":2}");
               if (x.empty())
                 return;
               Vec<T> l;
               l.push_back(T());
               l.push_back(T());
               look(JS::serializeStruct(l, o), "[" + x + "," + x + "]");
               look(JS::serializeStruct(T(), o), x);
               std::tuple<int, T, int> t(1, T(), 2);
               look(JS::serializeStruct(t, o), "[1," + x + ",2]");
             });
}

// around a value that is always written
template <template <class> class W>
using Whole = L<W<JS::NullableChecked<int>>, W<SPtr<std::string>>, W<Vec<int>>, W<Arr2<int>>, W<Avc2<bool>>, W<StrMap<int>>, W<TupA<int>>,
                W<TupB<bool>>, W<P>, W<Q>>;
// around a value that may not be written
template <template <class> class W>
using Part = L<W<std::optional<int>>, W<JS::OptionalChecked<std::string>>, W<JS::OneOrMany<int>>, W<JS::SilentVector<int>>>;

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
#if PART == 0
    ctx.block([&] {
      unset<JS::JsonObject>(ctx, "{}");
      unset<JS::JsonObjectRef>(ctx, "{}");
      unset<JS::JsonArray>(ctx, "[]");
      unset<JS::JsonArrayRef>(ctx, "[]");
      unset<JS::JsonObjectOrArray>(ctx, "{}");
      unset<JS::JsonObjectOrArrayRef>(ctx, "{}");
      unset<JS::JsonTokens>(ctx, "");
      unset<JS::Map>(ctx, "{}");
    });
    run<Cat<Cat<Scalars, Cat<Times, Structs>>, Cat<Cat<Raws, Sets>, L<int[2], P[2], std::string[2], std::vector<bool>, JS::SilentString>>>, false>(ctx);
#elif PART == 1
    run<Cat<Wraps<int>, Wraps<std::string>>, false>(ctx);
    places<Cat<L<bool, char, double, std::string, Color, std::chrono::system_clock::time_point>, L<P, D, Vec<int>, StrMap<int>, std::set<int>, JS::JsonObject, UPtr<int>>>>(ctx);
#elif PART == 2
    run<Cat<Wraps<P>, Cat<Wraps<Color>, L<UPtr<UPtr<int>>, Vec<UPtr<int>>, StrMap<UPtr<int>>, std::optional<Vec<UPtr<int>>>, TupA<UPtr<int>>, UPtr<std::vector<bool>>>>>, false>(ctx);
#elif PART == 3
    run<Cat<Cat<Whole<JS::Nullable>, Whole<JS::NullableChecked>>, Cat<Whole<JS::Optional>, Whole<JS::OptionalChecked>>>, false>(ctx);
#elif PART == 4
    run<Cat<Cat<Whole<std::optional>, Whole<SPtr>>, Cat<Whole<UPtr>, Whole<Vec>>>, false>(ctx);
#elif PART == 5
    run<Cat<Cat<Whole<SVec>, Whole<Arr2>>, Cat<Whole<Avc2>, Whole<StrMap>>>, false>(ctx);
#elif PART == 6
    run<Cat<Whole<TupA>, Whole<TupB>>, false>(ctx);
    run<Cat<Cat<Part<Vec>, Part<StrMap>>, Cat<Part<TupA>, Part<JS::NullableChecked>>>, true>(ctx);
#endif
  });
}
