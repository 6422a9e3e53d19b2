// Values of every kind for members of every type: accepted or refused as the model says, and when
// accepted every neighbour holds what its own property says.
#include "docs.h"
#include "types.h"
#include "scale.h"

#ifndef PART
#define PART 0
#endif

static const std::vector<JV> &scalars()
{
  static const std::vector<JV> v = docs::vals({"null", "true", "false", "0", "7", "-1", "1.5", "300", "1e3", "\"\"", "\"a\"", "\"7\"",
                                               "\"true\"", "\"null\"", "\"red\"", "\"\\u0041\\n\""});
  return v;
}
static const std::vector<JV> &alphabet(bool thorough)
{
  static std::vector<JV> v;
  if (!v.empty())
    return v;
  v = scalars();
  std::vector<JV> few = docs::vals({"null", "7", "\"a\"", "true"});
  std::vector<JV> lvl1;
  for (const char *t : {"[]", "{}"})
    lvl1.push_back(docs::val(t));
  auto arr = [](std::vector<JV> k) {
    JV a;
    a.kind = JV::Arr;
    for (auto &x : k)
      x.name = "";
    a.kids = k;
    return a;
  };
  auto obj = [](std::vector<std::pair<std::string, JV>> k) {
    JV o;
    o.kind = JV::Obj;
    for (auto &x : k)
    {
      JV y = x.second;
      y.name = x.first;
      o.kids.push_back(y);
    }
    return o;
  };
  for (auto &a : scalars())
    lvl1.push_back(arr({a}));
  for (auto &a : few)
    for (auto &b : few)
    {
      lvl1.push_back(arr({a, b}));
      lvl1.push_back(obj({{"p", a}, {"q", b}}));
      lvl1.push_back(obj({{"k", a}, {"p", b}}));
    }
  lvl1.push_back(arr({few[1], few[1], few[1]}));
  for (auto &a : few)
    for (const char *n : {"p", "x", "first", ""})
      lvl1.push_back(obj({{n, a}}));
  v.insert(v.end(), lvl1.begin(), lvl1.end());
  std::vector<JV> some = docs::vals({"[]", "{}", "[7]", "[\"a\",7]", "{\"p\":7}", "{\"k\":\"a\"}", "[null]"});
  for (auto &a : thorough ? lvl1 : some)
  {
    v.push_back(arr({a}));
    v.push_back(arr({a, few[1]}));
    v.push_back(arr({few[1], a}));
    v.push_back(arr({a, a}));
    v.push_back(obj({{"p", a}}));
    v.push_back(obj({{"inner", a}, {"l", arr({})}}));
    v.push_back(obj({{"k", a}, {"last", few[1]}}));
    v.push_back(arr({arr({a})}));
    v.push_back(arr({obj({{"last", a}, {"x", few[0]}})}));
  }
  return v;
}

// everything tried as the value of a T
static void values(bool thorough, size_t n, bool (*written)(size_t, JV &), const std::function<void(const JV &)> &out)
{
  static const std::vector<JV> few = docs::vals({"null", "7", "\"a\"", "[]", "{}", "[7]", "{\"p\":7}", "true", "[\"a\",7]", "-1.5e1"});
  for (auto &v : alphabet(true))
    out(v);
  size_t limit = thorough ? 24 : 12;
  size_t step = n <= limit ? 1 : n / limit;
  for (size_t i = 0; i < n; i += step)
  {
    JV v;
    if (!written(i, v))
      continue;
    out(v);
    if (jv::nodes(v) <= 24)
      docs::changes(v, thorough ? alphabet(true) : few, out);
  }
}

struct Ops // one type in all its places
{
  const char *name;
  size_t count;
  bool (*written)(size_t, JV &);
  Compare mid, mid_filled, tuple, vec, map, self, self_filled;
};

// a map of these does not compile
template <class T>
struct is_ref : std::integral_constant<bool, std::is_same<T, JS::JsonObjectRef>::value || std::is_same<T, JS::JsonArrayRef>::value ||
                                               std::is_same<T, JS::JsonObjectOrArrayRef>::value>
{
};

template <class T>
struct OpsOf
{
  static bool written(size_t i, JV &v)
  {
    Mid<T> m;
    fill_from<T>::set(m.x, i);
    return M<T>::write(m.x, v);
  }
  static Ops get()
  {
    Ops o = {type_name<T>(), M<T>::count(), written, compare_fresh<Mid<T>>, compare_filled<Mid<T>>, nullptr, nullptr, nullptr, nullptr, nullptr};
    if constexpr (!std::is_array<T>::value)
    {
      o.self = compare_fresh<T>;
#if PART <= 2
      o.self_filled = compare_filled<T>;
      o.tuple = compare_fresh<std::tuple<T, T>>;
      o.vec = compare_fresh<std::vector<T>>;
      if constexpr (!is_ref<T>::value)
        o.map = compare_fresh<StrMap<T>>;
#endif
    }
    return o;
  }
};

static void one(mc::Ctx &ctx, const Ops &ops, Compare cmp, const char *place, const std::string &text)
{
  if (!cmp)
    return;
  ctx.exec([&] { return std::string(ops.name) + " " + place + " <- " + mc::show(text); },
           [&] {
             JV doc;
             bool whole = jv::first(text, doc);
             bool accepted = false;
             uint64_t st = 0;
             std::string r = cmp(text, whole ? &doc : nullptr, &accepted, &st);
             ctx.state(st);
             ctx.steps(jv::nodes(doc));
             if (accepted)
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("differs from the model", r);
           });
}

static JV num(const char *name, const char *text)
{
  JV v;
  v.kind = JV::Num;
  v.name = name;
  v.text = text;
  return v;
}

static void type(mc::Ctx &ctx, const Ops &ops)
{
  ctx.block([&] {
    bool th = ctx.thorough;
    size_t k = 0;
    values(th, ops.count, ops.written, [&](const JV &v0) {
      k++;
      JV x = v0;
      x.name = "x";
      auto sp = [&](const JV &d) { return k % 2 ? jv::show(d) : docs::spaced(d); };
      // between its neighbours, in each position and with a property nobody knows
      JV o;
      o.kind = JV::Obj;
      JV unk = docs::val("{\"x\":[1,{\"last\":5}]}");
      unk.name = "nobody";
      std::vector<std::vector<JV>> orders = {{num("first", "11"), x, num("last", "22")},
                                             {x, num("first", "11"), num("last", "22")},
                                             {num("first", "11"), num("last", "22"), x},
                                             {num("last", "22"), unk, x, unk, num("first", "11")}};
      for (auto &ord : orders)
      {
        o.kids = ord;
        one(ctx, ops, ops.mid, "member", sp(o));
        if (th || &ord == &orders[0])
          one(ctx, ops, ops.mid_filled, "filled member", sp(o));
      }
      // twice
      o.kids = {x, num("x", "7"), num("last", "22")};
      one(ctx, ops, ops.mid, "member", sp(o));
      // as an element and as a mapped value, with neighbours
      JV a, e = x;
      a.kind = JV::Arr;
      e.name = "";
      a.kids = {e, e};
      one(ctx, ops, ops.tuple, "in tuple", sp(a));
      one(ctx, ops, ops.vec, "in vector", sp(a));
      JV m, k1 = x, k2 = x;
      m.kind = JV::Obj;
      k1.name = "a";
      k2.name = "b";
      m.kids = {k1, k2};
      one(ctx, ops, ops.map, "in map", sp(m));
      if (v0.container())
      {
        one(ctx, ops, ops.self, "alone", sp(e));
        one(ctx, ops, ops.self_filled, "alone, filled", sp(e));
      }
    });
  });
}

// many elements, many properties, long texts, deep values
static void large(mc::Ctx &ctx, const Ops &ops)
{
  bool th = ctx.thorough;
  for (size_t n : scale::ladder(th ? 2050 : 130))
    ctx.block([&] {
      auto run = [&](const std::string &v) {
        one(ctx, ops, ops.mid, "member", "{\"first\":11,\"x\":" + v + ",\"last\":22}");
        one(ctx, ops, ops.mid, "unknown member", "{\"first\":11,\"y\":" + v + ",\"last\":22}");
        one(ctx, ops, ops.mid_filled, "filled member", "{\"first\":11,\"x\":" + v + ",\"last\":22}");
        one(ctx, ops, ops.tuple, "in tuple", "[" + v + "," + v + "]");
        one(ctx, ops, ops.vec, "in vector", "[" + v + "," + v + "]");
        one(ctx, ops, ops.map, "in map", "{\"a\":" + v + ",\"b\":" + v + "}");
        if (v[0] == '[' || v[0] == '{')
        {
          one(ctx, ops, ops.self, "alone", v);
          one(ctx, ops, ops.self_filled, "alone, filled", v);
        }
      };
      for (const char *e : {"7", "true", "\"a\"", "\"red\"", "null", "[7]", "{\"p\":7,\"q\":\"a\"}", "{\"k\":7}", "[\"a\",7]"})
      {
        run("[" + scale::list(n, ",", [&](size_t) { return std::string(e); }) + "]");
        run("{" + scale::list(n, ",", [&](size_t i) { return "\"k" + std::to_string(i) + "\":" + e; }) + "}");
        // all right but for one of them
        run("[" + scale::list(n, ",", [&](size_t i) { return std::string(i + 1 == n ? "{\"no\":[1]}" : e); }) + "]");
      }
      for (int k = 0; k < scale::STRICT_KINDS; k++)
        run(scale::value(k, n));
    });
}

template <template <class> class W>
using Nest = L<W<std::optional<int>>, W<JS::NullableChecked<int>>, W<JS::OptionalChecked<std::string>>, W<SPtr<int>>, W<Vec<int>>,
               W<JS::OneOrMany<int>>, W<Arr2<int>>, W<Avc2<int>>, W<StrMap<int>>, W<TupA<int>>, W<TupB<bool>>, W<Q>>;

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
#if PART == 0
    using Ts = Cat<Cat<Scalars, Cat<Times, Structs>>, Cat<Cat<Raws, Sets>, L<int[2], P[2], std::string[2], std::vector<bool>, JS::SilentString>>>;
#elif PART == 1
    using Ts = Cat<Wraps<int>, Wraps<std::string>>;
#elif PART == 2
    using Ts = Cat<Wraps<P>, Cat<Wraps<Color>, L<UPtr<UPtr<int>>, SPtr<UPtr<int>>, Vec<UPtr<int>>, StrMap<UPtr<int>>, std::optional<UPtr<int>>, TupA<UPtr<int>>, UPtr<std::vector<bool>>, StrMap<std::vector<bool>>>>>;
#elif PART == 3
    using Ts = Cat<Cat<Nest<JS::Nullable>, Nest<JS::NullableChecked>>, Cat<Nest<JS::Optional>, Nest<JS::OptionalChecked>>>;
#elif PART == 4
    using Ts = Cat<Cat<Nest<std::optional>, Nest<SPtr>>, Cat<Nest<UPtr>, Nest<Vec>>>;
#elif PART == 5
    using Ts = Cat<Cat<Nest<JS::OneOrMany>, Nest<Arr2>>, Cat<Nest<Avc2>, Nest<StrMap>>>;
#else
    using Ts = Cat<Nest<TupA>, Nest<TupB>>;
#endif
    each(Ts(), [&](auto t) { type(ctx, OpsOf<typename decltype(t)::type>::get()); });
#if PART == 0
    // the numbers on both sides of every change of unit and of what a point in time can hold
    each(Times(), [&](auto t) {
      const Ops ops = OpsOf<typename decltype(t)::type>::get();
      for (const char *at : {"0", "9223372036", "100000000000", "9223372036854", "100000000000000", "9223372036854775", "100000000000000000", "9223372036854775807", "18446744073709551615"})
        ctx.block([&] {
          unsigned __int128 n = 0;
          for (const char *c = at; *c; c++)
            n = n * 10 + unsigned(*c - '0');
          for (unsigned __int128 k = n > 300 ? n - 300 : 0; k <= n + 300; k++)
            for (const char *q : {"", "\""})
            {
              one(ctx, ops, ops.mid, "member", std::string("{\"first\":11,\"x\":") + q + int_text(k) + q + ",\"last\":22}");
              one(ctx, ops, ops.mid_filled, "filled member", std::string("{\"x\":") + q + int_text(k) + q + "}");
            }
        });
    });
#endif
#if PART == 0
    // texts next to the ones that are accepted
    each(Scalars(), [&](auto t) {
      const Ops ops = OpsOf<typename decltype(t)::type>::get();
      ctx.block([&] {
        std::set<std::string> near;
        for (std::string k : {"true", "false", "null", "red", "7", "-12", "1.5", "2e3", "255", "a"})
        {
          near.insert(k);
          for (size_t i = 0; i <= k.size(); i++)
            for (const char *c : {"e", "E", "x", "0", "7", ".", "-", "+", "r", "s", "\\n", "\\u0065", "\\\\", "\xc3\xa9", ""})
            {
              near.insert(k.substr(0, i) + c + k.substr(i));
              if (i < k.size())
                near.insert(k.substr(0, i) + c + k.substr(i + 1));
            }
        }
        for (auto &n : near)
          for (const char *q : {"\"", ""})
          {
            one(ctx, ops, ops.mid, "member", std::string("{\"first\":11,\"x\":") + q + n + q + ",\"last\":22}");
            one(ctx, ops, ops.mid_filled, "filled member", std::string("{\"x\":") + q + n + q + ",\"last\":22}");
            one(ctx, ops, ops.vec, "in vector", std::string("[") + q + n + q + "," + q + n + q + "]");
          }
      });
    });
#endif
    each(Ts(), [&](auto t) { large(ctx, OpsOf<typename decltype(t)::type>::get()); });
  });
}
