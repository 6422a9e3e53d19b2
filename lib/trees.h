// All JSON values up to a number of nodes.
#pragma once
#include "jv.h"
#include <functional>
#include <json_struct/json_struct.h>

namespace trees
{
struct Shape
{
  std::vector<JV> scalars;         // the leaves
  std::vector<std::string> names;  // the names a property may have
  bool distinct = false;           // the names of an object differ
};

inline void forests(const Shape &s, const std::vector<std::vector<JV>> &by, int n, std::vector<JV> &kids, const std::function<void(const std::vector<JV> &)> &out)
{
  if (n == 0)
    return out(kids);
  for (int first = 1; first <= n; first++)
    for (auto &v : by[size_t(first)])
    {
      kids.push_back(v);
      forests(s, by, n - first, kids, out);
      kids.pop_back();
    }
}
inline void namings(const Shape &s, std::vector<JV> &kids, size_t i, const std::function<void()> &out)
{
  if (i == kids.size())
    return out();
  for (auto &n : s.names)
  {
    bool used = false;
    for (size_t k = 0; s.distinct && k < i; k++)
      used = used || kids[k].name == n;
    if (used)
      continue;
    kids[i].name = n;
    namings(s, kids, i + 1, out);
  }
}
inline JV leaf(JV::Kind k, const std::string &text = "")
{
  JV v;
  v.kind = k;
  v.text = text;
  return v;
}
// [n] holds every value of n nodes
inline std::vector<std::vector<JV>> all(const Shape &s, int max)
{
  std::vector<std::vector<JV>> by(size_t(max) + 1);
  by[1] = s.scalars;
  by[1].push_back(leaf(JV::Obj));
  by[1].push_back(leaf(JV::Arr));
  for (int n = 2; n <= max; n++)
  {
    std::vector<JV> kids, &r = by[size_t(n)];
    forests(s, by, n - 1, kids, [&](const std::vector<JV> &f) {
      JV a = leaf(JV::Arr);
      a.kids = f;
      r.push_back(a);
      JV o = leaf(JV::Obj);
      o.kids = f;
      namings(s, o.kids, 0, [&] { r.push_back(o); });
    });
  }
  return by;
}

// the tokens of a value, into a list that keeps their texts
struct Tokens
{
  std::vector<JS::Token> list;
  std::vector<std::string> names, texts;

  explicit Tokens(const JV &v)
  {
    add(v, false, JV());
    for (size_t i = 0; i < list.size(); i++)
    {
      list[i].name = JS::DataRef(names[i].data(), names[i].size());
      list[i].value = JS::DataRef(texts[i].data(), texts[i].size());
    }
  }

private:
  void put(JS::Type t, const std::string &name, const std::string &text)
  {
    JS::Token k;
    k.name_type = JS::Type::String;
    k.value_type = t;
    list.push_back(k);
    names.push_back(name);
    texts.push_back(text);
  }
  void add(const JV &v, bool, const JV &)
  {
    static const JS::Type map[] = {JS::Type::Null, JS::Type::Bool, JS::Type::Number, JS::Type::String, JS::Type::Ascii};
    if (!v.container())
      return put(map[v.kind], v.name, v.text);
    bool obj = v.kind == JV::Obj;
    put(obj ? JS::Type::ObjectStart : JS::Type::ArrayStart, v.name, obj ? "{" : "[");
    for (auto &k : v.kids)
      add(k, false, JV());
    put(obj ? JS::Type::ObjectEnd : JS::Type::ArrayEnd, "", obj ? "}" : "]");
  }
};
// n containers inside each other, objects and arrays in turn as the bits of pattern say
inline JV nest(size_t n, unsigned pattern, const JV &inner)
{
  JV v = inner;
  for (size_t i = 0; i < n; i++)
  {
    JV o = leaf(pattern >> (i % 8) & 1 ? JV::Obj : JV::Arr);
    v.name = o.kind == JV::Obj ? "n" : "";
    o.kids.push_back(v);
    if (i % 3 == 0)
    {
      JV w = leaf(JV::Num, "1");
      w.name = o.kind == JV::Obj ? "m" : "";
      o.kids.push_back(w);
    }
    v = o;
  }
  v.name.clear();
  return v;
}
} // namespace trees
