// JSON values as trees, built from the reference tokens of a text.
#pragma once
#include "ref_num.h"
#include "ref_str.h"
#include "ref_tok.h"
#include <utility>

struct JV
{
  enum Kind
  {
    Null,
    Bool,
    Num,
    Str,
    Word,
    Obj,
    Arr
  } kind = Null;
  std::string text;        // of a scalar, as written between its quotes if it has any
  std::string name;        // as written
  size_t b = 0, e = 0;     // where it is in its source, brackets and quotes included
  std::vector<JV> kids;
  bool container() const
  {
    return kind == Obj || kind == Arr;
  }
};

namespace jv
{
inline JV::Kind kind_of(ref::T t)
{
  switch (t)
  {
  case ref::T::String:
    return JV::Str;
  case ref::T::Word:
    return JV::Word;
  case ref::T::Number:
    return JV::Num;
  case ref::T::Bool:
    return JV::Bool;
  case ref::T::Null:
    return JV::Null;
  case ref::T::ObjectStart:
    return JV::Obj;
  default:
    return JV::Arr;
  }
}
// the value that starts at token i; false if the tokens end before it does
inline bool build(const ref::Result &r, size_t &i, JV &v)
{
  if (i >= r.toks.size())
    return false;
  const ref::Tok &t = r.toks[i++];
  v.kind = kind_of(t.value_type);
  v.name = t.name;
  v.b = t.begin;
  v.e = t.end;
  v.kids.clear();
  if (!v.container())
  {
    v.text = t.value;
    return true;
  }
  for (;;)
  {
    if (i >= r.toks.size())
      return false;
    ref::T k = r.toks[i].value_type;
    if (k == ref::T::ObjectEnd || k == ref::T::ArrayEnd)
    {
      v.e = r.toks[i++].end;
      return true;
    }
    v.kids.emplace_back();
    if (!build(r, i, v.kids.back()))
      return false;
  }
}
// the first document of a text; false if it has no complete one
inline bool first(const std::string &text, JV &v, ref::Opt o = {})
{
  ref::Result r = ref::tokenize(text, o);
  size_t i = 0;
  return build(r, i, v);
}
// the only document of a text that is well-formed from end to end
inline bool document(const std::string &text, JV &v, ref::Opt o = {})
{
  ref::Result r = ref::tokenize(text, o);
  size_t i = 0;
  return build(r, i, v) && i == r.toks.size() && r.end == ref::End::NeedMore && r.balanced;
}
inline std::string show(const JV &v)
{
  std::string o;
  if (v.kind == JV::Obj || v.kind == JV::Arr)
  {
    o = v.kind == JV::Obj ? "{" : "[";
    for (size_t i = 0; i < v.kids.size(); i++)
    {
      if (i)
        o += ',';
      if (v.kind == JV::Obj)
        o += '"' + v.kids[i].name + "\":";
      o += show(v.kids[i]);
    }
    return o + (v.kind == JV::Obj ? "}" : "]");
  }
  return v.kind == JV::Str ? '"' + v.text + '"' : v.text;
}
// same structure, names, kinds and values (numbers by value, strings by what they denote)
inline bool same(const JV &a, const JV &b)
{
  if (a.kind != b.kind || a.kids.size() != b.kids.size())
    return false;
  if (a.kind == JV::Num)
    return ref::norm_num(a.text) == ref::norm_num(b.text);
  if (!a.container())
    return ref::decode(a.text) == ref::decode(b.text);
  for (size_t i = 0; i < a.kids.size(); i++)
    if (ref::decode(a.kids[i].name) != ref::decode(b.kids[i].name) || !same(a.kids[i], b.kids[i]))
      return false;
  return true;
}
// same structure and texts, as written
inline bool identical(const JV &a, const JV &b)
{
  if (a.kind != b.kind || a.kids.size() != b.kids.size() || a.text != b.text)
    return false;
  for (size_t i = 0; i < a.kids.size(); i++)
    if (a.kids[i].name != b.kids[i].name || !identical(a.kids[i], b.kids[i]))
      return false;
  return true;
}
inline size_t depth(const JV &v)
{
  size_t d = 0;
  for (auto &k : v.kids)
    d = std::max(d, depth(k));
  return d + 1;
}
inline size_t nodes(const JV &v)
{
  size_t n = 1;
  for (auto &k : v.kids)
    n += nodes(k);
  return n;
}
} // namespace jv
