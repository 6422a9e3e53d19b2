// Small documents: alphabets of values and systematic changes of a value.
#pragma once
#include "jv.h"
#include <functional>

namespace docs
{
inline JV val(const std::string &text)
{
  JV v;
  if (!jv::first("[" + text + "]", v) || v.kids.size() != 1)
  {
    fprintf(stderr, "bad value in an alphabet: %s\n", text.c_str());
    abort();
  }
  return v.kids[0];
}
inline std::vector<JV> vals(const std::vector<std::string> &t)
{
  std::vector<JV> r;
  for (auto &s : t)
    r.push_back(val(s));
  return r;
}
// every value obtained from v by one change: a node replaced by one of `repl`, a child removed,
// repeated or renamed, two neighbours swapped
inline void changes(const JV &v, const std::vector<JV> &repl, const std::function<void(const JV &)> &out)
{
  for (auto &r : repl)
  {
    JV x = r;
    x.name = v.name;
    out(x);
  }
  for (size_t i = 0; i < v.kids.size(); i++)
  {
    JV w = v;
    w.kids.erase(w.kids.begin() + long(i));
    out(w);
    w = v;
    w.kids.insert(w.kids.begin() + long(i), v.kids[i]);
    out(w);
    if (i + 1 < v.kids.size())
    {
      w = v;
      std::swap(w.kids[i], w.kids[i + 1]);
      out(w);
    }
    if (v.kind == JV::Obj)
    {
      w = v;
      w.kids[i].name += "_";
      out(w);
    }
    changes(v.kids[i], repl, [&](const JV &k) {
      JV z = v;
      z.kids[i] = k;
      out(z);
    });
  }
}
// with white space everywhere it may stand
inline std::string spaced(const JV &v)
{
  std::string o;
  if (v.container())
  {
    o = v.kind == JV::Obj ? "{ " : "[ ";
    for (size_t i = 0; i < v.kids.size(); i++)
    {
      if (i)
        o += "\n, ";
      if (v.kind == JV::Obj)
        o += '"' + v.kids[i].name + "\" :\t";
      o += spaced(v.kids[i]);
    }
    return o + (v.kind == JV::Obj ? " \r\n}" : " ]");
  }
  return v.kind == JV::Str ? '"' + v.text + '"' : v.text;
}
} // namespace docs
