// The text of a value in a style.
#pragma once
#include "jv.h"

namespace layout
{
struct Style
{
  bool pretty = true, quote_words = true, word_names = false;
  int shift = 2;
};
inline bool is_word(const std::string &s)
{
  for (char c : s)
    if (!(c >= 'a' && c <= 'z') && !(c >= '0' && c <= '9'))
      return false;
  return !s.empty();
}
// what the options say the text of v is
template <class O>
void model(const JV &v, bool in_object, int depth, bool comma, bool &first, const O &o, std::string &out)
{
  auto start = [&](int d) {
    if (!first && o.pretty)
      out += '\n';
    first = false;
    if (o.pretty)
      out += std::string(size_t(d * o.shift), ' ');
  };
  if (comma)
    out += ',';
  start(depth);
  if (in_object)
    out += (o.word_names && !o.quote_words && is_word(v.name) ? v.name : '"' + v.name + '"') + (o.pretty ? ": " : ":");
  if (!v.container())
  {
    bool q = v.kind == JV::Str || (v.kind == JV::Word && o.quote_words);
    out += q ? '"' + v.text + '"' : v.text;
    return;
  }
  out += v.kind == JV::Obj ? '{' : '[';
  for (size_t i = 0; i < v.kids.size(); i++)
    model(v.kids[i], v.kind == JV::Obj, depth + 1, i > 0, first, o, out);
  start(depth);
  out += v.kind == JV::Obj ? '}' : ']';
}
inline std::string of(const JV &v, const Style &o)
{
  std::string out;
  bool first = true;
  model(v, false, 0, false, first, o, out);
  return out;
}
} // namespace layout
