// Driving the implementation's tokenizer and comparing with the reference.
#pragma once
#include "mc.h"
#include "ref_tok.h"
#include <json_struct/json_struct.h>

struct RunTok
{
  std::string name, value;
  JS::Type nt, vt;
  bool operator==(const RunTok &o) const
  {
    return name == o.name && value == o.value && nt == o.nt && vt == o.vt;
  }
};
struct Run
{
  std::vector<RunTok> toks;
  JS::Error end = JS::Error::NoError;
  bool runaway = false;
  bool operator==(const Run &o) const
  {
    return end == o.end && toks == o.toks && runaway == o.runaway;
  }
};

inline uint64_t hash_run(const Run &r)
{
  mc::Hash h;
  for (auto &k : r.toks)
    h.add(k.name).add(k.value).add(uint64_t(k.nt) << 8 | uint64_t(k.vt));
  return h.add(uint64_t(r.end)).get();
}

inline void set_flags(JS::Tokenizer &t, const ref::Opt &o)
{
  t.allowAsciiType(o.words);
  t.allowNewLineAsTokenDelimiter(o.newlines);
  t.allowSuperfluousComma(o.commas);
  t.allowComments(o.comments);
}
inline ref::Opt opt_of(int bits)
{
  ref::Opt o;
  o.words = bits & 1;
  o.newlines = bits & 2;
  o.commas = bits & 4;
  o.comments = bits & 8;
  return o;
}

inline RunTok snap(const JS::Token &k)
{
  return RunTok{std::string(k.name.data, k.name.size), std::string(k.value.data, k.value.size), k.name_type,
                k.value_type};
}

inline void drain(JS::Tokenizer &t, Run &r, size_t limit)
{
  JS::Token k;
  for (;;)
  {
    r.end = t.nextToken(k);
    if (r.end != JS::Error::NoError)
      return;
    r.toks.push_back(snap(k));
    if (r.toks.size() > limit)
    {
      r.runaway = true;
      return;
    }
  }
}

// one contiguous buffer, an exact-size heap block so that a sanitizer sees any overrun
inline Run run_whole(const std::string &s, const ref::Opt &o)
{
  Run r;
  JS::Tokenizer t;
  set_flags(t, o);
  std::vector<char> buf(s.begin(), s.end());
  buf.shrink_to_fit();
  char one = 0;
  t.addData(buf.empty() ? &one : buf.data(), buf.size());
  drain(t, r, s.size() + 2);
  return r;
}

inline ref::T conv(JS::Type t, bool &known)
{
  known = true;
  switch (t)
  {
  case JS::Type::String:
    return ref::T::String;
  case JS::Type::Ascii:
    return ref::T::Word;
  case JS::Type::Number:
    return ref::T::Number;
  case JS::Type::ObjectStart:
    return ref::T::ObjectStart;
  case JS::Type::ObjectEnd:
    return ref::T::ObjectEnd;
  case JS::Type::ArrayStart:
    return ref::T::ArrayStart;
  case JS::Type::ArrayEnd:
    return ref::T::ArrayEnd;
  case JS::Type::Bool:
    return ref::T::Bool;
  case JS::Type::Null:
    return ref::T::Null;
  default:
    known = false;
    return ref::T::Word;
  }
}

inline std::string show_run(const Run &r)
{
  std::string o;
  for (auto &k : r.toks)
    o += "[" + k.name + ":" + std::to_string(int(k.nt)) + "|" + k.value + ":" + std::to_string(int(k.vt)) + "]";
  return o + " -> " + std::to_string(int(r.end)) + (r.runaway ? " runaway" : "");
}
inline std::string show_ref(const ref::Result &r)
{
  std::string o;
  for (auto &k : r.toks)
    o += "[" + k.name + "|" + k.value + ":" + std::to_string(int(k.value_type)) + "]";
  return o + (r.end == ref::End::NeedMore ? " -> more" : " -> error");
}

// "" when equal
inline std::string diff_ref(const Run &r, const ref::Result &m)
{
  bool same = !r.runaway && r.toks.size() == m.toks.size() &&
              (r.end == JS::Error::NeedMoreData) == (m.end == ref::End::NeedMore);
  for (size_t i = 0; same && i < r.toks.size(); i++)
  {
    bool k1, k2;
    const RunTok &a = r.toks[i];
    const ref::Tok &b = m.toks[i];
    same = a.value == b.value && conv(a.vt, k1) == b.value_type && k1 && a.name == b.name;
    if (same && b.named)
      same = conv(a.nt, k2) == b.name_type && k2;
  }
  return same ? "" : "impl: " + show_run(r) + "\nref:  " + show_ref(m);
}
