#pragma once
#include <string>
#include <vector>
struct PlainTok
{
  std::string name, value;
  int nt, vt;
  bool operator==(const PlainTok &o) const
  {
    return name == o.name && value == o.value && nt == o.nt && vt == o.vt;
  }
};
struct PlainRun
{
  std::vector<PlainTok> toks;
  int end = 0;
  bool operator==(const PlainRun &o) const
  {
    return end == o.end && toks == o.toks;
  }
};
struct Unit
{
  const char *name;
  void (*run)(const char *const *piece, const size_t *size, int n, int flags, PlainRun &out);
};
// a unit registers itself when it is linked in
void register_unit(const Unit &);
