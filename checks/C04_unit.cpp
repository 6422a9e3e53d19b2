// The library in one build configuration, under a namespace of its own, behind a plain interface.
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
#define JS CAT(JS_, UNIT)
#include <json_struct/json_struct.h>
#include "C04_unit.h"

static void run(const char *const *piece, const size_t *size, int n, int flags, PlainRun &out)
{
  JS::Tokenizer t;
  t.allowAsciiType(flags & 1);
  t.allowNewLineAsTokenDelimiter(flags & 2);
  t.allowSuperfluousComma(flags & 4);
  t.allowComments(flags & 8);
  size_t total = 2;
  for (int i = 0; i < n; i++)
  {
    t.addData(piece[i], size[i]);
    total += size[i];
  }
  JS::Token k;
  for (;;)
  {
    JS::Error e = t.nextToken(k);
    out.end = int(e);
    if (e != JS::Error::NoError)
      return;
    out.toks.push_back({std::string(k.name.data, k.name.size), std::string(k.value.data, k.value.size), int(k.name_type), int(k.value_type)});
    if (out.toks.size() > total)
    {
      out.end = -1;
      return;
    }
  }
}
static struct Reg
{
  Reg()
  {
    register_unit(Unit{STR(UNIT), run});
  }
} reg;
