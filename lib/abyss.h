// Values deeper than a model that follows their structure could go: only their text is known.
#pragma once
#include <string>
#include <vector>

namespace abyss
{
inline const std::vector<size_t> &depths()
{
  static const std::vector<size_t> d = {2, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537};
  return d;
}
enum
{
  ARRAYS,
  OBJECTS,
  MIXED,
  MIXED_OBJECT_FIRST,
  SIDES, // something on both sides of what is inside
  PATTERNS
};
inline std::string value(int pattern, size_t depth)
{
  auto array = [&](size_t i) { return pattern == ARRAYS || (pattern == MIXED && i % 2 == 0) || (pattern == MIXED_OBJECT_FIRST && i % 2) || (pattern == SIDES && i % 3 != 1); };
  std::string open, close;
  for (size_t i = 0; i < depth; i++)
    open += array(i) ? (pattern == SIDES ? "[{}," : "[") : (pattern == SIDES ? "{\"a\":[],\"b\":" : "{\"a\":");
  for (size_t i = depth; i--;)
    close += array(i) ? (pattern == SIDES ? ",[]]" : "]") : (pattern == SIDES ? ",\"c\":{}}" : "}");
  return open + "1" + close;
}
inline std::string what(int pattern, size_t depth)
{
  static const char *names[] = {"arrays", "objects", "arrays of objects", "objects of arrays", "containers with siblings"};
  return std::to_string(depth) + " nested " + names[pattern];
}
} // namespace abyss
