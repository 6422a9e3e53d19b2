// Reference tokenizer: the token stream and outcome of a complete byte string, written as a plain
// recursive definition over the whole text (no streaming state, no look-up tables, no vector code).
#pragma once
#include <string>
#include <vector>

namespace ref
{
enum class T
{
  String,
  Word, // unquoted text that is not a keyword
  Number,
  ObjectStart,
  ObjectEnd,
  ArrayStart,
  ArrayEnd,
  Bool,
  Null
};

struct Tok
{
  std::string name;
  T name_type = T::String; // meaningful only when named
  bool named = false;
  std::string value;
  T value_type = T::Null;
  size_t begin = 0, end = 0; // byte range of the value lexeme (including quotes)
};

struct Opt
{
  bool words = false, newlines = false, commas = false, comments = false;
};

enum class End
{
  NeedMore,
  Error
};

struct Result
{
  std::vector<Tok> toks;
  End end;
  bool balanced = false; // the text consumed is one or more complete documents and white space
};

class Reader
{
  const std::string &s;
  Opt o;
  size_t i = 0;

  enum Lex
  {
    OK,
    MORE,
    BAD
  };
  struct Lexeme
  {
    T t;
    std::string text;
    size_t b, e;
  };

  static bool ws(char c)
  {
    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\0';
  }
  static bool numstart(char c)
  {
    return (c >= '0' && c <= '9') || c == '+' || c == '-';
  }
  static bool numpart(char c)
  {
    return numstart(c) || c == '.' || c == 'e' || c == 'E';
  }
  static bool letter(char c)
  {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
  }
  static bool wordstart(char c)
  {
    return letter(c) || c == '_' || c == '^' || c == '`' || c == '.' || c == '/';
  }
  static bool wordpart(char c)
  {
    return wordstart(c) || (c >= '0' && c <= '9') || c == '-';
  }

  // skips white space and comments; with stop_at_newline a newline is significant
  Lex skip(bool stop_at_newline)
  {
    while (i < s.size())
    {
      if (o.comments && s[i] == '/' && i + 1 == s.size())
        return MORE;
      if (o.comments && s[i] == '/' && s[i + 1] == '/')
      {
        size_t nl = s.find('\n', i);
        if (nl == std::string::npos)
          return MORE;
        i = o.newlines ? nl : nl + 1;
        continue;
      }
      if (s[i] == '\n' && stop_at_newline)
        return OK;
      if (!ws(s[i]))
        return OK;
      i++;
    }
    return MORE;
  }

  Lex lexeme(Lexeme &l)
  {
    Lex r = skip(false);
    if (r != OK)
      return r;
    char c = s[i];
    l.b = i;
    switch (c)
    {
    case '{':
      l = {T::ObjectStart, "{", i, i + 1};
      i++;
      return OK;
    case '}':
      l = {T::ObjectEnd, "}", i, i + 1};
      i++;
      return OK;
    case '[':
      l = {T::ArrayStart, "[", i, i + 1};
      i++;
      return OK;
    case ']':
      l = {T::ArrayEnd, "]", i, i + 1};
      i++;
      return OK;
    default:
      break;
    }
    if (c == '"')
    {
      size_t j = i + 1;
      while (j < s.size() && s[j] != '"')
        j += s[j] == '\\' ? 2 : 1;
      if (j >= s.size())
        return MORE;
      l = {T::String, s.substr(i + 1, j - i - 1), i, j + 1};
      i = j + 1;
      return OK;
    }
    bool number = numstart(c);
    if (!number && !wordstart(c))
      return BAD;
    size_t j = i;
    while (j < s.size() && (number ? numpart(s[j]) : wordpart(s[j])))
      j++;
    if (j == s.size())
      return MORE;
    std::string t = s.substr(i, j - i);
    T ty = number ? T::Number : t == "true" || t == "false" ? T::Bool : t == "null" ? T::Null : T::Word;
    l = {ty, t, i, j};
    i = j;
    return OK;
  }

public:
  Reader(const std::string &text, Opt opt)
    : s(text)
    , o(opt)
  {
  }

  Result run()
  {
    Result r;
    r.end = End::Error;
    std::string stack;      // of '{' and '['
    bool after_comma = false; // a comma was consumed after a member or a nested container
    auto more = [&]() {
      r.end = End::NeedMore;
      return r;
    };
    auto emit = [&](const Lexeme &l) { r.toks.push_back({"", T::Word, false, l.text, l.t, l.b, l.e}); };
    for (;;)
    {
      // here: a name (in an object), an element (in an array) or a document is expected
      bool closed = false;
      Lexeme l;
      Lex x = lexeme(l);
      if (x == MORE)
      {
        r.balanced = stack.empty() && i == s.size();
        return more();
      }
      if (x == BAD)
        return r;
      if (l.t == T::ObjectEnd || l.t == T::ArrayEnd)
      {
        if (stack.empty() || stack.back() != (l.t == T::ObjectEnd ? '{' : '['))
          return r;
        if (after_comma && !o.commas)
          return r;
        stack.pop_back();
        emit(l);
        closed = true;
      }
      else if (l.t == T::ObjectStart || l.t == T::ArrayStart)
      {
        if (!stack.empty() && stack.back() == '{')
          return r;
        emit(l);
        stack.push_back(l.text[0]);
        after_comma = false;
        continue;
      }
      else if (stack.empty())
      {
        return i < s.size() ? r : more(); // a document is an object or an array
      }
      else if (stack.back() == '[')
      {
        x = skip(o.newlines);
        if (x == MORE)
          return more();
        char d = s[i];
        if (d != ',' && d != ']' && !(o.newlines && d == '\n'))
          return r;
        if (d != ']')
          i++;
        if (l.t == T::Word && !o.words)
          return r;
        emit(l);
        after_comma = false; // a comma after a scalar element may precede the closing bracket
        continue;
      }
      else
      {
        x = skip(o.newlines);
        if (x == MORE)
          return more();
        if (s[i] != ':')
          return r;
        i++;
        if (l.t != T::String && !(l.t == T::Word && o.words))
          return r;
        after_comma = false;
        Lexeme v;
        x = lexeme(v);
        if (x == MORE)
          return more();
        if (x == BAD || v.t == T::ObjectEnd || v.t == T::ArrayEnd)
          return r;
        if (v.t == T::Word && !o.words)
          return r;
        r.toks.push_back({l.text, l.t, true, v.text, v.t, v.b, v.e});
        if (v.t == T::ObjectStart || v.t == T::ArrayStart)
        {
          stack.push_back(v.text[0]);
          continue;
        }
        closed = true;
      }
      if (closed && !stack.empty())
      {
        x = skip(o.newlines);
        if (x == MORE)
          return more();
        if (s[i] == ',')
        {
          after_comma = true;
          i++;
        }
        else if (s[i] == '\n' && o.newlines)
          i++;
        else if (s[i] != ']' && s[i] != '}')
          return r;
      }
    }
  }
};

inline Result tokenize(const std::string &s, Opt o)
{
  return Reader(s, o).run();
}
} // namespace ref
