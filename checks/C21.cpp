// The report of every error: names it, quotes the line of the place where it was found, marker under it.
#include "types.h"
#include "chunks.h"
#include "docs.h"
#include "scale.h"

static const char *name_of(JS::Error e)
{
  switch (e)
  {
#define N(x)                                                                                                                                                                                                                              \
  case JS::Error::x:                                                                                                                                                                                                                      \
    return #x;
    N(InvalidToken) N(ExpectedPropertyName) N(ExpectedDelimiter) N(ExpectedDataToken) N(ExpectedObjectStart) N(ExpectedObjectEnd) N(ExpectedArrayStart) N(ExpectedArrayEnd) N(UnexpectedArrayEnd) N(UnexpectedObjectEnd)
      N(IllegalPropertyName) N(IllegalPropertyType) N(IllegalDataValue) N(EncounteredIllegalChar) N(NodeNotFound) N(MissingPropertyMember) N(MissingFunction) N(FailedToParseBoolean) N(FailedToParseDouble) N(FailedToParseFloat)
        N(FailedToParseInt) N(UnassignedRequiredMember) N(NonContigiousMemory) N(ScopeHasEnded) N(KeyNotFound) N(DuplicateInSet) N(UnknownPropertyMember) N(UnknownError) N(NeedMoreData)
#undef N
          default : return "";
  }
}

struct Config
{
  size_t lines, range;
};

// `data` is the buffer the place lies in; "" when the report is right
static std::string wrong(const std::string &report, JS::Error e, const std::string &message, const std::string &data, size_t place, const Config &c)
{
  std::string head = "Error";
  if (*name_of(e))
    head += std::string(" ") + name_of(e);
  if (!message.empty())
    head += " " + message;
  head += ":\n";
  if (report.compare(0, head.size(), head) != 0)
    return "does not name the error " + std::string(name_of(e));
  if (report.back() != '\n')
    return "its last line is not ended";
  std::vector<std::string> got;
  for (size_t i = head.size(); i < report.size();)
  {
    size_t n = report.find('\n', i);
    got.push_back(report.substr(i, n - i));
    i = n + 1;
  }
  // the marker
  size_t at = got.size(), col = 0;
  for (size_t i = 0; i < got.size(); i++)
    if (!got[i].empty() && got[i].back() == '^' && got[i].find_first_not_of(' ') == got[i].size() - 1)
    {
      if (at != got.size())
        return "two markers";
      at = i;
      col = got[i].size() - 1;
    }
  if (at == got.size())
    return "no marker";
  if (at == 0)
    return "no line above the marker";
  got.erase(got.begin() + long(at));
  size_t cur = at - 1; // the line of the place
  // the lines of the buffer
  std::vector<std::string> all;
  size_t line = 0, in_line = 0;
  for (size_t i = 0, start = 0;; i++)
    if (i == data.size() || data[i] == '\n')
    {
      if (start <= place && place <= i)
      {
        line = all.size();
        in_line = place - start;
      }
      all.push_back(data.substr(start, i - start));
      start = i + 1;
      if (i == data.size())
        break;
    }
  // what is quoted of the line of the place
  if (col > in_line || col > got[cur].size())
    return "the marker is outside the line";
  size_t from = in_line - col;
  if (all[line].compare(from, got[cur].size(), got[cur]) != 0 || from + got[cur].size() > all[line].size())
    return "the line of the place is not quoted, or the marker is not under it";
  size_t left = std::min(in_line, c.range), right = std::min(all[line].size() - in_line, c.range);
  if (col < left || got[cur].size() - col < right)
    return "less than the configured range of the line is quoted";
  // its neighbours, cut at the ends if they are far away
  size_t before = cur, after = got.size() - 1 - cur, most = c.lines ? c.lines - 1 : 0;
  if (before > most || after > most)
    return "more lines than configured";
  if (before > line || after > all.size() - 1 - line)
    return "more lines than there are";
  for (size_t i = 0; i < got.size(); i++)
  {
    if (i == cur)
      continue;
    const std::string &l = all[line + i - cur], &g = got[i];
    bool same = g == l;
    if (!same && i == 0)
      same = g.size() < l.size() && l.compare(l.size() - g.size(), g.size(), g) == 0 && place > 256;
    if (!same && i + 1 == got.size())
      same = g.size() < l.size() && l.compare(0, g.size(), g) == 0 && data.size() - place > 256;
    if (!same)
      return "a neighbouring line is not quoted right";
  }
  if (got.size() > 1 && data.size() < 256 && got[cur] != all[line])
    return "the line is not quoted whole";
  if (got.size() == 1 && (got[0].size() > c.range * 2 || col > c.range))
    return "more than the configured range is quoted";
  if (data.size() < 256)
  {
    // nothing that fits is left out; a last line without anything in it may be
    size_t want = std::min(line, most);
    if (before != want)
      return "lines in front of it are left out";
    size_t rest = all.size() - 1 - line;
    if (rest && all.back().empty())
    {
      if (after != std::min(rest, most) && after != std::min(rest - 1, most))
        return "lines behind it are left out";
    }
    else if (after != std::min(rest, most))
      return "lines behind it are left out";
  }
  return "";
}

static const Config configs[] = {{4, 38}, {1, 38}, {2, 3}, {3, 0}, {1, 1}, {0, 5}, {5, 100}, {12, 20}, {200, 3}};

// ---- errors of the tokenizer ----
static size_t shortest(const std::string &s, const ref::Opt &o)
{
  for (size_t n = 1; n <= s.size(); n++)
    if (ref::tokenize(s.substr(0, n), o).end == ref::End::Error)
      return n;
  return 0;
}
// is `at` where the text stops being JSON?
static std::string misplaced(size_t at, size_t n)
{
  if (at + 1 == n || at == n)
    return "";
  return "found at " + std::to_string(at) + ", but the text breaks at " + std::to_string(n - 1);
}
static void broken(mc::Ctx &ctx, const std::string &text, const std::vector<size_t> &cuts, int opt, const Config *c, bool nul = false, size_t known = 0)
{
  ref::Opt o = opt_of(opt);
  if (!known && ref::tokenize(text, o).end != ref::End::Error)
    return;
  size_t n = known ? known : shortest(text, o);
  ctx.exec([&] { return show_cuts(text, cuts) + " options " + std::to_string(opt) + (c ? " lines " + std::to_string(c->lines) + " range " + std::to_string(c->range) : "") + (nul ? " with terminator" : ""); },
           [&] {
             std::string given = text;
             if (nul)
               given += '\0';
             Pieces p(given, cuts);
             JS::Tokenizer t;
             set_flags(t, o);
             if (c)
               t.setErrorContextConfig(c->lines, c->range);
             for (size_t i = 0; i < p.buf.size(); i++)
               t.addData(p.buf[i].get(), p.len[i]);
             Run r;
             drain(t, r, text.size() + 2);
             if (r.end == JS::Error::NoError || r.end == JS::Error::NeedMoreData)
               return ctx.fail("error", "no error is returned");
             const char *pos = t.currentPosition();
             size_t base = 0, k = 0;
             for (; k < p.buf.size(); base += p.len[k], k++)
               if (pos >= p.buf[k].get() && pos <= p.buf[k].get() + p.len[k])
                 break;
             if (k == p.buf.size())
               return ctx.fail("place", "outside the input");
             size_t at = size_t(pos - p.buf[k].get());
             std::string m = misplaced(base + at, n);
             if (o.comments && n > 1 && base + at + 2 == n && text[n - 2] == '/')
               m = ""; // the slash that starts no comment
             if (!m.empty())
               return ctx.fail("place", m);
             std::string data(text, base, nul && k + 1 == p.buf.size() ? p.len[k] - 1 : p.len[k]);
             std::string report = t.makeErrorString();
             ctx.steps(r.toks.size() + 1);
             ctx.state(mc::Hash().add(report).get());
             if (text.find('\n') != std::string::npos)
               ctx.nontrivial();
             std::string w = wrong(report, r.end, "", data, at, c ? *c : configs[0]);
             if (!w.empty())
               return ctx.fail("report", w + "\n" + report);
             if (cuts.empty() && !nul)
             {
               // the same from a parse context, into something that takes anything
               JS::ParseContext pc(p.buf[0].get(), p.len[0]);
               set_flags(pc.tokenizer, o);
               if (c)
                 pc.tokenizer.setErrorContextConfig(c->lines, c->range);
               JS::JsonTokens any;
               JS::Error e = JS::Error::NoError;
               for (size_t i = 0; i <= text.size() && e == JS::Error::NoError; i++)
                 e = pc.parseTo(any);
               if (e != r.end || pc.makeErrorString() != report)
                 return ctx.fail("report", "of a parse context: " + std::to_string(int(e)) + "\n" + pc.makeErrorString() + "\nof a tokenizer:\n" + report);
             }
           });
}

// ---- errors of types ----
struct Custom
{
  int n = 0;
};
namespace JS
{
template <>
struct TypeHandler<Custom>
{
  static inline Error to(Custom &, ParseContext &context)
  {
    return context.tokenizer.updateErrorContext(Error::UserDefinedErrors, "it is broken");
  }
  static inline void from(const Custom &, Token &, Serializer &)
  {
  }
};
} // namespace JS
template <>
struct M<Custom, void>
{
  static bool read(const JV &, Custom &, Env &)
  {
    return false;
  }
};

template <class T>
void mistyped(mc::Ctx &ctx, const std::string &before, const std::string &bad, const std::string &after, const std::vector<size_t> &cuts, const Config *c, const char *message = "")
{
  std::string text = before + bad + after;
  ctx.exec([&] { return std::string(type_name<T>()) + " <- " + show_cuts(text, cuts) + (c ? " lines " + std::to_string(c->lines) + " range " + std::to_string(c->range) : ""); },
           [&] {
             Pieces p(text, cuts);
             JS::ParseContext pc;
             if (c)
               pc.tokenizer.setErrorContextConfig(c->lines, c->range);
             for (size_t i = 0; i < p.buf.size(); i++)
               pc.tokenizer.addData(p.buf[i].get(), p.len[i]);
             T t = T();
             JS::Error e = pc.parseTo(t);
             if (e == JS::Error::NoError)
               return ctx.fail("error", "no error is returned");
             const char *pos = pc.tokenizer.currentPosition();
             size_t base = 0, k = 0;
             for (; k < p.buf.size(); base += p.len[k], k++)
               if (pos >= p.buf[k].get() && pos <= p.buf[k].get() + p.len[k])
                 break;
             if (k == p.buf.size())
               return ctx.fail("place", "outside the input");
             size_t at = size_t(pos - p.buf[k].get());
             // in the value, or behind it as far as the reader looks for its end: up to its comma or bracket
             size_t gap = after.find_first_not_of(" \n\r\t") + 1;
             if (base + at < before.size() || base + at > before.size() + bad.size() + gap)
               return ctx.fail("place", "found at " + std::to_string(base + at) + ", the value is at " + std::to_string(before.size()));
             std::string report = pc.makeErrorString();
             ctx.steps(1);
             ctx.nontrivial();
             ctx.state(mc::Hash().add(report).get());
             std::string w = wrong(report, e, message, text.substr(base, p.len[k]), at, c ? *c : configs[0]);
             if (!w.empty())
               ctx.fail("report", w + "\n" + report);
           });
}
template <class T>
void type_errors(mc::Ctx &ctx, const std::vector<std::string> &bads, const char *message = "")
{
  std::vector<std::string> gaps = {"", " ", "\n", "\n\n  ", "\r\n", std::string(30, ' '), "\n" + std::string(50, ' ') + "\n", std::string(60, '\n')};
  ctx.block([&] {
    for (auto &bad : bads)
      for (auto &g1 : gaps)
        for (auto &g2 : gaps)
        {
          std::string b = "{" + g2 + "\"first\" : 11," + g1 + "\"x\":" + g2, a = g1 + ",\"last\":" + g2 + "22" + g1 + "}";
          mistyped<Mid<T>>(ctx, b, bad, a, {}, nullptr, message);
          for (auto &c : configs)
            mistyped<Mid<T>>(ctx, b, bad, a, {}, &c, message);
          for (size_t cut = 1; cut < b.size() + bad.size() + a.size(); cut++)
            if (g1.size() + g2.size() < 8)
              mistyped<Mid<T>>(ctx, b, bad, a, {cut}, nullptr, message);
        }
  });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    // every text that breaks, over lines
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "\n", "@", " "}, T ? 7 : 6, 2, [&](const std::string &s, int) {
      bool brk = ref::tokenize(s, ref::Opt()).end == ref::End::Error;
      broken(ctx, s, {}, 0, nullptr);
      return !(brk && !T && s.size() > 7);
    });
    mc::strings(ctx, {"{", "]", ",", "\"a\":", "1", "\n", "x", "tr", "\""}, T ? 6 : 5, 2, [&](const std::string &s, int) {
      for (auto &c : configs)
        broken(ctx, s, {}, 0, &c);
      broken(ctx, s, {}, 0, nullptr, true);
      for (int o : {2, 4, 8, 15})
        broken(ctx, s, {}, o, nullptr);
      for (size_t i = 1; i < s.size(); i++)
      {
        broken(ctx, s, {i}, 0, nullptr);
        for (size_t k = i + 1; k < s.size(); k++)
          broken(ctx, s, {i, k}, 0, &configs[(i + k) % 9]);
      }
      return true;
    });
    mc::strings(ctx, {"{", "[", "/", "*", "//", "\n", "a", ",", "1"}, T ? 6 : 5, 2, [&](const std::string &s, int) {
      for (int o : {8, 15, 9, 0})
      {
        broken(ctx, s, {}, o, nullptr);
        for (size_t i = 1; i < s.size(); i++)
          broken(ctx, s, {i}, o, nullptr);
      }
      return true;
    });
    // a broken place after n bytes of its line and with m bytes behind it, in a text of many lines
    for (size_t n = 0; n <= (T ? 300 : 90); n++)
      ctx.block([&] {
        for (size_t m : {0, 1, 2, 5, 36, 37, 38, 39, 40, 76, 99, 100, 101, 120, 250, 256, 258, 300})
          for (int up = 0; up < 7; up++)
            for (int down = 0; down < 7; down++)
            {
              if (!T && (m * 7 + size_t(up * 3 + down)) % 3 != n % 3)
                continue;
              std::string s = "[";
              for (int i = 0; i < up; i++)
                s += std::string(size_t(i * i), ' ') + std::to_string(i) + ",\n";
              if (n)
                s += "\"" + std::string(n, 'q') + "\",";
              s += "@" + std::string(m, 'r');
              for (int i = 0; i < down; i++)
                s += "\n" + std::string(size_t(i * (down + i)), 's');
              for (auto &c : configs)
                broken(ctx, s, {}, 0, &c);
              broken(ctx, s, {s.size() / 2}, 0, nullptr);
              broken(ctx, s, {}, 0, nullptr, true);
            }
      });
    for (size_t n : {200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000})
      ctx.block([&] {
        for (size_t m : {0, 1, 100, 254, 255, 256, 257, 258, 600})
          for (size_t w : {1, 2, 7, 40, 100, 255, 256, 257})
          {
            std::string s = "[";
            while (s.size() < n)
              s += (s.size() % w == 0 ? "\n" : " ");
            s += "@";
            for (size_t i = 0; i < m; i++)
              s += i % w == 0 ? '\n' : 'x';
            for (auto &c : configs)
              broken(ctx, s, {}, 0, &c);
          }
      });
    // behind a value in which one thing is large, in one piece and in several
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(scale::most(kind, T)))
        ctx.block([&] {
          for (const std::string &tail : {std::string("\n"), std::string(), "\n[\n" + std::string(n % 97, ' ')})
          {
            std::string s = "[" + scale::value(kind, n) + (tail.empty() ? "" : ",") + tail + "}" + tail + "x\ny";
            size_t known = s.find('}', s.size() - tail.size() - 4) + 1;
            for (auto &c : configs)
              broken(ctx, s, {}, scale::flags(kind), &c, false, known);
            broken(ctx, s, {s.size() / 2}, scale::flags(kind), nullptr, false, known);
            broken(ctx, s, {s.size() - 2 * tail.size() / 3 - 4}, scale::flags(kind), nullptr, false, known);
            broken(ctx, s, {}, scale::flags(kind), nullptr, true, known);
          }
        });
    // with many lines around
    for (size_t up : scale::ladder(T ? 600 : 300))
      ctx.block([&] {
        for (size_t down : {0, 1, 2, 3, 10, 11, 12, 13, 199, 200, 201})
        {
          std::string s = "[";
          for (size_t i = 0; i < up; i++)
            s += "\n";
          s += "@";
          for (size_t i = 0; i < down; i++)
            s += "\n";
          for (auto &c : configs)
            broken(ctx, s, {}, 0, &c, false, up + 2);
        }
      });
    // wrong kinds of values
    type_errors<int>(ctx, {"\"no\"", "true", "{}", "[1]", "{\"a\":[{}]}", "null", "\"\""});
    type_errors<double>(ctx, {"\"no\"", "{}", "[1]"});
    type_errors<float>(ctx, {"\"no\"", "{\"x\":1}"});
    type_errors<bool>(ctx, {"\"no\"", "1", "{}", "[true]"});
    type_errors<Color>(ctx, {"\"no\"", "77", "{}", "[\"red\"]"});
    type_errors<P>(ctx, {"\"no\"", "5", "[]", "null"});
    type_errors<Vec<int>>(ctx, {"\"no\"", "5", "{}"});
    type_errors<Vec<std::string>>(ctx, {"5", "{\"a\":1}"});
    type_errors<StrMap<int>>(ctx, {"\"no\"", "5", "[]"});
    type_errors<Arr2<int>>(ctx, {"\"no\"", "5", "{}"});
    type_errors<TupA<int>>(ctx, {"\"no\"", "5", "{}"});
    type_errors<std::set<int>>(ctx, {"\"no\"", "{}"});
    type_errors<std::optional<int>>(ctx, {"\"no\"", "{}"});
    type_errors<JS::NullableChecked<int>>(ctx, {"\"no\"", "{}"});
    type_errors<UPtr<int>>(ctx, {"\"no\"", "{}"});
    type_errors<SPtr<P>>(ctx, {"\"no\"", "[]"});
    type_errors<JS::JsonObject>(ctx, {"\"no\"", "[]", "1"});
    type_errors<JS::JsonArray>(ctx, {"\"no\"", "{}", "1"});
    type_errors<JS::JsonObjectOrArray>(ctx, {"\"no\"", "null", "1"});
    type_errors<Custom>(ctx, {"\"no\"", "null", "1", "{\"a\":[]}"}, "it is broken");
    // inside containers
    ctx.block([&] {
      for (const std::string &g : {"", " ", "\n", "\n\n", "\n   \n"})
        for (const std::string &h : {"", "\n"})
          for (int c = -1; c < 9; c++)
          {
            const Config *cf = c < 0 ? nullptr : &configs[c];
            for (size_t n = 0; n < 5; n++)
            {
              std::string ok, okm, oks;
              for (size_t i = 0; i < n; i++)
              {
                ok += std::to_string(i) + g + "," + h;
                okm += "\"k" + std::to_string(i) + "\":" + h + "7," + g;
                oks += "{\"p\":" + g + "1,\"q\":\"s\"}," + h;
              }
              mistyped<Vec<int>>(ctx, "[" + h + ok, "\"no\"", g + "," + h + "5]", {}, cf);
              mistyped<Mid<Vec<int>>>(ctx, "{\"x\":[" + h + ok, "{}", g + "," + h + "5]}", {}, cf);
              mistyped<std::set<int>>(ctx, "[" + h + ok, "\"no\"", g + "," + h + "5]", {}, cf);
              mistyped<std::set<int>>(ctx, "[" + h + "5," + ok, "5", g + "," + h + "6]", {}, cf);
              mistyped<StrMap<int>>(ctx, "{" + h + okm + "\"z\":", "[1]", g + "}", {}, cf);
              mistyped<Vec<P>>(ctx, "[" + h + oks + "{\"p\":" + g, "\"x\"", ",\"q\":\"s\"}]", {}, cf);
              mistyped<Vec<P>>(ctx, "[" + h + oks, "7", g + "," + h + "{}]", {}, cf);
              if (n < 2)
              {
                mistyped<std::tuple<int, int>>(ctx, "[" + h + ok, "\"no\"", n ? g + "]" : "," + g + "1]", {}, cf);
                mistyped<Arr2<int>>(ctx, "[" + h + ok, "\"no\"", n ? g + "]" : "," + g + "1]", {}, cf);
              }
            }
          }
    });
    // stored tokens, and names instead of a place
    ctx.block([&] {
      for (const std::string &g : {"", "\n", "   ", "\n\n"})
        ctx.exec([&] { return "stored tokens, gap " + mc::show(g); },
                 [&] {
                   std::string text = "{" + g + "\"x\":" + g + "\"no\"" + g + "}";
                   JS::Tokenizer t;
                   t.addData(text.data(), text.size());
                   std::vector<JS::Token> stored;
                   JS::Token k;
                   while (t.nextToken(k) == JS::Error::NoError)
                     stored.push_back(k);
                   JS::ParseContext pc;
                   pc.tokenizer.addData(&stored);
                   Mid<int> m;
                   JS::Error e = pc.parseTo(m);
                   std::string r = pc.makeErrorString();
                   ctx.steps(1);
                   ctx.nontrivial();
                   ctx.state(mc::Hash().add(r).get());
                   if (e == JS::Error::NoError || r.find(name_of(e)) == std::string::npos || r.find("no\n^\n") == std::string::npos)
                     ctx.fail("report", r);
                 });
      for (int mode = 1; mode < 3; mode++)
        for (size_t n = 1; n <= 3; n++)
          ctx.exec([&] { return std::to_string(n) + " members " + (mode == 1 ? "unknown" : "without a property"); },
                   [&] {
                     std::string text = mode == 1 ? "{\"first\":1" : "{";
                     const char *names[] = {"first", "x", "last"}, *other[] = {"one", "two", "three"};
                     for (size_t i = 0; i < 3; i++)
                       if (mode == 1 ? i < n : i >= n)
                         text += std::string(text.size() > 1 ? "," : "") + "\"" + (mode == 1 ? other[i] : names[i]) + "\":1";
                     text += "}";
                     JS::ParseContext pc(text);
                     pc.allow_missing_members = mode != 1;
                     pc.allow_unasigned_required_members = mode != 2;
                     Mid<int> m;
                     JS::Error e = pc.parseTo(m);
                     std::string r = pc.makeErrorString();
                     ctx.steps(1);
                     ctx.state(mc::Hash().add(r).get());
                     if (e != (mode == 1 ? JS::Error::MissingPropertyMember : JS::Error::UnassignedRequiredMember))
                       return ctx.fail("error", std::to_string(int(e)));
                     for (size_t i = 0; i < 3; i++)
                     {
                       std::string w = mode == 1 ? other[i] : names[i];
                       size_t at = r.rfind(": ");
                       if (at == std::string::npos || (r.find(w, at) != std::string::npos) != (i < (mode == 1 ? 1 : n))) // the first unknown one ends the parse
                         return ctx.fail("report", r);
                     }
                   });
    });
  });
}
