// Any text into any type: ends, stays inside its memory (sanitizers), and succeeds exactly when the
// text's first document is complete and of the type's form.
#include "docs.h"
#include "types.h"
#include "scale.h"

#ifndef PART
#define PART 0
#endif

struct Op
{
  const char *name;
  Compare fresh, filled;
  size_t count;
  bool (*written)(size_t, JV &);
  size_t (*after)(const std::string &, size_t);
};
// the object is gone when what was missing arrives: its members must not be written any more
template <class T>
static size_t after(const std::string &text, size_t cut)
{
  std::vector<char> a(text.begin(), text.begin() + long(cut)), b(text.begin() + long(cut), text.end());
  a.shrink_to_fit();
  b.shrink_to_fit();
  JS::ParseContext pc;
  {
    std::unique_ptr<T> t(new T());
    if (a.size())
      pc.tokenizer.addData(a.data(), a.size());
    if (pc.parseTo(*t) == JS::Error::NoError)
      return 0;
  }
  if (b.size())
    pc.tokenizer.addData(b.data(), b.size());
  // whatever is read now, going on behind errors too
  for (size_t n = 0; n < text.size() + 4; n++)
    (void)pc.nextToken();
  return text.size() + 4;
}
template <class T>
static bool written(size_t i, JV &v)
{
  return M<T>::write(M<T>::make(i), v);
}
template <class T>
static Op op()
{
  return {type_name<T>(), compare_fresh<T>, compare_filled<T>, M<T>::count(), written<T>, after<T>};
}

static void one(mc::Ctx &ctx, const Op &op, bool filled, const std::string &text, const JV *doc)
{
  ctx.exec([&] { return std::string(op.name) + (filled ? " (filled)" : "") + " <- " + mc::show(text); },
           [&] {
             bool accepted = false;
             uint64_t st = 0;
             std::string r = (filled ? op.filled : op.fresh)(text, doc, &accepted, &st);
             ctx.state(st);
             ctx.steps(text.size());
             if (accepted)
               ctx.nontrivial();
             if (!r.empty())
               ctx.fail("differs from the model", r);
           });
}
static void all(mc::Ctx &ctx, const std::vector<Op> &ops, const std::string &text, bool filled)
{
  JV doc;
  bool whole = jv::first(text, doc);
  for (auto &o : ops)
  {
    one(ctx, o, false, text, whole ? &doc : nullptr);
    if (filled)
      one(ctx, o, true, text, whole ? &doc : nullptr);
  }
}

static void texts(mc::Ctx &ctx, const std::vector<Op> &ops, const std::string &pre, const std::vector<std::string> &sym, int depth)
{
  mc::strings(ctx, sym, depth, 2, [&](const std::string &t, int) {
    std::string text = pre + t;
    ref::Result r = ref::tokenize(text, {});
    all(ctx, ops, text, false);
    if (r.end == ref::End::Error)
      return false;
    // nothing after the first document is read
    JV d;
    size_t i = 0;
    return !(jv::build(r, i, d) && i < r.toks.size());
  });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    std::vector<Op> objs, arrs;
#if PART == 0
    each(Cat<Cat<Scalars, Times>, L<JS::SilentString, P, int[2], std::string[2], JS::Nullable<int>, JS::NullableChecked<std::string>>>(), [&](auto t) { objs.push_back(op<Mid<typename decltype(t)::type>>()); });
    each(L<P, Q, D, Ext>(), [&](auto t) { objs.push_back(op<typename decltype(t)::type>()); });
    each(L<Vec<bool>, Vec<int>, Vec<double>, Vec<std::string>, Vec<Color>, Vec<P>, Arr2<int>, Arr2<std::string>, Avc2<int>, TupA<std::string>, TupB<bool>>(),
         [&](auto t) { arrs.push_back(op<typename decltype(t)::type>()); });
#elif PART == 1
    each(Cat<Raws, L<std::string>>(), [&](auto t) { objs.push_back(op<Mid<typename decltype(t)::type>>()); });
    each(Cat<Raws, L<std::string>>(), [&](auto t) { arrs.push_back(op<typename decltype(t)::type>()); });
    each(Cat<Raws, L<std::string>>(), [&](auto t) { arrs.push_back(op<std::tuple<typename decltype(t)::type, typename decltype(t)::type>>()); });
    each(L<StrMap<JS::JsonObject>, StrMap<JS::JsonTokens>, StrMap<JS::Map>>(), [&](auto t) { objs.push_back(op<typename decltype(t)::type>()); });
    arrs.push_back(op<Vec<JS::JsonArray>>());
    arrs.push_back(op<Vec<JS::JsonObjectOrArray>>());
    arrs.push_back(op<Vec<JS::Map>>());
#elif PART == 2
    each(Wraps<int>(), [&](auto t) { objs.push_back(op<Mid<typename decltype(t)::type>>()); });
    each(Cat<Sets, L<Vec<Vec<int>>, Vec<std::optional<int>>, Vec<UPtr<int>>, Vec<SPtr<std::string>>, Vec<JS::OneOrMany<int>>, JS::OneOrMany<JS::OneOrMany<int>>, Vec<StrMap<int>>, Arr2<Arr2<int>>, Avc2<Avc2<int>>, TupA<TupB<int>>>>(),
         [&](auto t) { arrs.push_back(op<typename decltype(t)::type>()); });
    each(L<StrMap<StrMap<int>>, StrMap<Vec<int>>, StrUMap<P>, StrMap<UPtr<P>>>(), [&](auto t) { objs.push_back(op<typename decltype(t)::type>()); });
#else
    each(Wraps<P>(), [&](auto t) { objs.push_back(op<Mid<typename decltype(t)::type>>()); });
    each(L<Vec<P>, Vec<Q>, Avc2<P>, Arr2<P>, std::tuple<P, P>, Vec<UPtr<P>>, JS::OneOrMany<P>>(), [&](auto t) { arrs.push_back(op<typename decltype(t)::type>()); });
#endif
    // texts
    texts(ctx, objs, "", {"{", "}", "\"x\":", "\"last\":", "\"p\":", "[", "]", ",", "7", "\"a\"", "null", " "}, T ? 7 : 5);
    texts(ctx, objs, "{\"x\":", {"{", "}", "\"p\":", "[", "]", ",", "7", "\"a\"", "null", "true", "-", "."}, T ? 7 : 5);
    texts(ctx, objs, "{\"x\":", {"\"", "\\", "u", "0", "e", "-", "}", ",", "]"}, T ? 7 : 5);
    texts(ctx, arrs, "", {"[", "]", "{", "}", ",", "7", "\"a\"", "\"p\":", "null", "true", " "}, T ? 8 : 6);
    texts(ctx, arrs, "[", {"\"", "\\", "u", "0", "e", "-", "]", ",", "[", "\n"}, T ? 7 : 5);
    // documents of each type, cut off anywhere and with any byte changed, removed or repeated
    for (auto *list : {&objs, &arrs})
      for (auto &o : *list)
        ctx.block([&] {
          size_t limit = T ? 40 : 5, step = o.count <= limit ? 1 : o.count / limit;
          for (size_t i = 0; i < o.count; i += step)
          {
            JV v;
            if (!o.written(i, v))
              continue;
            for (int style = 0; style < 2; style++)
            {
              std::string text = style ? docs::spaced(v) : jv::show(v);
              if (text.size() > (T ? 400u : 120u))
                continue;
              auto run = [&](const std::string &s) {
                JV doc;
                bool whole = jv::first(s, doc);
                one(ctx, o, false, s, whole ? &doc : nullptr);
                one(ctx, o, true, s, whole ? &doc : nullptr);
              };
              for (size_t n = 0; n <= text.size(); n++)
              {
                run(text.substr(0, n));
                ctx.exec([&] { return std::string(o.name) + " <- " + mc::show(text) + " cut at " + std::to_string(n) + ", the object destroyed before the rest arrives"; },
                         [&] {
                           ctx.steps(o.after(text, n));
                           std::string bad = text;
                           bad.insert(n, "@");
                           ctx.steps(o.after(bad, bad.size()));
                           ctx.steps(o.after(bad, n + 1));
                         });
              }
              for (size_t n = 0; n < text.size(); n++)
              {
                std::string s = text;
                s.erase(n, 1);
                run(s);
                s = text;
                s.insert(n, 1, text[n]);
                run(s);
                s = text;
                if (T || i == 0)
                {
                  for (int b = 1; b < 256; b++)
                  {
                    s[n] = char(b);
                    run(s);
                  }
                }
                else
                  for (char b : {'{', '}', '[', ']', '"', '\\', ',', ':', '0', '-', 'e', ' ', 'n', '\x80', '\n'})
                  {
                    s[n] = b;
                    run(s);
                  }
              }
            }
          }
        });
    // values in which one thing is large, read, passed over and cut short
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
    {
      size_t most = std::min<size_t>(scale::most(kind, T), T ? 66000 : 520);
      std::vector<size_t> sizes = scale::ladder(most);
      if (!T)
        for (size_t n : {1023, 1025, 4095, 4097, 65535, 65537})
          if (n <= scale::most(kind, T) && (n < 5000 || kind <= scale::STRING_ESCAPED || kind == scale::ARRAY_NUMBERS || kind == scale::NAME))
            sizes.push_back(n);
      for (size_t n : sizes)
        ctx.block([&] {
          std::string v = scale::value(kind, n);
          all(ctx, objs, "{\"x\":" + v + "}", false);
          all(ctx, objs, "{\"unknown\":" + v + ",\"last\":\"z\"}", false);
          all(ctx, objs, v, false);
          all(ctx, arrs, v, n < 40);
          all(ctx, arrs, "[" + v + "]", false);
          if (n < 40 || n % 64 == 0)
          {
            all(ctx, objs, "{\"x\":" + v.substr(0, v.size() - 1), false);
            all(ctx, arrs, "[" + v.substr(0, v.size() / 2), false);
          }
        });
    }
  });
}
