// A tokenizer or parse context with a history against a fresh one; scopes; stored tokens.
#include "types.h"
#include "chunks.h"
#include "docs.h"
#include "trees.h"
#include "scale.h"

// ---- tokenizers ----
struct Buf
{
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Buf(const std::string &s)
    : p(new char[s.size() ? s.size() : 1])
    , n(s.size())
  {
    memcpy(p.get(), s.data(), s.size());
  }
};
static std::vector<JS::Token> tokens_of(const Buf &b)
{
  JS::Tokenizer t;
  t.addData(b.p.get(), b.n);
  std::vector<JS::Token> r;
  JS::Token k;
  while (t.nextToken(k) == JS::Error::NoError)
    r.push_back(k);
  return r;
}
struct Step
{
  std::string text;
  size_t cut; // 0: one buffer
  size_t stop;
  int how; // 0 text, 1 stored tokens, 2 text with a scope around every value, left open
};
static std::string show_step(const Step &s)
{
  return mc::show(s.text) + (s.cut ? " cut at " + std::to_string(s.cut) : "") + (s.how == 1 ? " played back" : s.how == 2 ? " in scopes" : "") + (s.stop == size_t(-1) ? " to its end" : " for " + std::to_string(s.stop)) + "; ";
}
struct Kept
{
  std::vector<std::unique_ptr<Buf>> bufs;
  std::vector<std::unique_ptr<std::vector<JS::Token>>> toks;
};
static void apply(JS::Tokenizer &t, const Step &s, bool first, Kept &keep)
{
  keep.bufs.emplace_back(new Buf(s.cut ? s.text.substr(0, s.cut) : s.text));
  Buf &b = *keep.bufs.back();
  if (s.how == 1)
  {
    keep.toks.emplace_back(new std::vector<JS::Token>(tokens_of(b)));
    if (first)
      t.addData(keep.toks.back().get());
    else
      t.resetData(keep.toks.back().get(), 0);
  }
  else
  {
    if (first)
      t.addData(b.p.get(), b.n);
    else
      t.resetData(b.p.get(), b.n, 0);
    if (s.cut)
    {
      keep.bufs.emplace_back(new Buf(s.text.substr(s.cut)));
      t.addData(keep.bufs.back()->p.get(), keep.bufs.back()->n);
    }
  }
  JS::Token k;
  size_t limit = s.stop < s.text.size() + 2 ? s.stop : s.text.size() + 2;
  for (size_t i = 0; i < limit; i++)
  {
    if (t.nextToken(k) != JS::Error::NoError)
      break;
    if (s.how == 2 && (k.value_type == JS::Type::ObjectStart || k.value_type == JS::Type::ArrayStart))
      t.pushScope(k.value_type);
  }
}

static const char *const opts_of_interest = "\0\x0f\x02\x08\x01\x04";

// every history, then `text` from its index on, cut or not, against a fresh tokenizer
static void reuse(mc::Ctx &ctx, const std::vector<Step> &hist, const std::string &text, size_t index, size_t cut, int opt)
{
  ctx.exec(
    [&] {
      std::string o;
      for (auto &s : hist)
        o += show_step(s);
      return o + "then " + mc::show(text) + (index ? " from " + std::to_string(index) : "") + (cut ? " cut at " + std::to_string(cut) : "") + " options " + std::to_string(opt);
    },
    [&] {
      Run r, f;
      std::string er, ef;
      Buf a(cut ? text.substr(0, cut) : text), b(cut ? text.substr(cut) : "");
      {
        Kept keep;
        JS::Tokenizer t;
        set_flags(t, opt_of(opt));
        for (size_t i = 0; i < hist.size(); i++)
          apply(t, hist[i], i == 0, keep);
        t.resetData(a.p.get(), a.n, index);
        if (cut)
          t.addData(b.p.get(), b.n);
        keep = Kept(); // nothing of the past is needed any more
        drain(t, r, text.size() + 2);
        if (r.end != JS::Error::NeedMoreData)
          er = t.makeErrorString();
      }
      {
        JS::Tokenizer t;
        set_flags(t, opt_of(opt));
        if (index)
          t.resetData(a.p.get(), a.n, index);
        else
          t.addData(a.p.get(), a.n);
        if (cut)
          t.addData(b.p.get(), b.n);
        drain(t, f, text.size() + 2);
        if (f.end != JS::Error::NeedMoreData)
          ef = t.makeErrorString();
      }
      ctx.steps(hist.size() + r.toks.size());
      ctx.state(hash_run(r));
      if (!hist.empty() && hist[0].stop)
        ctx.nontrivial();
      if (!(r == f))
        return ctx.fail("tokens", "used:  " + show_run(r) + "\nfresh: " + show_run(f));
      if (er != ef)
        return ctx.fail("report", "used:  " + mc::show(er) + "\nfresh: " + mc::show(ef));
      if (index)
      {
        Run w = run_whole(text.substr(index), opt_of(opt));
        if (cut ? false : !(w == r))
          return ctx.fail("index", "from the index: " + show_run(r) + "\nof the rest:    " + show_run(w));
      }
    });
}

// ---- scopes ----
// few: only some of the places
static void scopes(mc::Ctx &ctx, const JV &v, bool played, const std::vector<size_t> &cuts, bool few = false)
{
  std::string text = jv::show(v);
  ref::Result all = ref::tokenize(text, ref::Opt());
  size_t n = all.toks.size();
  // the extent of the value at each token
  std::vector<size_t> end(n, 0);
  std::vector<size_t> open;
  for (size_t i = 0; i < n; i++)
  {
    auto k = all.toks[i].value_type;
    end[i] = i + 1;
    if (k == ref::T::ObjectStart || k == ref::T::ArrayStart)
      open.push_back(i);
    else if (k == ref::T::ObjectEnd || k == ref::T::ArrayEnd)
    {
      end[open.back()] = i + 1;
      open.pop_back();
      end[i] = 0; // no value starts here
    }
  }
  // outer scope at i entered for `in` tokens, then a scope at j left after `deep` tokens
  auto run = [&](size_t i, size_t j, size_t deep, bool beyond) {
    ctx.exec([&] { return show_cuts(text, cuts) + " scope at " + std::to_string(i) + (j < n ? ", scope at " + std::to_string(j) : "") + " left after " + std::to_string(deep) + (played ? " played back" : "") + (beyond ? " asked beyond" : ""); },
             [&] {
               Pieces p(text, cuts);
               JS::Tokenizer t;
               std::vector<JS::Token> stored;
               Buf whole(text);
               if (played)
               {
                 stored = tokens_of(whole);
                 t.addData(&stored);
               }
               else
                 for (size_t k = 0; k < p.buf.size(); k++)
                   t.addData(p.buf[k].get(), p.len[k]);
               JS::Token k;
               size_t at = 0;
               auto next = [&]() -> std::string {
                 JS::Error e = t.nextToken(k);
                 if (e != JS::Error::NoError || snap(k).value != all.toks[at].value || snap(k).name != all.toks[at].name)
                   return "token " + std::to_string(at) + ": error " + std::to_string(int(e)) + " " + snap(k).name + ":" + snap(k).value;
                 at++;
                 return "";
               };
               std::string r;
               auto to = [&](size_t target) {
                 while (r.empty() && at < target)
                   r = next();
               };
               auto leave = [&](size_t s) {
                 if (!r.empty())
                   return;
                 JS::Error e = t.goToEndOfScope(k);
                 if (e != JS::Error::NoError)
                   r = "leaving " + std::to_string(s) + ": error " + std::to_string(int(e));
                 if (r.empty() && beyond)
                 {
                   e = t.nextToken(k);
                   if (e != JS::Error::ScopeHasEnded)
                     r = "asking beyond the scope: error " + std::to_string(int(e));
                 }
                 t.popScope();
                 at = end[s];
               };
               to(i + 1);
               if (r.empty())
                 t.pushScope(k.value_type);
               if (j < n)
               {
                 to(j + 1);
                 if (r.empty())
                   t.pushScope(k.value_type);
                 to(j + 1 + deep);
                 leave(j);
                 // every way to go on inside the outer scope is covered by the single scopes
               }
               else
                 to(i + 1 + deep);
               leave(i);
               to(n);
               if (r.empty() && t.nextToken(k) != JS::Error::NeedMoreData)
                 r = "more tokens than there are";
               ctx.steps(at);
               ctx.state(mc::Hash().add(text).add(uint64_t(i)).add(uint64_t(j)).add(uint64_t(deep)).get());
               if (end[i] - i > 1)
                 ctx.nontrivial();
               if (!r.empty())
                 ctx.fail("scope", r);
             });
  };
  if (few)
  {
    for (size_t i : {size_t(0), size_t(1), size_t(2), n / 3, n / 2, n - 3})
      if (i < n && end[i])
        for (size_t in : {size_t(0), size_t(1), (end[i] - i) / 2, end[i] - i - 1})
          if (in < end[i] - i)
          {
            run(i, n, in, in % 2);
            size_t j = i + in;
            if (in && end[j])
              for (size_t deep : {size_t(0), (end[j] - j) / 2, end[j] - j - 1})
                run(i, j, deep, in % 2);
          }
    return;
  }
  for (size_t i = 0; i < n; i++)
    if (end[i])
      for (size_t in = 0; in < end[i] - i; in++)
        for (int b = 0; b < 2; b++)
        {
          run(i, n, in, b);
          size_t j = i + in;
          if (in && end[j])
            for (size_t deep = 0; deep < end[j] - j; deep++)
              run(i, j, deep, b);
        }
}
// leaving a scope of a text that ends or breaks inside it is an error
static void broken_scope(mc::Ctx &ctx, const std::string &text)
{
  ref::Result all = ref::tokenize(text, ref::Opt());
  for (size_t i = 0; i < all.toks.size(); i++)
  {
    auto k = all.toks[i].value_type;
    if (k != ref::T::ObjectStart && k != ref::T::ArrayStart)
      continue;
    size_t depth = 1, j = i + 1;
    for (; j < all.toks.size() && depth; j++)
    {
      auto l = all.toks[j].value_type;
      depth += l == ref::T::ObjectStart || l == ref::T::ArrayStart;
      depth -= l == ref::T::ObjectEnd || l == ref::T::ArrayEnd;
    }
    ctx.exec([&] { return mc::show(text) + " scope at " + std::to_string(i); },
             [&] {
               Buf b(text);
               JS::Tokenizer t;
               t.addData(b.p.get(), b.n);
               JS::Token tok;
               for (size_t x = 0; x <= i; x++)
                 if (t.nextToken(tok) != JS::Error::NoError)
                   return ctx.fail("scope", "not reached");
               t.pushScope(tok.value_type);
               JS::Error e = t.goToEndOfScope(tok);
               ctx.steps(j);
               ctx.state(mc::Hash().add(text).add(uint64_t(i)).get());
               if (depth)
                 ctx.nontrivial();
               if ((e == JS::Error::NoError) != (depth == 0))
                 return ctx.fail("scope", "error " + std::to_string(int(e)));
               if (e == JS::Error::NoError)
                 t.popScope();
               else
               {
                 // and the tokenizer is as good as new
                 t.resetData("[7]", 3, 0);
                 Run r;
                 drain(t, r, 9);
                 if (r.toks.size() != 3 || r.toks[1].value != "7")
                   ctx.fail("tokens", "after a broken scope: " + show_run(r));
               }
             });
  }
}

// a scope around a value that is very deep or very long
static void large_scope(mc::Ctx &ctx, size_t n, bool deep, bool stored, size_t inside)
{
  ctx.exec([&] { return std::string("scope around a value of ") + std::to_string(n) + (deep ? " levels" : " elements") + (stored ? ", stored tokens" : "") + ", left after " + std::to_string(inside); },
           [&] {
             std::string text = "[1,";
             if (deep)
               text += std::string(n, '[') + std::string(n, ']');
             else
             {
               text += "[";
               for (size_t i = 0; i < n; i++)
                 text += i ? ",[]" : "[]";
               text += "]";
             }
             text += ",7]";
             Buf b(text);
             JS::Tokenizer t;
             t.addData(b.p.get(), b.n);
             JS::JsonTokens keep;
             JS::Token tok;
             if (stored)
             {
               while (t.nextToken(tok) == JS::Error::NoError)
                 keep.data.push_back(tok);
               t.resetData(&keep.data, 0);
             }
             for (int i = 0; i < 3; i++)
               if (t.nextToken(tok) != JS::Error::NoError)
                 return ctx.fail("scope", "not reached");
             t.pushScope(tok.value_type);
             for (size_t i = 0; i < inside; i++)
               if (t.nextToken(tok) != JS::Error::NoError)
                 return ctx.fail("scope", "ends too soon");
             if (t.goToEndOfScope(tok) != JS::Error::NoError)
               return ctx.fail("scope", "its end is not found");
             t.popScope();
             ctx.steps(2 * n);
             ctx.nontrivial();
             ctx.state(mc::Hash().add(uint64_t(n)).add(uint64_t(inside * 4 + deep * 2 + stored)));
             if (t.nextToken(tok) != JS::Error::NoError || std::string(tok.value.data, tok.value.size) != "7")
               return ctx.fail("scope", "not at the value behind it");
           });
}
// a copy that was begun and never ended belongs to the input that is given up
static void pending_copy(mc::Ctx &ctx, const std::string &text, size_t cut, size_t from, const std::string &later, bool destroyed)
{
  ctx.exec([&] { return mc::show(text) + " cut at " + std::to_string(cut) + ", a copy begun at token " + std::to_string(from) + ", then " + mc::show(later) + (destroyed ? " (its buffer gone)" : ""); },
           [&] {
             Buf a(text.substr(0, cut)), b(text.substr(cut)), c(later);
             JS::Tokenizer t;
             t.addData(a.p.get(), a.n);
             t.addData(b.p.get(), b.n);
             JS::Token tok;
             size_t i = 0;
             std::unique_ptr<std::string> into(new std::string());
             while (t.nextToken(tok) == JS::Error::NoError)
               if (i++ == from)
               {
                 if (tok.value_type == JS::Type::ObjectStart || tok.value_type == JS::Type::ArrayStart)
                   t.copyFromValue(tok, *into);
                 break;
               }
             std::string had;
             if (destroyed)
               into.reset();
             else
               had = *into;
             t.resetData(c.p.get(), c.n, 0);
             Run got, want;
             drain(t, got, 99);
             JS::Tokenizer fresh;
             fresh.addData(c.p.get(), c.n);
             drain(fresh, want, 99);
             ctx.steps(got.toks.size());
             ctx.state(mc::Hash().add(text).add(uint64_t(cut)).add(uint64_t(from)));
             if (i > from)
               ctx.nontrivial();
             if (!(show_run(got) == show_run(want)))
               return ctx.fail("tokens", show_run(got) + " instead of " + show_run(want));
             if (!destroyed && *into != had)
               ctx.fail("copy", "the later text was added to the copy: " + mc::show(*into));
           });
}

// ---- parse contexts ----
struct Outcome
{
  JS::Error err = JS::Error::NoError, ctx_err = JS::Error::NoError;
  std::string value, report;
  std::vector<std::string> missing, unassigned;
  bool operator==(const Outcome &o) const
  {
    return err == o.err && ctx_err == o.ctx_err && value == o.value && report == o.report && missing == o.missing && unassigned == o.unassigned;
  }
  std::string show() const
  {
    std::string s = "error " + std::to_string(int(err)) + "/" + std::to_string(int(ctx_err)) + " " + value + " " + mc::show(report) + " missing";
    for (auto &m : missing)
      s += " " + m;
    s += " unassigned";
    for (auto &m : unassigned)
      s += " " + m;
    return s;
  }
};
template <class T>
Outcome parse_any(JS::ParseContext &pc)
{
  T t = T();
  Outcome o;
  size_t m = pc.missing_members.size(), u = pc.unassigned_required_members.size();
  o.err = pc.parseTo(t);
  o.ctx_err = pc.error;
  o.value = dump(t);
  o.missing.assign(pc.missing_members.begin() + long(m), pc.missing_members.end());
  o.unassigned.assign(pc.unassigned_required_members.begin() + long(u), pc.unassigned_required_members.end());
  if (o.err != JS::Error::MissingPropertyMember && o.err != JS::Error::UnassignedRequiredMember && o.err != JS::Error::NoError)
    o.report = pc.makeErrorString();
  return o;
}
struct Target
{
  const char *name;
  Outcome (*parse)(JS::ParseContext &);
};
template <class T>
Target target()
{
  return {type_name<T>(), parse_any<T>};
}
struct Move
{
  const Target *t;
  const std::string *text;
};
// 0 text into the context, 1 stored tokens, 2 (the final move) added behind what is there, 3 text added behind stored
// tokens that have all been read, 4 stored tokens added behind such tokens
static void context_reuse(mc::Ctx &ctx, const std::vector<Move> &hist, int how, const Move &last, int mode)
{
  auto configure = [&](JS::ParseContext &pc) {
    pc.allow_missing_members = !(mode & 1);
    pc.allow_unasigned_required_members = !(mode & 2);
    pc.track_member_assignement_state = !(mode & 4);
  };
  ctx.exec(
    [&] {
      std::string s;
      for (auto &m : hist)
        s += std::string(m.t->name) + " <- " + mc::show(*m.text) + "; ";
      return s + last.t->name + " <- " + mc::show(*last.text) + " how " + std::to_string(how) + " mode " + std::to_string(mode);
    },
    [&] {
      Outcome r, f;
      Buf a(*last.text);
      std::vector<JS::Token> stored;
      if (how == 1 || how == 4)
        stored = tokens_of(a);
      {
        JS::ParseContext pc;
        configure(pc);
        bool bad = false;
        {
          std::vector<std::unique_ptr<Buf>> keep;
          std::vector<std::unique_ptr<std::vector<JS::Token>>> kept;
          for (size_t i = 0; i < hist.size(); i++)
          {
            keep.emplace_back(new Buf(*hist[i].text));
            if (how >= 3)
            {
              kept.emplace_back(new std::vector<JS::Token>(tokens_of(*keep.back())));
              if (bad || kept.back()->empty())
                return;
              pc.tokenizer.addData(kept.back().get());
            }
            else if (i && !(how == 2))
              pc.tokenizer.resetData(keep.back()->p.get(), keep.back()->n, 0);
            else
              pc.tokenizer.addData(keep.back()->p.get(), keep.back()->n);
            bad = hist[i].t->parse(pc).err != JS::Error::NoError || bad;
          }
          if (how >= 2)
          {
            if (bad)
              return; // nothing is claimed for what is added behind a failed parse
            if (how == 4 && stored.empty())
              return;
            if (how == 4)
              pc.tokenizer.addData(&stored);
            else
              pc.tokenizer.addData(a.p.get(), a.n);
            r = last.t->parse(pc);
          }
          else if (how == 1)
            pc.tokenizer.resetData(&stored, 0);
          else
            pc.tokenizer.resetData(a.p.get(), a.n, 0);
        }
        if (how < 2)
          r = last.t->parse(pc);
      }
      {
        JS::ParseContext pc;
        configure(pc);
        if (how == 1 || how == 4)
          pc.tokenizer.addData(&stored);
        else
          pc.tokenizer.addData(a.p.get(), a.n);
        f = last.t->parse(pc);
      }
      ctx.steps(hist.size() + 1);
      ctx.state(mc::Hash().add(r.show()).get());
      ctx.nontrivial();
      if (how == 2)
        r.report = f.report = "";
      if (!(r == f))
        ctx.fail("context", "used:  " + r.show() + "\nfresh: " + f.show());
    });
}

// ---- playing back ----
template <class T>
void playback(mc::Ctx &ctx, const std::string &text, const JV &doc)
{
  ctx.exec([&] { return std::string(type_name<T>()) + " <- " + mc::show(text); },
           [&] {
             Buf b(text);
             std::vector<JS::Token> stored = tokens_of(b);
             T from_text = T(), from_tokens = T(), model = T();
             JS::ParseContext a, p, q;
             a.tokenizer.addData(b.p.get(), b.n);
             p.tokenizer.addData(&stored);
             JS::Error ea = a.parseTo(from_text), ep = p.parseTo(from_tokens);
             Env env;
             env.src = text.data();
             bool want = M<T>::read(doc, model, env);
             ctx.steps(stored.size());
             std::string da = dump(from_text), dp = dump(from_tokens);
             ctx.state(mc::Hash().add(std::string(type_name<T>())).add(uint64_t(ep)).add(dp).get());
             if (want)
               ctx.nontrivial();
             if (ea != ep)
               return ctx.fail("playback", "error " + std::to_string(int(ep)) + ", from the text " + std::to_string(int(ea)));
             if ((ep == JS::Error::NoError) != want)
               return ctx.fail("playback", "error " + std::to_string(int(ep)));
             if (want && (da != dp || dp != dump(model)))
               return ctx.fail("playback", "holds " + dp + "\nfrom the text " + da + "\nshould hold " + dump(model));
             if (a.missing_members != p.missing_members || a.unassigned_required_members != p.unassigned_required_members)
               return ctx.fail("playback", "other members are reported missing");
             // again, from the same tokens
             p.tokenizer.resetData(&stored, 0);
             T again = T();
             ep = p.parseTo(again);
             if (ep != ea || (want && dump(again) != da))
               return ctx.fail("playback", "the second time: error " + std::to_string(int(ep)) + " " + dump(again));
             // tokens that stop early are no value
             if (want)
               for (size_t n = 0; n < stored.size(); n++)
               {
                 std::vector<JS::Token> part(stored.begin(), stored.begin() + long(n));
                 JS::ParseContext c;
                 c.tokenizer.addData(&part);
                 T t = T();
                 if (c.parseTo(t) == JS::Error::NoError)
                   return ctx.fail("playback", "the first " + std::to_string(n) + " tokens are accepted");
               }
           });
}

using PlayTypes = Cat<Cat<L<Mid<int>, Mid<double>, Mid<std::string>, Mid<bool>, Mid<Color>, Mid<P>, Mid<D>, Mid<Ext>>,
                          L<Mid<JS::JsonObject>, Mid<JS::JsonArray>, Mid<JS::JsonObjectOrArray>, Mid<JS::JsonObjectRef>, Mid<JS::JsonArrayRef>, Mid<JS::JsonObjectOrArrayRef>, Mid<JS::JsonTokens>, Mid<JS::Map>>>,
                      L<Mid<std::optional<int>>, Mid<JS::Nullable<int>>, Mid<JS::NullableChecked<std::string>>, Mid<JS::OptionalChecked<P>>, Mid<UPtr<int>>, Mid<SPtr<std::string>>, Mid<Vec<int>>, Mid<Vec<std::string>>, Mid<Arr2<int>>,
                        Mid<Avc2<int>>, Mid<StrMap<int>>, Mid<TupA<int>>, Mid<TupB<bool>>, Mid<JS::OneOrMany<int>>, Mid<std::set<int>>, Mid<std::vector<bool>>, Mid<int[2]>, Mid<Vec<P>>, Mid<StrMap<std::string>>>>;

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    const std::vector<std::string> last = {"{\"a\":1}", "[]", "[1,{\"b\":[true,\"x\"]}]", "{\"a\":{}}", "\"", "[1", "{\"a\"", "[1}", "]", ":", ",", "[\"a\\\"b\",-1.5e3 ]", "{\"k\" :null,\"l\":[ ]}", "// c\n[ 1\n2,,]", "{a:b,/**/c:d}", "[/", "*/[]", "\n", "", "tr", "1,2]", "\"x\"]", "/[]", "\n[\n\n@\n]", " \n\n  {\"a\"\n1}"};
    const int opts[] = {0, 15, 2, 8, 1, 4};
    // one earlier text: every text up to a length, read to every point
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"", "a", "1", "/", "*", "\n", "\\", "\"a\"", "tr"}, T ? 5 : 4, 2, [&](const std::string &s, int) {
      size_t n = run_whole(s, opt_of(15)).toks.size();
      for (int o = 0; o < 2; o++)
        for (size_t stop = 0; stop <= n + 1; stop++)
          for (auto &l : last)
            reuse(ctx, {{s, 0, stop == n + 1 ? size_t(-1) : stop, 0}}, l, 0, 0, opts[o]);
      return true;
    });
    mc::strings(ctx, {"{", "}", "[", "]", ",", "\"a\":", "1", "\"", "/*", "\\"}, T ? 7 : 6, 2, [&](const std::string &s, int) {
      for (auto &l : {last[2], last[7], last[13], last[20], last[23]})
        for (int o = 0; o < 2; o++)
          reuse(ctx, {{s, 0, size_t(-1), 0}}, l, 0, 0, opts[o]);
      return true;
    });
    // the later text is any text
    const std::vector<std::string> hist = {"{\"a\":1}", "[]", "[1,{\"b\":[true]}]", "{\"a", "{\"a\\", "[tr", "[1", "{\"a\":", "{\"a\" ", "[1,", "[/", "[/*", "[/* *", "[//", "[\"x\",\"y", "{a", "{\"a\":b", "[1}", "{1", "]", "[1 2]", "[@", "{\"a\":1,", "[\n", "[[[[", "{\"a\":{\"b\":{", "[1\n", "{\"a\":1}[", "\\", "{\"a\":\"\\u00"};
    for (auto &h : hist)
      mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"", "a", "1", "/", "*", "\n", "\\", "tr", "e"}, T ? 5 : 4, 1, [&](const std::string &s, int) {
        for (size_t stop : {size_t(-1), size_t(1), size_t(0)})
          for (int o : opts)
            reuse(ctx, {{h, 0, stop, 0}}, s, 0, 0, o);
        return true;
      });
    // two and three earlier texts, in all their forms
    std::vector<Step> steps;
    for (auto &h : hist)
    {
      size_t n = run_whole(h, opt_of(15)).toks.size();
      for (size_t stop = 0; stop <= n + 1; stop++)
        for (size_t cut : {size_t(0), h.size() / 2, h.size() - 1})
          for (int how = 0; how < 3; how++)
            if (!(how == 1 && cut) && !(cut == 0 && h.size() == 1 && how == 9))
              steps.push_back({h, cut, stop == n + 1 ? size_t(-1) : stop, how});
    }
    for (size_t i = 0; i < steps.size(); i++)
      ctx.block([&] {
        for (auto &l : last)
          for (int o : opts)
          {
            reuse(ctx, {steps[i]}, l, 0, 0, o);
            for (size_t c = 1; c < l.size(); c++)
              reuse(ctx, {steps[i]}, l, 0, c, o);
            for (size_t x = 1; x <= l.size() && x < 6; x++)
              reuse(ctx, {steps[i]}, l, x, 0, o);
          }
        for (size_t j = 0; j < steps.size(); j++)
          for (auto &l : {last[2], last[7], last[13], last[20], last[23]})
            for (int o = 0; o < 2; o++)
              reuse(ctx, {steps[i], steps[j]}, l, 0, 0, opts[o]);
        for (size_t j = 0; j < steps.size(); j += T ? 7 : 41)
          for (size_t k = 0; k < steps.size(); k += T ? 11 : 37)
            reuse(ctx, {steps[i], steps[j], steps[k]}, last[2], 0, 0, (i + j + k) % 2 ? 15 : 0);
      });

    // scopes
    trees::Shape sh;
    sh.names = {"a"};
    sh.scalars = docs::vals({"1", "\"}\""});
    {
      auto by = trees::all(sh, T ? 6 : 5);
      for (auto &l : by)
        for (auto &v : l)
          if (v.container())
            ctx.block([&] {
              scopes(ctx, v, false, {});
              scopes(ctx, v, true, {});
              size_t n = jv::show(v).size();
              for (size_t c = 1; c < n; c += 1)
                if (jv::nodes(v) <= 4)
                  scopes(ctx, v, false, {c});
              std::vector<size_t> every;
              for (size_t c = 1; c < n; c++)
                every.push_back(c);
              scopes(ctx, v, false, every);
            });
    }
    for (const char *t : {"{\"a\":1,\"b\":{\"c\":[1,2,{\"d\":\"x\"}],\"e\":null},\"f\":[]}", "[[[[1,2],[3]],[]],[4,{\"m\":5}]]"})
      ctx.block([&] {
        JV v;
        jv::first(t, v);
        scopes(ctx, v, false, {});
        scopes(ctx, v, true, {});
      });
    mc::strings(ctx, {"{", "}", "[", "]", ",", "\"a\":", "1", "\"b\""}, T ? 8 : 7, 2, [&](const std::string &s, int) {
      broken_scope(ctx, s);
      return true;
    });

    // histories and documents in which one thing is large
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(std::min<size_t>(scale::most(kind, T), T ? 66000 : 2050)))
        ctx.block([&] {
          std::string s = "{\"p\":" + scale::value(kind, n) + ",\"q\":[2]}";
          int o = scale::flags(kind);
          for (size_t stop : {size_t(-1), size_t(2), n, n + 2})
            for (int how = 0; how < 3; how++)
            {
              if (how == 1 && o)
                continue;
              for (auto &l : {last[2], last[7], last[13], last[20], last[23]})
                reuse(ctx, {{s, how == 1 ? 0 : s.size() / 2, stop, how}}, l, 0, 0, o);
              reuse(ctx, {{s, 0, stop, how}, {s.substr(0, s.size() / 2 + 1), 0, size_t(-1), how == 1 ? 0 : how}}, s, 0, 0, o);
              reuse(ctx, {{s.substr(0, s.size() - s.size() / 3), 0, size_t(-1), how == 1 ? 0 : how}}, s, 0, s.size() / 2, o);
            }
          for (size_t h = 0; h < hist.size(); h++)
            reuse(ctx, {{hist[h], 0, size_t(-1), 0}}, s, 0, h % 3 ? 0 : s.size() / 2, o);
          if (o)
            return;
          JV v;
          jv::first(s, v);
          scopes(ctx, v, false, {}, true);
          scopes(ctx, v, true, {}, true);
          scopes(ctx, v, false, {jv::show(v).size() / 2}, true);
          if (n <= 300)
          {
            std::string x = scale::value(kind, n);
            for (const std::string &doc : {"{\"first\":1,\"y\":" + x + ",\"x\":" + x + ",\"last\":2}", "{\"x\":" + x + ",\"last\":2}"})
            {
              JV d;
              jv::first(doc, d);
              std::string text = jv::show(d);
              d = JV();
              jv::first(text, d);
              playback<Mid<Vec<int>>>(ctx, text, d);
              playback<Mid<std::string>>(ctx, text, d);
              playback<Mid<StrMap<int>>>(ctx, text, d);
              playback<Mid<JS::JsonObjectOrArray>>(ctx, text, d);
            }
          }
        });
    // many uses of one tokenizer
    for (size_t n : scale::ladder(T ? 1030 : 300))
      ctx.block([&] {
        for (size_t from = 0; from < steps.size(); from += T ? 13 : 101)
        {
          std::vector<Step> h;
          for (size_t i = 0; i < n; i++)
            h.push_back(steps[(from + i * 17) % steps.size()]);
          for (auto &l : {last[2], last[13], last[23]})
            for (int o = 0; o < 2; o++)
              reuse(ctx, h, l, 0, 0, opts[o]);
        }
      });

    for (size_t n : {size_t(255), size_t(256), size_t(65535), size_t(65536), size_t(65537)})
      for (int deep = 0; deep < 2; deep++)
        for (int stored = 0; stored < 2; stored++)
          for (size_t inside : {size_t(0), size_t(1), n - 1})
            large_scope(ctx, n, deep != 0, stored != 0, inside);
    for (const char *text : {"{\"a\":{\"b\":[1,2]},\"c\":[]}", "[[1,{\"a\":\"x\"}],{}]"})
      for (size_t cut = 1; cut < strlen(text); cut++)
        for (size_t from = 0; from < 9; from++)
          for (size_t l : {0, 1, 2, 5, 6, 11, 20})
            for (int gone = 0; gone < 2; gone++)
              pending_copy(ctx, text, cut, from, last[l], gone != 0);

    // parse contexts
    const std::vector<Target> targets = {target<P>(), target<D>(), target<Mid<int>>(), target<Mid<JS::JsonObject>>(), target<Vec<int>>(), target<StrMap<std::string>>(), target<TupA<int>>(), target<JS::Map>(), target<JS::JsonArray>(), target<Mid<Vec<P>>>()};
    const std::vector<std::string> texts = {"{\"p\":1,\"q\":\"s\"}", "{\"p\":[1],\"q\":\"s\"}", "{\"p\":1", "{\"p\":1,\"q\":\"s", "{\"nobody\":[{}],\"x\":7,\"last\":2}", "{\"x\":{\"k\":[1]},\"last\":5}", "{\"x\":{\"k\":[1", "{\"x\":{\"k\":[1}}",
                                            "[1,2,3]", "[1,2", "[1,\"a\"]", "[7,8]", "{\"b1\":1,\"sh\":\"x\",\"d\":2}", "{}", "[]", "{\"x\":[{\"p\":1,\"q\":\"z\"},{\"p\":\"no\"}]}", "{\"x\":[{\"p\":4,\"q\":\"z\"},{\"p\":5}],\"first\":3}", "{\"x\":\n\n@}", "{\"a\":\"b\",\"c\":1}"};
    std::vector<Move> moves;
    for (auto &t : targets)
      for (auto &x : texts)
        moves.push_back({&t, &x});
    for (size_t i = 0; i < moves.size(); i++)
      ctx.block([&] {
        for (auto &b : moves)
          for (int how = 0; how < 5; how++)
            for (int mode : {0, 1, 2, 3, 4})
              context_reuse(ctx, {moves[i]}, how, b, mode);
        for (size_t j = i % 5; j < moves.size(); j += T ? 1 : 5)
          for (size_t k = j % 7; k < moves.size(); k += T ? 1 : 7)
            context_reuse(ctx, {moves[i], moves[j]}, int((k + j) % 5), moves[k], int((i + j) % 4));
      });

    // playing back
    const auto alphabet = [&] {
      trees::Shape s;
      s.names = {"p", "x"};
      s.scalars = docs::vals({"7", "\"a\"", "null", "true", "\"red\"", "-1.5e1"});
      auto by = trees::all(s, T ? 4 : 3);
      std::vector<JV> r;
      for (auto &l : by)
        r.insert(r.end(), l.begin(), l.end());
      for (const char *t : {"{\"p\":4,\"q\":\"z\"}", "[{\"p\":4,\"q\":\"z\"},{\"p\":5,\"q\":\"\"}]", "{\"b1\":1,\"sh\":\"x\",\"d\":2,\"alias1\":[3]}", "{\"e\":5,\"f\":[\"x\",\"y\"]}", "[\"a\",true]", "[[1,{\"a\":{}}],[]]", "{\"m\":{\"n\":{\"o\":[1,2]}}}"})
        r.push_back(docs::val(t));
      return r;
    }();
    each(PlayTypes(), [&](auto t) {
      using X = typename decltype(t)::type;
      for (size_t i = 0; i < alphabet.size(); i += 16)
        ctx.block([&] {
          for (size_t k = i; k < i + 16 && k < alphabet.size(); k++)
            for (int form = 0; form < 3; form++)
            {
              std::string v = jv::show(alphabet[k]);
              std::string text = form == 0 ? "{\"first\":1,\"x\":" + v + ",\"last\":2}" : form == 1 ? "{\"nobody\":" + v + ",\"x\":" + v + "}" : "{\"last\":3,\"x\":" + v + ",\"x\":7,\"first\":[]}";
              JV doc;
              jv::first(text, doc);
              playback<X>(ctx, text, doc);
            }
        });
    });
  });
}
