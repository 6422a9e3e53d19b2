// What the tokenizer does with the buffers it is given: released once, in order, when finished, and
// never referred to again.
#include "types.h"
#include "chunks.h"
#include "scale.h"

// Released pieces are overwritten but kept, so that their addresses stay theirs.
struct Watched
{
  std::vector<std::unique_ptr<char[]>> buf;
  std::vector<size_t> begin, len; // where the piece lies in the text
  std::vector<bool> given, gone;
  std::vector<size_t> order;
  std::string wrong;
  char fill;

  Watched(const std::string &s, const std::vector<size_t> &cuts, char fill)
    : fill(fill)
  {
    size_t b = 0;
    for (size_t k = 0; k <= cuts.size(); k++)
    {
      size_t e = k < cuts.size() ? cuts[k] : s.size();
      std::unique_ptr<char[]> p(new char[e - b + 1]);
      memcpy(p.get(), s.data() + b, e - b);
      p[e - b] = 'Y';
      buf.push_back(std::move(p));
      begin.push_back(b);
      len.push_back(e - b);
      b = e;
    }
    given.assign(buf.size(), false);
    gone = given;
  }
  size_t count(const std::vector<bool> &v) const
  {
    size_t n = 0;
    for (bool b : v)
      n += b;
    return n;
  }
  void released(const char *p)
  {
    for (size_t i = 0; i < buf.size(); i++)
      if (buf[i].get() == p)
      {
        if (!given[i])
          wrong = "a buffer that was not given is released";
        if (gone[i])
          wrong = "buffer " + std::to_string(i) + " is released twice";
        if (i && given[i - 1] && !gone[i - 1])
          wrong = "buffer " + std::to_string(i) + " is released before the one in front of it";
        gone[i] = true;
        memset(buf[i].get(), fill, len[i]);
        return;
      }
    wrong = "something else is released";
  }
  bool refers_to_gone(const JS::DataRef &d) const
  {
    for (size_t i = 0; i < buf.size(); i++)
      if (gone[i] && d.size && d.data + d.size > buf[i].get() && d.data < buf[i].get() + len[i])
        return true;
    return false;
  }
};

static void watch(mc::Ctx &ctx, const std::string &s, const std::vector<size_t> &cuts, Feed feed, int opt, const ref::Result &want, size_t stop = size_t(-1))
{
  ctx.exec(
    [&] {
      static const char *n[] = {" upfront", " on demand", " after being asked"};
      return show_cuts(s, cuts) + n[feed] + " options " + std::to_string(opt) + (stop != size_t(-1) ? " left after " + std::to_string(stop) : "");
    },
    [&] {
      Watched w(s, cuts, cuts.size() % 2 ? 'X' : '"');
      JS::Tokenizer t;
      set_flags(t, opt_of(opt));
      std::function<void(const char *)> rel = [&](const char *p) { w.released(p); };
      t.setReleaseCallback(rel);
      size_t next = 0;
      auto give = [&](JS::Tokenizer &tk) {
        if (next < w.buf.size())
        {
          w.given[next] = true;
          tk.addData(w.buf[next].get(), w.len[next]);
          next++;
        }
      };
      if (feed == UPFRONT)
        while (next < w.buf.size())
          give(t);
      else if (feed == CALLBACK)
        t.setNeedMoreDataCallback(give);
      auto at_rest = [&]() -> std::string {
        if (!w.wrong.empty())
          return w.wrong;
        if (t.registeredBuffers() != w.count(w.given) - w.count(w.gone))
          return std::to_string(t.registeredBuffers()) + " buffers are registered, given " + std::to_string(w.count(w.given)) + ", released " + std::to_string(w.count(w.gone));
        return "";
      };
      JS::Token k;
      size_t n = 0;
      std::string r;
      JS::Error e = JS::Error::NoError;
      for (size_t asked = 0; asked < s.size() + w.buf.size() + 3 && n < stop; asked++)
      {
        e = t.nextToken(k);
        r = at_rest();
        if (!r.empty())
          return ctx.fail("release", "at token " + std::to_string(n) + ": " + r);
        if (e == JS::Error::NeedMoreData && next < w.buf.size() && feed == RETRY)
        {
          // asked for more: everything given is finished
          if (t.registeredBuffers())
            return ctx.fail("release", "more is asked for while there are buffers");
          give(t);
          continue;
        }
        if (e != JS::Error::NoError)
          break;
        if (n >= want.toks.size())
          return ctx.fail("tokens", "more tokens than there are");
        const ref::Tok &x = want.toks[n];
        if (w.refers_to_gone(k.name) || w.refers_to_gone(k.value))
          return ctx.fail("token", "token " + std::to_string(n) + " refers to a released buffer");
        if (std::string(k.name.data, k.name.size) != x.name || std::string(k.value.data, k.value.size) != x.value)
          return ctx.fail("token", "token " + std::to_string(n) + " is " + snap(k).name + ":" + snap(k).value + ", should be " + x.name + ":" + x.value);
        for (size_t i = 0; i < w.buf.size(); i++)
        {
          size_t end = w.begin[i] + w.len[i];
          // it lies in front of the last byte of a value that was read
          if (w.given[i] && !w.gone[i] && end + 1 <= x.end && w.len[i])
            return ctx.fail("release", "buffer " + std::to_string(i) + " is finished at token " + std::to_string(n) + " but kept");
          // it holds a byte of a value that was not read yet
          if (w.gone[i] && n + 1 < want.toks.size() && w.len[i] && want.toks[n + 1].begin < end && want.toks[n + 1].begin >= w.begin[i])
            return ctx.fail("release", "buffer " + std::to_string(i) + " is released at token " + std::to_string(n) + " but not read");
        }
        n++;
      }
      ctx.steps(n + cuts.size() + 1);
      mc::Hash h;
      for (size_t i = 0; i < w.buf.size(); i++)
        h.add(uint64_t(w.gone[i] | w.given[i] << 1 | int(w.len[i]) << 2));
      ctx.state(h.add(uint64_t(n)).add(uint64_t(e)).get());
      if (cuts.size() && n > 1)
        ctx.nontrivial();
      if (stop != size_t(-1) && n < stop)
        return;
      if (stop == size_t(-1))
      {
        if (n != want.toks.size() || (e == JS::Error::NeedMoreData) != (want.end == ref::End::NeedMore))
          return ctx.fail("tokens", std::to_string(n) + " tokens, error " + std::to_string(int(e)));
        if (e == JS::Error::NeedMoreData && (t.registeredBuffers() || w.count(w.gone) != w.buf.size()))
          return ctx.fail("release", "buffers are kept although more is asked for");
        if (e != JS::Error::NeedMoreData)
        {
          std::string report = t.makeErrorString();
          size_t body = report.find('\n');
          if (w.fill == 'X' && body != std::string::npos && report.find('X', body) != std::string::npos)
            return ctx.fail("report", "quotes a released buffer: " + report);
        }
      }
      // everything that is left is released when something else is given
      std::string other = "[7]";
      std::vector<JS::Token> stored;
      bool played = stop != size_t(-1);
      if (played) // tokens instead of a text
      {
        JS::Tokenizer st;
        st.addData(other.data(), other.size());
        for (JS::Token x; st.nextToken(x) == JS::Error::NoError;)
          stored.push_back(x);
        t.resetData(&stored, 0);
      }
      else
        t.resetData(other.data(), other.size(), 0);
      if (!w.wrong.empty())
        return ctx.fail("release", "by a reset: " + w.wrong);
      for (size_t i = 0; i < w.buf.size(); i++)
        if (w.given[i] != w.gone[i])
          return ctx.fail("release", "a reset keeps buffer " + std::to_string(i));
      if (t.registeredBuffers() != (played ? 0 : 1))
        return ctx.fail("release", std::to_string(t.registeredBuffers()) + " buffers after a reset");
      next = w.buf.size();
      std::string got;
      std::function<void(const char *)> none = [&](const char *p) { got += p == other.data() ? "o" : "?"; };
      t.setReleaseCallback(none);
      Run run;
      drain(t, run, 9);
      if (run.toks.size() != 3 || run.toks[1].value != "7" || got != (played ? "" : "o"))
        return ctx.fail("release", "after a reset: " + show_run(run) + " released " + got);
    });
}

static void partitions(mc::Ctx &ctx, const std::string &s, int opt, int max_cuts)
{
  ref::Result want = ref::tokenize(s, opt_of(opt));
  std::vector<size_t> cuts;
  unsigned turn = 0;
  std::function<void(size_t)> go = [&](size_t from) {
    turn++;
    if (ctx.thorough || int(cuts.size()) <= 1)
      for (Feed f : {UPFRONT, CALLBACK, RETRY})
        watch(ctx, s, cuts, f, opt, want);
    else
      watch(ctx, s, cuts, Feed(turn % 3), opt, want);
    watch(ctx, s, cuts, Feed((turn + 1) % 3), opt, want, turn % (want.toks.size() + 1));
    if (int(cuts.size()) == max_cuts)
      return;
    for (size_t i = from; i < s.size(); i++)
    {
      cuts.push_back(i);
      go(i + 1);
      cuts.pop_back();
    }
  };
  go(1);
  // empty buffers
  for (size_t a = 0; a <= s.size(); a++)
    for (Feed f : {UPFRONT, CALLBACK, RETRY})
    {
      watch(ctx, s, {a, a}, f, opt, want);
      if (a < s.size() && a)
        watch(ctx, s, {0, a, a, a + 1}, f, opt, want);
    }
}

// a struct read from watched buffers
template <class T>
void parsed(mc::Ctx &ctx, const std::string &s, const std::vector<size_t> &cuts, Feed feed)
{
  ctx.exec([&] { return std::string(type_name<T>()) + " <- " + show_cuts(s, cuts); },
           [&] {
             Watched w(s, cuts, 'X');
             JS::ParseContext pc;
             std::function<void(const char *)> rel = [&](const char *p) { w.released(p); };
             pc.tokenizer.setReleaseCallback(rel);
             size_t next = 0;
             auto give = [&](JS::Tokenizer &tk) {
               if (next < w.buf.size())
               {
                 w.given[next] = true;
                 tk.addData(w.buf[next].get(), w.len[next]);
                 next++;
               }
             };
             if (feed == UPFRONT)
               while (next < w.buf.size())
                 give(pc.tokenizer);
             else
               pc.tokenizer.setNeedMoreDataCallback(give);
             T real = T(), model = T();
             JS::Error e = pc.parseTo(real);
             JV doc;
             Env env;
             env.src = s.data();
             bool whole = jv::first(s, doc), want = whole && M<T>::read(doc, model, env);
             ctx.steps(cuts.size() + 1);
             if (!w.wrong.empty())
               return ctx.fail("release", w.wrong);
             if (pc.tokenizer.registeredBuffers() != w.count(w.given) - w.count(w.gone))
               return ctx.fail("release", "miscounted");
             for (size_t i = 0; i < w.buf.size(); i++)
               if (want && w.given[i] && !w.gone[i] && w.begin[i] + w.len[i] < doc.e && w.len[i])
                 return ctx.fail("release", "buffer " + std::to_string(i) + " is kept");
             // what is left goes too, and the object keeps what it has
             pc.tokenizer.resetData("", 0, 0);
             for (size_t i = 0; i < w.buf.size(); i++)
               if (w.given[i] && !w.gone[i])
                 return ctx.fail("release", "a reset keeps buffer " + std::to_string(i));
             if ((e == JS::Error::NoError) != want)
               return ctx.fail("value", "error " + std::to_string(int(e)));
             if (!want)
               return;
             ctx.nontrivial();
             std::string a = dump(real), b = dump(model);
             ctx.state(mc::Hash().add(a).get());
             if (a != b)
               ctx.fail("value", "holds " + a + "\nshould hold " + b);
           });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    auto texts = [&](const std::vector<std::string> &sym, int depth, int opt, size_t maxlen) {
      mc::strings(ctx, sym, depth, 2, [&, opt](const std::string &s, int) {
        if (s.size() > maxlen)
          return false;
        partitions(ctx, s, opt, s.size() <= 9 ? 9 : 3);
        return ref::tokenize(s, opt_of(opt)).end == ref::End::NeedMore;
      });
    };
    texts({"{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "\\"}, T ? 7 : 6, 0, 16);
    texts({"{", "}", "[", "]", ",", ":", "\"ab\"", "12", "true", " "}, T ? 7 : 6, 0, T ? 14 : 12);
    texts({"{", "}", "[", "]", ",", ":", "/", "\n", "b", "2"}, T ? 7 : 6, 15, 16);
    texts({"{", "}", "[", "]", ",", ":", "/", "*", "\n", "1"}, T ? 6 : 5, 8, 16);
    texts({"[", "]", ",", "\n", "1", "\"x\"", " "}, T ? 7 : 6, 2, 16);
    for (const char *d : {"{\"a\\\"\":[1,\"b\\\\\",{\"c\":null}],\"d\":-1.5e3}", "[[],{},[true,false],\"\\u00e9\\n\",0]", "{\"x\":{\"y\":{\"z\":[[\"\"]]}},\"w\":\"]}\"}", "[1] {\"a\":2}\n[3]", "[1 ,\n\n 2 ]   "})
      for (int opt : {0, 15})
        ctx.block([&] { partitions(ctx, d, opt, T ? 4 : 3); });
    for (size_t n = 0; n <= (T ? 70 : 40); n++)
      ctx.block([&] {
        std::string x(n, 'x'), g(n, ' ');
        for (const std::string &d : {"[\"" + x + "\",1]", "{\"" + x + "\":\"" + x + "\"}", "[" + g + "1" + g + "," + g + "2]", "[" + std::string(n + 1, '7') + ",-1." + std::string(n + 1, '3') + "]"})
          partitions(ctx, d, 0, d.size() < 40 || T ? 2 : 1);
        partitions(ctx, "[ //" + x + "\n1,/*" + x + "*/" + g + "2]", 8, 2);
        partitions(ctx, "{" + x + "n:" + x + "v,\n" + g + "q:1}", 15, 2);
      });
    const std::vector<std::string> docs = {"{\"first\":1,\"x\":7,\"last\":3}", "{\"x\":\"a\\\"b\",\"last\":3}", "{\"x\":{\"k\":[1,{}]},\"first\":5}", "{\"nobody\":[{\"x\":1}],\"x\":[1,2,3]}", "{\"x\":{\"p\":1,\"q\":\"z\"}}", "{\"x\":null,\"last\":9}", "{\"x\":[]"};
    for (auto &d : docs)
      ctx.block([&] {
        std::vector<size_t> cuts;
        std::function<void(size_t)> go = [&](size_t from) {
          for (Feed f : {UPFRONT, CALLBACK})
          {
            parsed<Mid<int>>(ctx, d, cuts, f);
            parsed<Mid<std::string>>(ctx, d, cuts, f);
            parsed<Mid<JS::JsonObject>>(ctx, d, cuts, f);
            parsed<Mid<JS::JsonArray>>(ctx, d, cuts, f);
            parsed<Mid<Vec<int>>>(ctx, d, cuts, f);
            parsed<Mid<P>>(ctx, d, cuts, f);
            parsed<Mid<std::optional<int>>>(ctx, d, cuts, f);
            parsed<StrMap<JS::JsonObjectOrArray>>(ctx, d, cuts, f);
            parsed<StrMap<std::string>>(ctx, d, cuts, f);
          }
          if (cuts.size() == (T ? 3 : 2))
            return;
          for (size_t i = from; i < d.size(); i++)
          {
            cuts.push_back(i);
            go(i + 1);
            cuts.pop_back();
          }
        };
        go(1);
      });
    // documents in which one thing is large, cut in two, around one byte, and into pieces of one size
    int turn = 0;
    for (int kind = 0; kind < scale::KINDS; kind++)
      for (size_t n : scale::ladder(std::min<size_t>(scale::most(kind, T), T ? 66000 : 5000)))
        ctx.block([&] {
          std::string s = "{\"p\":" + scale::value(kind, n) + ",\"q\":[2]}";
          int opt = scale::flags(kind);
          ref::Result want = ref::tokenize(s, opt_of(opt));
          for (size_t p : scale::places(s.size()))
          {
            if (p == 0 || p >= s.size())
              continue;
            watch(ctx, s, {p}, Feed(turn++ % 3), opt, want);
            watch(ctx, s, {p, p + 1}, Feed(turn++ % 3), opt, want);
            watch(ctx, s, {p, p}, Feed(turn++ % 3), opt, want, want.toks.size() / 2);
          }
          for (auto &cuts : scale::uniform(s.size()))
            if (cuts.size() <= 600)
              watch(ctx, s, cuts, Feed(turn++ % 3), opt, want);
          if (opt || n > 1030)
            return;
          s = "{\"first\":1,\"nobody\":" + scale::value(kind, n) + ",\"x\":" + scale::value(kind, n) + ",\"last\":3}";
          for (auto &cuts : scale::uniform(s.size()))
          {
            if (cuts.size() > 600)
              continue;
            Feed f = Feed(turn++ % 2);
            parsed<Mid<std::string>>(ctx, s, cuts, f);
            parsed<Mid<JS::JsonObjectOrArray>>(ctx, s, cuts, f);
            parsed<Mid<Vec<int>>>(ctx, s, cuts, f);
            parsed<StrMap<std::string>>(ctx, s, cuts, f);
          }
        });
  });
}
