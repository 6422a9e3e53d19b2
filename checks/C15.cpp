// Call documents: every sequence of calls up to a length, with the functions' own log as witness.
#include "docs.h"
#include "types.h"
#include "scale.h"
#include "abyss.h"

static std::vector<std::string> g_log; // what was called, by the functions themselves
template <class A>
static void note(const char *id, const A &a)
{
  g_log.push_back(std::string(id) + "(" + dump(a) + ")");
}
static void note(const char *id)
{
  g_log.push_back(std::string(id) + "()");
}

// ---- what the functions do: used by the functions and by the model ----
template <class R>
struct Make;
template <>
struct Make<int>
{
  static int of(const std::string &s)
  {
    return int(s.size()) * 100 + (s.empty() ? 0 : int((unsigned char)s.back()));
  }
};
template <>
struct Make<std::string>
{
  static std::string of(const std::string &s)
  {
    return "<" + s + "\">";
  }
};
template <>
struct Make<P>
{
  static P of(const std::string &s)
  {
    P p;
    p.p = int(s.size());
    p.q = s;
    return p;
  }
};
template <>
struct Make<std::vector<std::string>>
{
  static std::vector<std::string> of(const std::string &s)
  {
    return std::vector<std::string>(s.size() % 3, s);
  }
};
static bool refuses(const std::string &dumped)
{
  return dumped.find("13") != std::string::npos;
}
static std::string complaint(const char *id, const std::string &dumped)
{
  return std::string("refused by ") + id + " because of " + dumped;
}

#define PLAIN(R, name, A, id)                                                                                          \
  R name(A a)                                                                                                          \
  {                                                                                                                    \
    note(id, a);                                                                                                       \
    return Make<R>::of(dump(a));                                                                                       \
  }
#define WITH(R, name, A, id, C, E)                                                                                     \
  R name(A a, C &c)                                                                                                    \
  {                                                                                                                    \
    note(id, a);                                                                                                       \
    if (refuses(dump(a)))                                                                                              \
      E.setError(complaint(id, dump(a)));                                                                              \
    return Make<R>::of(dump(a));                                                                                       \
  }
#define WITH_VOID(name, A, id, C, E)                                                                                   \
  void name(A a, C &c)                                                                                                 \
  {                                                                                                                    \
    note(id, a);                                                                                                       \
    if (refuses(dump(a)))                                                                                              \
      E.setError(JS::Error::UserDefinedErrors, complaint(id, dump(a)));                                                \
  }

struct Root0
{
  PLAIN(int, r0, int, "Root0::r0")
  PLAIN(int, over, int, "Root0::over")
  PLAIN(std::string, r1, const std::string &, "Root0::r1")
  JS_FUNCTION_CONTAINER(JS_FUNCTION(r0), JS_FUNCTION(over), JS_FUNCTION_ALIASES(r1, "r1a", "both", "f_vi"));
};
struct Mid1 : Root0
{
  WITH(int, m0, bool, "Mid1::m0", JS::CallFunctionErrorContext, c)
  PLAIN(int, m1, const double &, "Mid1::m1")
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Root0)), JS_FUNCTION(m0), JS_FUNCTION_WITH_NAME(m1, "m-one"));
};
struct Side
{
  void s0()
  {
    note("Side::s0");
  }
  PLAIN(int, s1, int, "Side::s1")
  JS_FUNC_OBJ(s0, s1);
};
struct Empty0 : Side // nothing of its own
{
  JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS(JS_SUPER_CLASSES(JS_SUPER_CLASS(Side)));
};
struct Out // described from outside
{
  PLAIN(int, x0, const std::vector<int> &, "Out::x0")
  PLAIN(int, x1, int, "Out::x1")
};
JS_FUNCTION_CONTAINER_EXTERNAL(Out, JS_FUNCTION_ALIASES(x0, "x"), JS_FUNCTION(x1));

struct All : Mid1, Empty0, Out
{
  void f_vi(int a)
  {
    note("f_vi", a);
  }
  PLAIN(int, f_ii, const int &, "f_ii")
  PLAIN(std::string, f_sP, const P &, "f_sP")
  PLAIN(P, f_Pv, const std::vector<int> &, "f_Pv")
  void f_vm(std::map<std::string, int> a)
  {
    note("f_vm", a);
  }
  void f_v()
  {
    note("f_v");
  }
  int f_i()
  {
    note("f_i");
    return 77;
  }
  using Tup = std::tuple<int, std::string>;
  PLAIN(std::vector<std::string>, f_t, const Tup &, "f_t")
  PLAIN(int, f_o, const std::optional<int> &, "f_o")
  PLAIN(int, over, int, "All::over")
  WITH(int, e_ii, int, "e_ii", JS::CallFunctionErrorContext, c)
  WITH_VOID(e_vs, const std::string &, "e_vs", JS::CallFunctionErrorContext, c)
  int e_i(JS::CallFunctionErrorContext &c)
  {
    note("e_i");
    c.setError("refused by e_i always");
    return 88;
  }
  void e_v(JS::CallFunctionErrorContext &)
  {
    note("e_v");
  }
  P e_P(JS::CallFunctionErrorContext &)
  {
    note("e_P");
    return Make<P>::of("e_P");
  }
  WITH(P, c_PP, const P &, "c_PP", JS::CallFunctionContext, c.error_context)
  WITH_VOID(c_vb, const std::string &, "c_vb", JS::CallFunctionContext, c.error_context)
  std::string c_s(JS::CallFunctionContext &c)
  {
    note("c_s");
    return c.execution_list.empty() ? "nothing" : c.execution_list.back().name;
  }
  void c_v(JS::CallFunctionContext &c)
  {
    note("c_v");
    c.error_context.setError(JS::Error::UserDefinedErrors, "refused by c_v always");
  }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Mid1), JS_SUPER_CLASS(Empty0), JS_SUPER_CLASS(Out)), JS_FUNCTION(f_vi),
                                   JS_FUNCTION_ALIASES(f_ii, "I", "s1", "both"), JS_FUNCTION_WITH_NAME_ALIASES(f_sP, "f-sP", "f_sP", "P"),
                                   JS_FUNCTION(f_Pv), JS_FUNCTION(f_vm), JS_FUNCTION(f_v), JS_FUNCTION(f_i), JS_FUNCTION(f_t), JS_FUNCTION(f_o),
                                   JS_FUNCTION(over), JS_FUNCTION_ALIASES(e_ii, "f_Pv"), JS_FUNCTION(e_vs), JS_FUNCTION(e_i), JS_FUNCTION(e_v), JS_FUNCTION(e_P),
                                   JS_FUNCTION(c_PP), JS_FUNCTION(c_vb), JS_FUNCTION(c_s), JS_FUNCTION(c_v));
};

// ---- the model ----
struct Outcome
{
  bool called = false, failed = false, result = false;
  JS::Error error = JS::Error::NoError;
  std::string log, says;
  JV value;
  std::vector<std::string> missing, unassigned;
};
struct Set
{
  bool allow_missing = false, stop = false, strict = false;
};
struct Fn
{
  std::string id, name;
  std::vector<std::string> alias;
  std::function<Outcome(const Fn &, const JV &, const char *, const Set &)> run;
};
// what parsing the value on its own reports
template <class A>
static JS::Error plain_error(const JV &v, const char *src, const Set &set)
{
  std::string t = "[" + std::string(src + v.b, v.e - v.b) + "]";
  std::tuple<A> a;
  JS::ParseContext c(t);
  c.allow_missing_members = !set.strict;
  c.allow_unasigned_required_members = !set.strict;
  return c.parseTo(a);
}
template <class A>
static bool take(Outcome &o, const Fn &f, const JV &v, const char *src, const Set &set, std::string &dumped)
{
  Env env;
  env.src = src;
  env.allow_missing = env.allow_unassigned = !set.strict;
  A a{};
  bool ok = M<A>::read(v, a, env);
  o.missing = env.missing;
  o.unassigned = env.unassigned;
  if (!ok)
  {
    o.failed = true;
    o.error = plain_error<A>(v, src, set);
    return false;
  }
  dumped = dump(a);
  o.called = true;
  o.log = f.id + "(" + dumped + ")";
  return true;
}
template <class R>
static void give(Outcome &o, const R &r)
{
  o.result = M<R>::write(r, o.value);
}
// reports: whether the function can refuse
template <class R, class A>
static Fn fn(const char *id, const char *name, std::vector<std::string> alias, bool reports)
{
  Fn f{id, name, alias, nullptr};
  f.run = [reports](const Fn &f, const JV &v, const char *src, const Set &set) {
    Outcome o;
    std::string d;
    if (!take<A>(o, f, v, src, set, d))
      return o;
    if (reports && refuses(d))
    {
      o.failed = true;
      o.error = JS::Error::UserDefinedErrors;
      o.says = complaint(f.id.c_str(), d);
      return o;
    }
    if constexpr (!std::is_void<R>::value)
      give(o, Make<R>::of(d));
    return o;
  };
  return f;
}
static Fn bare(const char *id, std::function<void(Outcome &, const JV &)> body)
{
  Fn f{id, id, {}, nullptr};
  if (f.name.find("::") != std::string::npos)
    f.name = f.name.substr(f.name.find("::") + 2);
  f.run = [body](const Fn &f, const JV &v, const char *, const Set &) {
    Outcome o;
    o.called = true;
    o.log = f.id + "()";
    body(o, v);
    return o;
  };
  return f;
}
static void always(Outcome &o, const char *says)
{
  o.failed = true;
  o.error = JS::Error::UserDefinedErrors;
  o.says = says;
}
static const std::vector<Fn> &table()
{
  using S = std::string;
  static const std::vector<Fn> t = {
    // own functions
    fn<void, int>("f_vi", "f_vi", {}, false), fn<int, int>("f_ii", "f_ii", {"I", "s1", "both"}, false), fn<S, P>("f_sP", "f-sP", {"f_sP", "P"}, false),
    fn<P, std::vector<int>>("f_Pv", "f_Pv", {}, false), fn<void, std::map<S, int>>("f_vm", "f_vm", {}, false), bare("f_v", [](Outcome &, const JV &) {}),
    bare("f_i", [](Outcome &o, const JV &) { give(o, 77); }), fn<std::vector<S>, std::tuple<int, S>>("f_t", "f_t", {}, false),
    fn<int, std::optional<int>>("f_o", "f_o", {}, false), fn<int, int>("All::over", "over", {}, false), fn<int, int>("e_ii", "e_ii", {"f_Pv"}, true),
    fn<void, S>("e_vs", "e_vs", {}, true), bare("e_i", [](Outcome &o, const JV &) { always(o, "refused by e_i always"); }),
    bare("e_v", [](Outcome &, const JV &) {}), bare("e_P", [](Outcome &o, const JV &) { give(o, Make<P>::of("e_P")); }), fn<P, P>("c_PP", "c_PP", {}, true), fn<void, S>("c_vb", "c_vb", {}, true),
    bare("c_s", [](Outcome &o, const JV &v) { give(o, v.name); }), bare("c_v", [](Outcome &o, const JV &) { always(o, "refused by c_v always"); }),
    // inherited
    fn<int, bool>("Mid1::m0", "m0", {}, true), fn<int, double>("Mid1::m1", "m-one", {}, false), fn<int, int>("Root0::r0", "r0", {}, false),
    fn<int, int>("Root0::over", "over", {}, false), fn<S, S>("Root0::r1", "r1", {"r1a", "both", "f_vi"}, false),
    bare("Side::s0", [](Outcome &, const JV &) {}), fn<int, int>("Side::s1", "s1", {}, false), fn<int, std::vector<int>>("Out::x0", "x0", {"x"}, false),
    fn<int, int>("Out::x1", "x1", {}, false)};
  return t;
}
// names first, then aliases; own ones before inherited ones
static const Fn *look(const std::string &name)
{
  for (auto &f : table())
    if (f.name == name)
      return &f;
  for (auto &f : table())
    for (auto &a : f.alias)
      if (a == name)
        return &f;
  return nullptr;
}

struct Expect
{
  std::vector<std::string> log, names;
  std::vector<Outcome> entries;
  bool array = false;     // an array of results is written
  bool whole = false;     // the document is complete and was read to its end
  bool stopped = false;   // by a failure
  bool broken = false;    // malformed: what comes behind the call the error is in is not judged
  JS::Error error = JS::Error::NoError;
  JV results;
};
static Expect expect(const std::string &text, const Set &set)
{
  Expect x;
  x.results.kind = JV::Arr;
  ref::Result r = ref::tokenize(text, ref::Opt());
  if (r.toks.empty())
    return x;
  if (r.toks[0].value_type != ref::T::ObjectStart)
  {
    x.error = JS::Error::ExpectedObjectStart;
    return x;
  }
  if (r.toks.size() < 2)
    return x;
  x.array = true;
  size_t i = 1;
  while (i < r.toks.size())
  {
    if (r.toks[i].value_type == ref::T::ObjectEnd)
    {
      x.whole = true;
      return x;
    }
    JV v;
    const std::string name = r.toks[i].name;
    bool complete = jv::build(r, i, v);
    const Fn *f = look(name);
    Outcome o;
    if (!complete)
    {
      o.failed = true;
      x.entries.push_back(o);
      x.names.push_back(name);
      x.broken = r.end != ref::End::NeedMore;
      return x;
    }
    if (f)
      o = f->run(*f, v, text.c_str(), set);
    else
    {
      o.failed = true;
      o.error = JS::Error::MissingFunction;
    }
    x.entries.push_back(o);
    x.names.push_back(name);
    if (o.called)
      x.log.push_back(o.log);
    if (o.result)
      x.results.kids.push_back(o.value);
    if (set.stop && o.failed && !(set.allow_missing && !f))
    {
      x.stopped = true;
      x.error = o.error;
      return x;
    }
  }
  return x;
}

struct Got
{
  std::vector<std::string> log;
  std::vector<JS::CallFunctionExecutionState> list;
  std::string out;
  JS::Error error;
};
static void apply(JS::CallFunctionContext &c, const Set &set)
{
  c.allow_missing = set.allow_missing;
  c.stop_execute_on_fail = set.stop;
  c.parse_context.allow_missing_members = !set.strict;
  c.parse_context.allow_unasigned_required_members = !set.strict;
  c.user_context = "who";
}
// mode 0: one buffer in and out; mode > 0: output buffers of that size and the input cut there
static Got drive(const std::string &text, const Set &set, size_t mode, bool compact)
{
  Got g;
  std::string out;
  All all;
  g_log.clear();
  std::vector<char> in(text.begin(), text.end());
  in.shrink_to_fit();
  JS::SerializerOptions opt(compact ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  if (mode == 0)
  {
    JS::DefaultCallFunctionContext c(in.data(), in.size(), g.out);
    c.s_context.serializer.setOptions(opt);
    apply(c, set);
    g.error = c.callFunctions(all);
    g.list = c.execution_list;
    out = g.out; // all of it is there when the calls are over
  }
  else
  {
    JS::ParseContext pc;
    const size_t cut = std::min(mode, in.size());
    std::vector<char> a(in.begin(), in.begin() + long(cut)), b(in.begin() + long(cut), in.end());
    if (a.size())
      pc.tokenizer.addData(a.data(), a.size());
    if (b.size())
      pc.tokenizer.addData(b.data(), b.size());
    std::vector<char> buf(mode % 7 + 1);
    JS::Serializer ser;
    ser.setBuffer(buf.data(), buf.size());
    ser.setOptions(opt);
    ser.setRequestBufferCallback([&](JS::Serializer &s) {
      g.out.append(buf.data(), buf.size());
      s.setBuffer(buf.data(), buf.size());
    });
    JS::CallFunctionContext c(pc, ser);
    apply(c, set);
    g.error = c.callFunctions(all);
    g.list = c.execution_list;
    g.out.append(buf.data(), ser.currentBuffer().used);
  }
  g.log = g_log;
  if (mode == 0)
    g.out = out;
  return g;
}
static std::string join(const std::vector<std::string> &l)
{
  std::string o;
  for (auto &s : l)
    o += s + "; ";
  return o;
}
static std::vector<std::string> sorted(std::vector<std::string> l)
{
  std::sort(l.begin(), l.end());
  return l;
}
// The record as a document of its own: the members that have something to say, with what they hold.
static std::string error_name(JS::Error e)
{
  static const std::map<JS::Error, std::string> names = {
#define N(x) {JS::Error::x, #x}
    N(NoError), N(NeedMoreData), N(InvalidToken), N(ExpectedPropertyName), N(ExpectedDelimiter), N(ExpectedDataToken), N(ExpectedObjectStart),
    N(ExpectedObjectEnd), N(ExpectedArrayStart), N(ExpectedArrayEnd), N(UnexpectedArrayEnd), N(UnexpectedObjectEnd), N(IllegalPropertyName),
    N(IllegalPropertyType), N(IllegalDataValue), N(EncounteredIllegalChar), N(NodeNotFound), N(MissingPropertyMember), N(MissingFunction),
    N(FailedToParseBoolean), N(FailedToParseDouble), N(FailedToParseFloat), N(FailedToParseInt), N(UnassignedRequiredMember),
    N(NonContigiousMemory), N(ScopeHasEnded), N(KeyNotFound), N(DuplicateInSet), N(UnknownPropertyMember), N(UnknownError)};
#undef N
  auto it = names.find(e);
  return it == names.end() ? "UserDefinedError" : it->second;
}
static bool says(const JV &o, const std::string &name, const std::string &value, std::string &why)
{
  for (auto &k : o.kids)
    if (k.name == name)
    {
      if (k.kind != JV::Str || ref::decode(k.text) != value)
        why = name + " is written as " + mc::show(k.text) + " instead of " + mc::show(value);
      return true;
    }
  if (!value.empty())
    why = name + " is not written";
  return false;
}
static bool lists(const JV &o, const std::string &name, const std::vector<std::string> &value, std::string &why)
{
  for (auto &k : o.kids)
    if (k.name == name)
    {
      std::vector<std::string> got;
      for (auto &e : k.kids)
        got.push_back(ref::decode(e.text));
      if (k.kind != JV::Arr || got != value)
        why = name + " is written with " + std::to_string(got.size()) + " entries instead of " + std::to_string(value.size());
      return true;
    }
  if (!value.empty())
    why = name + " is not written";
  return false;
}
static void report(mc::Ctx &ctx, const Got &g, bool compact)
{
  std::string text =
    JS::serializeStruct(g.list, JS::SerializerOptions(compact ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
  JV v;
  if (!jv::document(text, v) || v.kind != JV::Arr || v.kids.size() != g.list.size())
    return ctx.fail("report", "the record is written as " + mc::show(text));
  for (size_t i = 0; i < v.kids.size(); i++)
  {
    const JV &o = v.kids[i];
    auto &e = g.list[i];
    std::string why;
    size_t n = 0;
    n += says(o, "name", e.name, why);
    n += says(o, "error", error_name(e.error), why);
    n += says(o, "context", e.context.data, why);
    n += says(o, "error_string", e.error_string.data, why);
    n += lists(o, "missing_members", e.missing_members.data, why);
    n += lists(o, "unassigned_required_members", e.unassigned_required_members.data, why);
    if (o.kind != JV::Obj || n != o.kids.size())
      why = "there is more or less in it than the entry holds";
    if (!why.empty())
      return ctx.fail("report", "entry " + std::to_string(i) + " of " + mc::show(text) + ": " + why);
  }
}
static void judge(mc::Ctx &ctx, const Expect &x, Got g, const Set &set, bool compact)
{
  (void)set;
  if (x.broken)
  {
    if (g.log.size() > x.log.size() && g.list.size() > x.entries.size())
      g.log.resize(x.log.size());
    while (g.list.size() > x.entries.size())
      g.list.pop_back();
  }
  if (g.log != x.log)
    return ctx.fail("calls", "called: " + join(g.log) + "\nshould be: " + join(x.log));
  if (g.list.size() != x.entries.size())
    return ctx.fail("record", std::to_string(g.list.size()) + " entries instead of " + std::to_string(x.entries.size()));
  for (size_t i = 0; i < g.list.size(); i++)
  {
    auto &e = g.list[i];
    auto &m = x.entries[i];
    std::string at = "entry " + std::to_string(i) + " (" + x.names[i] + "): ";
    if (e.name != x.names[i])
      return ctx.fail("record", at + "is named " + e.name);
    if (e.context.data != "who")
      return ctx.fail("record", at + "does not carry the user context");
    if (m.failed != (e.error != JS::Error::NoError))
      return ctx.fail("record", at + "error " + std::to_string(int(e.error)) + (m.failed ? " although it failed" : " although it succeeded"));
    if (m.error != JS::Error::NoError && e.error != m.error)
      return ctx.fail("record", at + "error " + std::to_string(int(e.error)) + " instead of " + std::to_string(int(m.error)));
    if (m.failed == e.error_string.data.empty())
      return ctx.fail("record", at + "error text: " + mc::show(e.error_string.data));
    if (m.says.empty() ? e.error_string.data.find("refused") != std::string::npos : e.error_string.data.find(m.says) == std::string::npos)
      return ctx.fail("record", at + "error text: " + mc::show(e.error_string.data) + " and the function says " + mc::show(m.says));
    if (x.whole || m.called)
      if (sorted(e.missing_members.data) != sorted(m.missing) || sorted(e.unassigned_required_members.data) != sorted(m.unassigned))
        return ctx.fail("record", at + "missing " + join(e.missing_members.data) + " unassigned " + join(e.unassigned_required_members.data) +
                                    " instead of " + join(m.missing) + " and " + join(m.unassigned));
  }
  if (x.broken)
  {
    JV out;
    if (!jv::document(g.out, out))
      ctx.fail("output", mc::show(g.out) + " is not well-formed");
    return;
  }
  bool ok = x.whole && !x.stopped;
  if ((g.error == JS::Error::NoError) != ok)
    return ctx.fail("outcome", "callFunctions returns " + std::to_string(int(g.error)));
  if (x.error != JS::Error::NoError && g.error != x.error)
    return ctx.fail("outcome", "callFunctions returns " + std::to_string(int(g.error)) + " instead of " + std::to_string(int(x.error)));
  if (!x.array)
  {
    if (!g.out.empty())
      ctx.fail("output", mc::show(g.out));
    return;
  }
  JV out;
  if (!jv::document(g.out, out) || !jv::same(out, x.results))
    return ctx.fail("output", mc::show(g.out) + " instead of " + jv::show(x.results));
  if (compact && g.out != jv::show(out))
    return ctx.fail("output", "not compact: " + mc::show(g.out));
}
static Set set_of(int bits)
{
  Set s;
  s.allow_missing = bits & 1;
  s.stop = bits & 2;
  s.strict = bits & 4;
  return s;
}
static void one(mc::Ctx &ctx, const std::string &text, int sets, size_t mode = 0)
{
  for (int b = 0; b < 8; b++)
  {
    if (!(sets >> b & 1))
      continue;
    Set set = set_of(b);
    ctx.exec(
      [&] {
        return "calls=" + mc::show(text) + (set.allow_missing ? " allow_missing" : "") + (set.stop ? " stop_execute_on_fail" : "") +
               (set.strict ? " strict members" : "") + (mode ? " cut " + std::to_string(mode) : "");
      },
      [&] {
        Expect x = expect(text, set);
        Got g = drive(text, set, mode, b & 1);
        ctx.steps(g.list.size() + 1);
        ctx.state(mc::Hash().add(join(g.log)).add(g.out).add(uint64_t(g.error)).add(uint64_t(b)).get());
        if (g.list.size() > 1)
          ctx.nontrivial();
        judge(ctx, x, g, set, b & 1);
        report(ctx, g, b & 1);
      });
  }
}
static void with_calls(mc::Ctx &ctx, const std::vector<std::string> &calls, size_t depth, const std::function<void(const std::string &)> &visit)
{
  std::function<void(const std::string &, size_t)> go = [&](const std::string &s, size_t n) {
    visit("{" + s + "}");
    if (n == depth)
      return;
    for (auto &c : calls)
    {
      auto next = [&] { go(s.empty() ? c : s + "," + c, n + 1); };
      if (n == 0)
        ctx.block(next);
      else
        next();
    }
  };
  go("", 0);
}

// arguments of any depth for functions that do not exist, take none, or take something else
static void deep(mc::Ctx &ctx, int pattern, size_t n, const char *name, bool called)
{
  ctx.exec([&] { return std::string(name) + " called with " + abyss::what(pattern, n); },
           [&] {
             std::string v = abyss::value(pattern, n), text = std::string("{\"f_ii\":4,\"") + name + "\":" + v + ",\"r0\":5}";
             std::string out;
             All all;
             g_log.clear();
             JS::DefaultCallFunctionContext c(text.data(), text.size(), out);
             c.callFunctions(all);
             ctx.steps(n);
             ctx.nontrivial();
             ctx.state(mc::Hash().add(std::string(name)).add(uint64_t(n * 8 + size_t(pattern))));
             if (g_log.size() != 2u + called || g_log.front().compare(0, 4, "f_ii") || g_log.back().compare(0, 9, "Root0::r0"))
               return ctx.fail("calls", join(g_log));
             if (c.execution_list.size() != 3 || c.execution_list[0].error != JS::Error::NoError || c.execution_list[2].error != JS::Error::NoError || (c.execution_list[1].error == JS::Error::NoError) != called)
               return ctx.fail("records", std::to_string(c.execution_list.size()) + " calls are recorded");
           });
}

int main(int argc, char **argv)
{
  if (!freopen("/dev/null", "w", stderr)) // a value given to a function without parameter is announced there
    return 2;
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    bool T = ctx.thorough;
    const std::vector<std::string> names = {"f_vi", "f_ii", "I", "s1", "both", "f-sP", "f_sP", "P", "f_Pv", "f_vm", "f_v", "f_i", "f_t", "f_o", "over",
                                            "e_ii", "e_vs", "e_i", "e_v", "e_P", "c_PP", "c_vb", "c_s", "c_v", "m0", "m-one", "m1", "r0", "r1", "r1a", "s0",
                                            "x0", "x", "x1", "", "f", "f_", "f_iii", "F_II", "i", "f\\u005fi", "none"};
    const std::vector<std::string> values = {"1", "13", "-2.5", "\"a\\n\"", "\"13\"", "\"5\"", "true", "null", "{}", "[]", "[1,2]", "[13,\"x\"]", "[[1],{\"a\":2}]",
                                             "{\"p\":3,\"q\":\"z\"}", "{\"p\":13}", "{\"q\":\"q\",\"zz\":[{\"p\":1}]}", "{\"p\":[1,{\"q\":2}],\"q\":{}}", "{\"a\":1,\"b\":2}",
                                             "{\"a\":{\"b\":3},\"c\":[]}"};
    // every function with every value, between two others
    for (auto &n : names)
      ctx.block([&] {
        for (auto &v : values)
        {
          std::string c = "\"" + n + "\":" + v;
          one(ctx, "{" + c + "}", 255);
          one(ctx, "{\"f_ii\":4," + c + ",\"f_i\":null}", 255);
          one(ctx, "{" + c + "," + c + "}", 255);
          one(ctx, "{ \"e_i\" : [ ] ,\n" + c + " , \"c_v\":{},\"e_ii\":6 }", 255);
          std::string t = "{\"r0\":5," + c + ",\"c_s\":{\"a\":[]}}";
          for (size_t m = 1; m <= t.size(); m++)
            one(ctx, t, m % 3 == 0 ? 1 << (m / 3 % 8) : 1, m);
          // cut off anywhere
          for (size_t m = 0; m < t.size(); m++)
          {
            one(ctx, t.substr(0, m), 0x11);
            one(ctx, t.substr(0, m) + "}", 0x3);
            one(ctx, t.substr(0, m) + "?", 0x1);
          }
        }
      });
    // sequences
    std::vector<std::string> calls;
    for (const char *c : {"\"f_ii\":1", "\"f_ii\":[1,{}]", "\"I\":13", "\"f-sP\":{\"p\":1,\"q\":\"s\"}", "\"P\":{\"zz\":{\"p\":1}}", "\"f_Pv\":[1,2]", "\"f_Pv\":[1,{\"x\":[]},3]",
                          "\"f_vm\":{\"a\":1,\"b\":{}}", "\"f_v\":{\"a\":[1]}", "\"f_i\":[]", "\"f_t\":[1,\"x\"]", "\"f_t\":[1]", "\"over\":3", "\"e_ii\":13", "\"e_ii\":14",
                          "\"e_vs\":\"13\"", "\"e_i\":{}", "\"c_PP\":{\"p\":13,\"q\":\"\"}", "\"c_vb\":\"x\"", "\"c_s\":null", "\"c_v\":[{}]", "\"m0\":true", "\"r1a\":\"t\"",
                          "\"s0\":true", "\"x\":[7]", "\"none\":1", "\"none\":{\"f_ii\":1}", "\"none\":[[],\"f_i\"]"})
      calls.push_back(c);
    with_calls(ctx, calls, T ? 5 : 4, [&](const std::string &t) { one(ctx, t, 255); });
    std::vector<std::string> few(calls.begin(), calls.begin() + 3);
    for (size_t i : {6, 8, 12, 13, 16, 20, 26})
      few.push_back(calls[i]);
    with_calls(ctx, few, T ? 7 : 5, [&](const std::string &t) { one(ctx, t, 255); });
    // any text
    mc::strings(ctx, {"{", "}", "[", "]", ",", ":", "\"f_ii\"", "\"e_i\"", "\"no\"", "1", " "}, T ? 8 : 6, 2, [&](const std::string &s, int) {
      one(ctx, s, 0x15);
      return true;
    });
    // roots of another kind, and every byte of a document changed
    for (const char *t : {"[]", "[1]", "[{\"f_i\":1}]", " ", "", "x", "{}", " { } ", "{\"f_i\":1}{\"f_i\":2}"})
      one(ctx, t, 255);
    const std::string doc = "{\"f_ii\":7,\"f-sP\":{\"p\":13,\"q\":\"s\"},\"no\":[1,[]],\"e_ii\":13,\"f_Pv\":[1,2],\"r1\":\"\\n\"}";
    for (size_t p = 0; p < doc.size(); p++)
      ctx.block([&] {
        std::string s = doc;
        s.erase(p, 1);
        one(ctx, s, 255);
        for (char c : std::string("{}[],:\"\\x1-. \n"))
        {
          s = doc;
          s[p] = c;
          one(ctx, s, 255);
          s = doc;
          s.insert(p, 1, c);
          one(ctx, s, 255);
        }
      });
    // arguments in which one thing is large
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
      for (size_t n : scale::ladder(std::min<size_t>(scale::most(kind, T), T ? 66000 : 5000)))
        ctx.block([&] {
          std::string v = scale::value(kind, n);
          int k = 0;
          for (const char *f : {"f_ii", "f_Pv", "f_vm", "f_v", "f_t", "e_vs", "c_s", "f-sP", "r1", "none", "e_i", "c_vb"})
          {
            one(ctx, std::string("{\"f_ii\":4,\"") + f + "\":" + v + ",\"r0\":5,\"e_ii\":13}", n > 40 ? 1 << (k % 8) : 255);
            if (n < 300)
              one(ctx, std::string("{\"") + f + "\":" + v + ",\"f-sP\":{\"p\":1,\"zz\":" + v + "},\"x1\":2}", 1 << (k % 8), 1 + n * 7 % v.size());
            k++;
          }
        });
    // many calls
    for (size_t n : scale::ladder(T ? 4100 : 1030))
      ctx.block([&] {
        for (size_t step : {size_t(0), size_t(1), size_t(5), size_t(11)})
        {
          std::string t = "{" + scale::list(n, ",", [&](size_t i) { return calls[(n + i * step) % calls.size()]; }) + "}";
          one(ctx, t, n > 100 ? 0x15 : 255);
          one(ctx, t, 1, 1 + t.size() / 2);
        }
        std::string l(n, 'l'), a(n, '1');
        one(ctx, "{\"" + l + "\":1,\"f_ii\":1}", 255);
        one(ctx, "{\"f_ii" + l + "\":1,\"f_ii\":1}", 255);
        one(ctx, "{\"r1\":\"" + l + "\",\"e_vs\":\"" + a + "3\",\"c_vb\":\"" + l + "\"}", 255);
      });
    for (size_t n : abyss::depths())
      for (int p = 0; p < abyss::PATTERNS; p++)
      {
        for (const char *f : {"none", "f_Pv", "f_vm", "f_t"})
          deep(ctx, p, n, f, false);
        deep(ctx, p, n, "f_v", true);
        deep(ctx, p, n, "c_s", true);
      }
  });
}
