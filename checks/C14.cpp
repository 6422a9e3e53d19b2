// Operation sequences on a Map, compared after every step with the list of properties it should hold.
#include "docs.h"
#include "trees.h"
#include "types.h"
#include "scale.h"

struct Whole
{
  int a = 0;
  std::optional<double> b;
  std::vector<int> c;
  std::optional<P> d;
  JS_OBJ(a, b, c, d);
  template <class V>
  static void reflect(V &v)
  {
    v({"a"}, &Whole::a);
    v({"b"}, &Whole::b);
    v({"c"}, &Whole::c);
    v({"d"}, &Whole::d);
  }
};

struct State
{
  JS::Map map;
  JV model;
};
// names as they are, not as they are written
static std::vector<std::string> all_names()
{
  return {"a", "b", "c", "d", "q\"x", "", "absent"};
}
static JV *find(JV &m, const std::string &name)
{
  for (auto &k : m.kids)
    if (ref::decode(k.name) == name)
      return &k;
  return nullptr;
}

// casting to T gives what the model's value denotes
template <class T>
static std::string cast_one(const JS::Map &m, const std::string &name, const JV *v)
{
  T want = T(), got = T();
  Env env;
  bool ok = v && M<T>::read(*v, want, env);
  JS::ParseContext pc;
  JS::Error e = m.castToType(name, pc, got);
  if ((e == JS::Error::NoError) != ok || pc.error != e)
    return "casting '" + name + "' to " + type_name<T>() + " gives error " + std::to_string(int(e));
  if (!v && e != JS::Error::KeyNotFound)
    return "looking for '" + name + "' gives error " + std::to_string(int(e));
  if (ok && dump(got) != dump(want))
    return "casting '" + name + "' to " + type_name<T>() + " gives " + dump(got) + ", should give " + dump(want);
  if (v)
  {
    T by_iterator = T();
    JS::ParseContext p2;
    if (m.castToType(m.find(name), p2, by_iterator) != e || (ok && dump(by_iterator) != dump(want)))
      return "casting by iterator differs from casting by name";
    T by_value = m.template castTo<T>(name, p2);
    if (ok && dump(by_value) != dump(want))
      return "castTo differs from castToType";
  }
  return "";
}
static JV normal(JV v)
{
  std::stable_sort(v.kids.begin(), v.kids.end(), [&](const JV &a, const JV &b) { return v.kind == JV::Obj && ref::decode(a.name) < ref::decode(b.name); });
  for (auto &k : v.kids)
    k = normal(k);
  return v;
}

static std::string observe(const JS::Map &m, const JV &modelc)
{
  JV model = modelc;
  std::string r;
  // iteration visits exactly the properties
  size_t n = 0;
  for (auto it = m.begin(); it != m.end(); ++it, n++)
  {
    if (n > model.kids.size())
      return "iteration does not end";
    std::string name = ref::decode(std::string(it->name.data, it->name.size));
    JV *k = find(model, name);
    if (!k)
      return "iteration visits '" + name + "'";
    if (k->container() ? it->value_type != (k->kind == JV::Obj ? JS::Type::ObjectStart : JS::Type::ArrayStart)
                       : ref::decode(std::string(it->value.data, it->value.size)) != ref::decode(k->text))
      return "iteration visits '" + name + "' with another value";
  }
  if (n != model.kids.size())
    return "iteration visits " + std::to_string(n) + " of " + std::to_string(model.kids.size()) + " properties";
  // from every property on, with an iterator that was another one before
  n = 0;
  for (auto it = m.begin(); it != m.end(); ++it, n++)
  {
    JS::Map::It at = n % 2 ? m.begin() : m.end();
    at = n % 3 ? it : m.find(ref::decode(std::string(it->name.data, it->name.size)));
    size_t left = 0;
    for (; at != m.end() && left <= model.kids.size(); ++at)
      left++;
    if (left != model.kids.size() - n)
      return "iteration from property " + std::to_string(n) + " on visits " + std::to_string(left) + " properties";
  }
  for (auto &name : all_names())
  {
    JV *k = find(model, name);
    bool found = m.find(name) != m.end();
    if (found != (k != nullptr))
      return "'" + name + "' is " + (found ? "found" : "not found");
    if (m.tokens.data.empty())
      continue;
    if (!(r = cast_one<int>(m, name, k)).empty() || !(r = cast_one<bool>(m, name, k)).empty() || !(r = cast_one<Vec<int>>(m, name, k)).empty() ||
        !(r = cast_one<P>(m, name, k)).empty() || !(r = cast_one<StrMap<Vec<int>>>(m, name, k)).empty() || !(r = cast_one<std::optional<double>>(m, name, k)).empty())
      return r;
    if (k && k->container())
      continue;
    if (!(r = cast_one<std::string>(m, name, k)).empty())
      return r;
  }
  // the whole
  if (!m.tokens.data.empty())
  {
    Whole want, got;
    Env env;
    bool ok = M<Whole>::read(model, want, env);
    JS::ParseContext pc;
    JS::Error e = m.castToType(pc, got);
    if ((e == JS::Error::NoError) != ok || (ok && dump(got) != dump(want)))
      return "casting the whole gives error " + std::to_string(int(e)) + " " + dump(got) + " should give " + dump(want);
  }
  for (int style = 0; style < 2; style++)
  {
    std::string text = JS::serializeStruct(m, JS::SerializerOptions(style ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
    JV back;
    if (!jv::document(text, back) || !jv::same(normal(back), normal(model)))
      return "serialises to " + mc::show(text) + ", should hold " + jv::show(model);
  }
  return "";
}

struct Op
{
  std::string name;
  std::function<std::string(State &)> run;
};
template <class T>
static Op set_op(const std::string &name, size_t which)
{
  T v = M<T>::make(which);
  return Op{"set '" + name + "' to " + dump(v), [name, v](State &s) -> std::string {
              JS::ParseContext pc;
              if (s.map.setValue(name, pc, v) != JS::Error::NoError)
                return "setValue gives an error";
              JV k;
              M<T>::write(v, k);
              k.name = ref::encode(name);
              if (JV *old = find(s.model, name))
                *old = k;
              else
                s.model.kids.push_back(k);
              return "";
            }};
}

static std::vector<Op> ops(bool more)
{
  std::vector<Op> r;
  for (const char *name : {"a", "b"})
  {
    r.push_back(set_op<int>(name, 1));
    r.push_back(set_op<std::string>(name, 2));
    r.push_back(set_op<Vec<int>>(name, M<Vec<int>>::count() - 1));
    r.push_back(set_op<P>(name, 5));
  }
  r.push_back(set_op<StrMap<Vec<int>>>("c", M<StrMap<Vec<int>>>::count() - 1));
  r.push_back(set_op<bool>("c", 1));
  r.push_back(set_op<P>("d", 3));
  r.push_back(set_op<Vec<P>>("d", M<Vec<P>>::count() - 1));
  r.push_back(set_op<int>("q\"x", 0));
  r.push_back(set_op<int>("", 1));
  if (more)
    for (const char *name : {"c", "d", "q\"x"})
    {
      r.push_back(set_op<Q>(name, 7));
      r.push_back(set_op<double>(name, 1));
    }
  r.push_back(Op{"set the whole", [](State &s) -> std::string {
                   Whole w = M<Whole>::make(M<Whole>::count() / 2 + 3);
                   JS::ParseContext pc;
                   if (s.map.setValue(pc, w) != JS::Error::NoError)
                     return "setValue gives an error";
                   s.model = JV();
                   M<Whole>::write(w, s.model);
                   return "";
                 }});
  r.push_back(Op{"copy, change and drop the original", [](State &s) -> std::string {
                   JS::Map copy(s.map);
                   {
                     JS::Map old(std::move(s.map));
                     JS::ParseContext pc;
                     (void)old.setValue(std::string("a"), pc, std::string("a text that only the original holds"));
                     (void)old.setValue(std::string("z"), pc, std::string("another text"));
                   }
                   s.map = copy;
                   return "";
                 }});
  r.push_back(Op{"change a copy", [](State &s) -> std::string {
                   JS::Map copy;
                   copy = s.map;
                   std::string r = observe(copy, s.model);
                   if (!r.empty())
                     return "the copy: " + r;
                   JS::ParseContext pc;
                   (void)copy.setValue(std::string("a"), pc, -77);
                   (void)copy.setValue(std::string("b"), pc, std::string("a text that only the copy holds"));
                   return "";
                 }});
  r.push_back(Op{"move", [](State &s) -> std::string {
                   JS::Map to(std::move(s.map));
                   s.map = JS::Map();
                   s.map = std::move(to);
                   return "";
                 }});
  r.push_back(Op{"set 'd' to a copy of the map", [](State &s) -> std::string {
                   if (jv::nodes(s.model) > 40)
                     return "";
                   JS::ParseContext pc;
                   if (s.map.setValue(std::string("d"), pc, s.map) != JS::Error::NoError)
                     return "setValue gives an error";
                   JV k = s.model;
                   k.name = "d";
                   if (JV *old = find(s.model, "d"))
                     *old = k;
                   else
                     s.model.kids.push_back(k);
                   return "";
                 }});
  return r;
}

static const std::vector<std::string> &start_docs()
{
  static const std::vector<std::string> d = {
    "",
    "{}",
    "{\"a\":1}",
    "{\"a\":[1,2],\"b\":\"x\"}",
    "{\"b\":{\"p\":1,\"q\":\"y\"},\"a\":{\"a\":5,\"b\":[]}}",
    "{\"c\":{\"a\":[3],\"c\":[]},\"d\":[{\"p\":2,\"q\":\"z\"},{}],\"a\":null}",
    "{\"q\\\"x\":[[[]],{}],\"\":true,\"c\":[],\"b\":-1.5e3}",
    "{ \"d\" : { \"d\" : { \"d\" : { } } } , \"a\" : \"\\u0041\\n\" }",
  };
  return d;
}
static bool start(State &s, const std::string &text, const std::shared_ptr<std::vector<char>> &keep)
{
  s.model = JV();
  s.model.kind = JV::Obj;
  s.map = JS::Map();
  if (text.empty())
    return true;
  JS::ParseContext pc(keep->data(), keep->size());
  return pc.parseTo(s.map) == JS::Error::NoError && jv::first(text, s.model);
}

// a map that holds something else than an object has no properties: nothing is found and nothing can be set
static void no_object(mc::Ctx &ctx, const std::string &text)
{
  ctx.exec([&] { return "no object: " + (text.empty() ? "nothing" : text); },
           [&] {
             std::string doc = "{\"first\":1,\"x\":" + text + ",\"last\":2}";
             Mid<JS::Map> m;
             JV v, x;
             jv::document(doc, v);
             JS::ParseContext pc(doc);
             if (!text.empty() && pc.parseTo(m) != JS::Error::NoError)
               return ctx.fail("start", "not read");
             if (!text.empty())
               x = v.kids[1];
             for (int copied = 0; copied < 2; copied++)
             {
               JS::Map map(m.x);
               if (!copied)
                 map = std::move(m.x);
               for (auto &name : all_names())
               {
                 int i = 5;
                 JS::ParseContext p;
                 JS::Error e = map.castToType(name, p, i);
                 if (e == JS::Error::NoError || p.error != e || i != 5)
                   return ctx.fail("lookup", "casting '" + name + "' gives " + std::to_string(i));
                 if (map.castTo<int>(name, p) != 0 || p.error != e)
                   return ctx.fail("lookup", "castTo '" + name + "'");
                 if (text.empty())
                   continue;
                 JS::ParseContext q;
                 e = map.setValue(name, q, std::string("something new"));
                 if (e == JS::Error::NoError || q.error != e)
                   return ctx.fail("assignment", "setting '" + name + "' is accepted");
               }
               ctx.steps(all_names().size() * 2);
               ctx.state(mc::Hash().add(text).add(uint64_t(copied)).get());
               if (text.empty())
                 return;
               if (copied)
                 ctx.nontrivial();
               // it is as it was
               std::string out = JS::serializeStruct(map);
               JV got;
               std::string arr = "[" + out + "]";
               if (!jv::document(arr, got) || got.kids.size() != 1 || !jv::same(got.kids[0], x))
                 return ctx.fail("content", "it is now " + out);
               Vec<int> want, have;
               Env env;
               JS::ParseContext p;
               bool ok = M<Vec<int>>::read(x, want, env);
               if ((map.castToType(p, have) == JS::Error::NoError) != ok || (ok && dump(want) != dump(have)))
                 return ctx.fail("content", "cast as a whole to " + dump(have));
               m.x = map;
               if (!copied)
                 continue;
               // an object replaces it
               JS::ParseContext q;
               P w = M<P>::make(3);
               JV model;
               M<P>::write(w, model);
               if (map.setValue(q, w) != JS::Error::NoError)
                 return ctx.fail("assignment", "of the whole");
               std::string r = observe(map, model);
               if (!r.empty())
                 return ctx.fail("map", "after an assignment of the whole: " + r);
             }
           });
}

int main(int argc, char **argv)
{
  return mc::run_main(argc, argv, [](mc::Ctx &ctx) {
    ctx.block([&] {
      no_object(ctx, "");
      for (const char *t : {"1", "\"a\"", "true", "null", "\"a text of some length that has to live somewhere\""})
        no_object(ctx, t);
    });
    {
      trees::Shape sh;
      sh.scalars = docs::vals({"1", "\"a\""});
      sh.names = {"a", "b"};
      auto by = trees::all(sh, ctx.thorough ? 6 : 5);
      for (auto &l : by)
        ctx.block([&] {
          for (auto &v : l)
            if (v.kind == JV::Arr)
              no_object(ctx, jv::show(v));
        });
    }
    std::vector<Op> o = ops(ctx.thorough);
    const size_t depth = ctx.thorough ? 4 : 3;
    for (auto &text : start_docs())
    {
      std::function<void(std::vector<size_t> &)> go = [&](std::vector<size_t> &seq) {
        ctx.exec([&] {
          std::string d = text.empty() ? "empty map" : text;
          for (size_t i : seq)
            d += " | " + o[i].name;
          return d;
        },
                 [&] {
                   auto keep = std::make_shared<std::vector<char>>(text.begin(), text.end());
                   keep->shrink_to_fit();
                   State s;
                   if (!start(s, text, keep))
                     return ctx.fail("start", "the document is not read");
                   std::string r = seq.size() ? "" : observe(s.map, s.model);
                   // every proper prefix is an execution of its own and has been observed there
                   for (size_t i = 0; i < seq.size() && r.empty(); i++)
                   {
                     r = o[seq[i]].run(s);
                     if (r.empty() && i + 1 == seq.size())
                       r = observe(s.map, s.model);
                   }
                   ctx.steps(seq.size() + 1);
                   ctx.state(mc::Hash().add(jv::show(s.model)));
                   if (seq.size() > 1)
                     ctx.nontrivial();
                   if (!r.empty())
                     ctx.fail("map", r);
                 });
        if (seq.size() == depth)
          return;
        for (size_t i = 0; i < o.size(); i++)
        {
          seq.push_back(i);
          if (seq.size() == 1)
            ctx.block([&] { go(seq); });
          else
            go(seq);
          seq.pop_back();
        }
      };
      std::vector<size_t> seq;
      go(seq);
    }
    // every object up to a number of nodes: lookups, casts and one edit
    trees::Shape sh;
    sh.scalars = docs::vals({"1", "\"s\""});
    sh.names = {"a", "b", "c"};
    sh.distinct = true;
    auto by = trees::all(sh, ctx.thorough ? 6 : 5);
    for (size_t n = 1; n < by.size(); n++)
      for (size_t i = 0; i < by[n].size(); i += 50)
        ctx.block([&] {
          for (size_t k = i; k < std::min(by[n].size(), i + 50); k++)
            if (by[n][k].kind == JV::Obj)
              for (size_t op = 0; op <= o.size(); op++)
              {
                if (op > 0 && n == by.size() - 1 && (op + k) % 4)
                  continue;
                std::string text = jv::show(by[n][k]);
                ctx.exec([&] { return text + (op ? " | " + o[op - 1].name : ""); },
                         [&] {
                           auto keep = std::make_shared<std::vector<char>>(text.begin(), text.end());
                           State s;
                           if (!start(s, text, keep))
                             return ctx.fail("start", "the document is not read");
                           std::string r = op ? o[op - 1].run(s) : "";
                           if (r.empty())
                             r = observe(s.map, s.model);
                           ctx.steps(2);
                           ctx.state(mc::Hash().add(jv::show(s.model)));
                           ctx.nontrivial();
                           if (!r.empty())
                             ctx.fail("map", r);
                         });
              }
        });
    // objects in which one thing is large: lookups, casts and one or two edits
    for (int kind = 0; kind < scale::STRICT_KINDS; kind++)
    {
      std::vector<size_t> sizes = scale::ladder(std::min<size_t>(scale::most(kind, ctx.thorough), ctx.thorough ? 66000 : 300));
      if (kind == scale::ARRAY_NUMBERS || kind == scale::ARRAY_EMPTY || kind == scale::PROPERTIES_COMPLEX)
        for (size_t n : {1023, 1024, 1025, 4097, 32768, 65533, 65535, 65536})
          sizes.push_back(n);
      for (size_t n : sizes)
        ctx.block([&] {
          std::string v = scale::value(kind, n);
          std::vector<std::string> texts = {"{\"a\":" + v + ",\"b\":[1,{}]}", "{\"d\":{\"p\":1,\"q\":\"y\"},\"big\":" + v + ",\"a\":" + v + ",\"c\":7}"};
          if ((kind == scale::PROPERTIES || kind == scale::PROPERTIES_COMPLEX) && n <= 1025)
            texts.push_back(v);
          for (auto &text : texts)
            for (size_t op = 0; op <= o.size(); op++)
            {
              if ((n > 40 && op && (op + n) % 5) || (n > 1000 && op > 5))
                continue;
              ctx.exec([&] { return mc::show(text) + (op ? " | " + o[op - 1].name : ""); },
                       [&] {
                         auto keep = std::make_shared<std::vector<char>>(text.begin(), text.end());
                         State s;
                         if (!start(s, text, keep))
                           return ctx.fail("start", "the document is not read");
                         std::string r = op ? o[op - 1].run(s) : "";
                         if (r.empty() && op)
                           r = o[(op + n) % o.size()].run(s);
                         if (r.empty())
                           r = observe(s.map, s.model);
                         ctx.steps(3);
                         ctx.state(mc::Hash().add(jv::show(s.model)));
                         ctx.nontrivial();
                         if (!r.empty())
                           ctx.fail("map", r);
                       });
            }
        });
    }
    // many edits
    for (size_t n : scale::ladder(ctx.thorough ? 1030 : 260))
      for (int from = 0; from < 3; from++)
        ctx.block([&] {
          ctx.exec([&] { return std::to_string(n) + " edits of " + (from ? start_docs()[size_t(from) + 3] : std::string("an empty map")); },
                   [&] {
                     const std::string text = from ? start_docs()[size_t(from) + 3] : "";
                     auto keep = std::make_shared<std::vector<char>>(text.begin(), text.end());
                     State s;
                     if (!start(s, text, keep))
                       return ctx.fail("start", "the document is not read");
                     std::string r;
                     for (size_t i = 0; i < n && r.empty(); i++)
                     {
                       std::string name = "k" + std::to_string(i % 3 == 2 ? i / 2 : i);
                       switch (i % 5)
                       {
                       case 0:
                         r = set_op<Vec<int>>(name, i % M<Vec<int>>::count()).run(s);
                         break;
                       case 1:
                         r = set_op<std::string>(name, i % M<std::string>::count()).run(s);
                         break;
                       case 2:
                         r = set_op<P>(name, i % M<P>::count()).run(s);
                         break;
                       case 3:
                         r = set_op<StrMap<Vec<int>>>(name, i % M<StrMap<Vec<int>>>::count()).run(s);
                         break;
                       default:
                         r = set_op<int>(name, i % M<int>::count()).run(s);
                       }
                     }
                     if (r.empty())
                       r = observe(s.map, s.model);
                     for (size_t i = 0; i < n && r.empty(); i++)
                     {
                       std::string name = "k" + std::to_string(i);
                       JV *k = find(s.model, name);
                       if ((s.map.find(name) != s.map.end()) != (k != nullptr))
                         r = "'" + name + "' is not as it should be";
                       else if (k && ((r = cast_one<Vec<int>>(s.map, name, k)).empty()))
                         r = cast_one<P>(s.map, name, k);
                     }
                     ctx.steps(n);
                     ctx.nontrivial();
                     ctx.state(mc::Hash().add(jv::show(s.model)));
                     if (!r.empty())
                       ctx.fail("map", r);
                   });
        });
  });
}
