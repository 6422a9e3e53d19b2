// Feeding a text to a tokenizer in pieces.
#pragma once
#include "js_util.h"
#include <memory>

// Owns heap copies of the pieces; a released piece is overwritten and freed, so that anything that
// still refers to it shows up as a difference (or as a sanitizer report).
struct Pieces
{
  std::vector<std::unique_ptr<char[]>> buf;
  std::vector<size_t> len;
  std::vector<int> released; // how often the tokenizer released the piece
  std::vector<int> order;
  bool unknown = false;

  explicit Pieces(const std::string &s, const std::vector<size_t> &cuts)
  {
    size_t b = 0;
    for (size_t k = 0; k <= cuts.size(); k++)
    {
      size_t e = k < cuts.size() ? cuts[k] : s.size();
      std::unique_ptr<char[]> p(new char[e - b ? e - b : 1]);
      memcpy(p.get(), s.data() + b, e - b);
      buf.push_back(std::move(p));
      len.push_back(e - b);
      b = e;
    }
    released.assign(buf.size(), 0);
  }
  void on_release(const char *p)
  {
    for (size_t i = 0; i < buf.size(); i++)
      if (buf[i] && buf[i].get() == p)
      {
        released[i]++;
        order.push_back(int(i));
        memset(buf[i].get(), 'X', len[i]);
        buf[i].reset();
        return;
      }
    unknown = true;
  }
};

enum Feed
{
  UPFRONT,  // every piece added before the first token is asked for
  CALLBACK, // the need-more-data callback adds the next piece
  RETRY     // the caller adds the next piece after NeedMoreData and asks again
};

inline Run run_pieces(const std::string &s, const std::vector<size_t> &cuts, Feed feed, const ref::Opt &o)
{
  Run r;
  Pieces p(s, cuts);
  JS::Tokenizer t;
  set_flags(t, o);
  std::function<void(const char *)> rel = [&](const char *d) { p.on_release(d); };
  t.setReleaseCallback(rel);
  size_t next = 0;
  if (feed == UPFRONT)
    for (; next < p.buf.size(); next++)
      t.addData(p.buf[next].get(), p.len[next]);
  else if (feed == CALLBACK)
    t.setNeedMoreDataCallback([&](JS::Tokenizer &tk) {
      if (next < p.buf.size())
      {
        tk.addData(p.buf[next].get(), p.len[next]);
        next++;
      }
    });
  size_t limit = s.size() + 2;
  JS::Token k;
  for (;;)
  {
    r.end = t.nextToken(k);
    if (r.end == JS::Error::NoError)
    {
      r.toks.push_back(snap(k));
      if (r.toks.size() > limit)
      {
        r.runaway = true;
        return r;
      }
      continue;
    }
    if (r.end == JS::Error::NeedMoreData && next < p.buf.size())
    {
      if (feed == RETRY)
      {
        t.addData(p.buf[next].get(), p.len[next]);
        next++;
        continue;
      }
      r.runaway = true; // asked for nothing although data was left
      return r;
    }
    return r;
  }
}

inline std::string show_cuts(const std::string &s, const std::vector<size_t> &cuts)
{
  std::string o;
  size_t b = 0;
  for (size_t k = 0; k <= cuts.size(); k++)
  {
    size_t e = k < cuts.size() ? cuts[k] : s.size();
    o += mc::show(s.substr(b, e - b));
    if (k < cuts.size())
      o += "<|>";
    b = e;
  }
  return o;
}
