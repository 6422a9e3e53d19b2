// Small explicit-state exploration runtime shared by every harness.
//
// A harness calls mc::run_main(argc, argv, property, enumerate).  `enumerate(Ctx&)` walks a bounded
// space of executions deterministically and calls ctx.exec(describe, body) once per execution.  The
// runtime forks N workers that each walk the same space and run the executions of their own stripe
// (index % N == shard), so the space is covered completely whatever N is.  A worker that crashes
// (signal, sanitizer report, failed assertion) or stops making progress is turned into a violation
// of the execution it was running, which is first re-run alone to confirm it.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{
inline double now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

inline std::string jstr(const std::string &in)
{
  std::string o = "\"";
  char b[16];
  for (unsigned char c : in)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += char(c);
    }
    else if (c < 0x20 || c >= 0x7f)
    {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += char(c);
  }
  return o + "\"";
}

// printable, unambiguous rendering of bytes
inline std::string show(const std::string &in)
{
  std::string o;
  char b[8];
  for (size_t i = 0; i < in.size(); i++)
  {
    unsigned char c = static_cast<unsigned char>(in[i]);
    size_t same = 1;
    while (i + same < in.size() && in[i + same] == in[i])
      same++;
    if (same > 120)
    {
      o += "<" + std::to_string(same) + " x " + show(std::string(1, in[i])) + ">";
      i += same - 1;
      continue;
    }
    if (o.size() > 6000 && in.size() - i > 200)
    {
      size_t skip = in.size() - i - 100;
      o += "<" + std::to_string(skip) + " more>";
      i += skip;
      c = static_cast<unsigned char>(in[i]);
    }
    if (c == '\\')
      o += "\\\\";
    else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += "\\t";
    else if (c == '\r')
      o += "\\r";
    else if (c < 0x20 || c >= 0x7f)
    {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    }
    else
      o += char(c);
  }
  return o;
}

struct Slot
{
  volatile uint64_t index;      // index of the execution in progress
  volatile uint64_t busy;       // 1 while inside a body
  volatile uint64_t executed;   // bodies run by this worker
  volatile uint64_t steps;      // transitions (tokens, operations, chunk hand-overs ...)
  volatile uint64_t nontrivial; // executions the harness marked as exercising the property
  volatile uint64_t finished;
  volatile uint64_t beat;
};

enum
{
  DESC_MAX = 1 << 16
};

struct Report
{
  uint64_t index;
  std::string kind, desc, msg;
};

struct Shared
{
  Slot slot[64];
  volatile uint64_t failed; // some worker found a violation
  char desc[DESC_MAX]; // used by the confirmation child
  uint64_t seen[1u << 23]; // 2^29-bit set of the hashes of the states reached, shared by the workers
};

struct Hash
{
  uint64_t h = 0xcbf29ce484222325ull;
  Hash &add(const void *p, size_t n)
  {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
      h = (h ^ c[i]) * 0x100000001b3ull;
    h = (h ^ n) * 0x100000001b3ull;
    return *this;
  }
  Hash &add(const std::string &s)
  {
    return add(s.data(), s.size());
  }
  Hash &add(uint64_t v)
  {
    return add(&v, sizeof v);
  }
  uint64_t get() const
  {
    uint64_t x = h;
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    x ^= x >> 33;
    return x;
  }
};

class Ctx
{
public:
  bool thorough = false;
  int shard = 0, shards = 1;
  uint64_t start_at = 0;
  int64_t only = -1;
  std::string only_desc; // replay by description
  Slot *slot = nullptr;
  Shared *shm = nullptr;
  FILE *out = nullptr;
  uint64_t counter = 0;
  int failures = 0;
  int max_failures = 8;
  uint64_t cur = 0;
  std::string (*describe_fn)(void *) = nullptr;
  void *describe_ptr = nullptr;
  uint64_t blocks = 0;
  bool in_block = false;
  int samples_left = 0;
  bool failed_now = false;

  void steps(uint64_t n = 1)
  {
    slot->steps = slot->steps + n;
  }
  void nontrivial()
  {
    slot->nontrivial = slot->nontrivial + 1;
  }
  // records a state (of the model, or of what was observed) by its hash; distinct ones are counted
  void state(uint64_t hash)
  {
    uint64_t bit = hash & ((1ull << 29) - 1);
    uint64_t m = 1ull << (bit & 63);
    uint64_t *w = &shm->seen[bit >> 6];
    if (!(__atomic_load_n(w, __ATOMIC_RELAXED) & m))
      __atomic_fetch_or(w, m, __ATOMIC_RELAXED);
  }
  void state(const Hash &h)
  {
    state(h.get());
  }

  // A block is a part of the space that one worker explores alone (a subtree, say); the other
  // workers skip it without generating it.  Outside a block every execution is its own block.
  template <class F>
  void block(F body)
  {
    uint64_t b = blocks++;
    if (only >= 0)
    {
      if (b != uint64_t(only) >> 32)
        return;
    }
    else if (int(b % uint64_t(shards)) != shard || b < (start_at >> 32))
      return;
    in_block = true;
    counter = b << 32;
    body();
    in_block = false;
  }

  template <class D, class F>
  void exec(D describe, F body)
  {
    uint64_t idx;
    if (in_block)
    {
      idx = counter++;
      if (only >= 0)
      {
        if (idx != uint64_t(only))
          return;
      }
      else if (idx < start_at)
        return;
    }
    else
    {
      uint64_t b = blocks++;
      idx = b << 32;
      if (only >= 0)
      {
        if (idx != uint64_t(only))
          return;
      }
      else if (int(b % uint64_t(shards)) != shard || idx < start_at)
        return;
    }
    if (failures >= max_failures)
      return;
    if (!only_desc.empty() && describe() != only_desc)
      return;
    cur = idx;
    slot->index = idx;
    slot->beat = slot->beat + 1;
    if (only >= 0)
    {
      std::string d = describe();
      if (d.size() >= DESC_MAX)
        d.resize(DESC_MAX - 1);
      memcpy(shm->desc, d.c_str(), d.size() + 1);
    }
    failed_now = false;
    describe_fn = [](void *p) { return std::string((*static_cast<D *>(p))()); };
    describe_ptr = &describe;
    slot->busy = 1;
    body();
    slot->busy = 0;
    slot->executed = slot->executed + 1;
    if (samples_left > 0 && (slot->executed & (slot->executed - 1)) == 0)
    {
      samples_left--;
      fprintf(out, "S %s\n", jstr(describe()).c_str());
      fflush(out);
    }
  }
  void fail(const std::string &kind, const std::string &msg)
  {
    if (failed_now)
      return;
    failed_now = true;
    failures++;
    shm->failed = 1;
    fprintf(out, "F %llu %s %s %s\n", (unsigned long long)cur, jstr(kind).c_str(), jstr(describe_fn(describe_ptr)).c_str(),
            jstr(msg.substr(0, 4000)).c_str());
    fflush(out);
  }
  bool ok_if(bool cond, const std::string &kind, const std::string &msg)
  {
    if (!cond)
      fail(kind, msg);
    return cond;
  }
};

inline int run_main(int argc, char **argv, const std::function<void(Ctx &)> &enumerate)
{
  bool thorough = false;
  int shards = 8;
  double hang_s = 10;
  std::string outpath = "/dev/stdout", replay;
  long long only_cli = -1;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--thorough")
      thorough = true;
    else if (a == "--shards")
      shards = atoi(argv[++i]);
    else if (a == "--out")
      outpath = argv[++i];
    else if (a == "--hang")
      hang_s = atof(argv[++i]);
    else if (a == "--replay")
      replay = argv[++i];
    else if (a == "--only")
      only_cli = atoll(argv[++i]);
  }
  if (shards > 60)
    shards = 60;
  Shared *shm =
    (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now();
  std::vector<std::string> tmp(64);
  char base[] = "/tmp/mcXXXXXX";
  if (!mkdtemp(base))
  {
    perror("mkdtemp");
    return 2;
  }
  std::string dir = base;

  auto worker = [&](int shard, uint64_t start_at, long long only, const std::string &file, const std::string &od) {
    Ctx c;
    c.thorough = thorough;
    c.shard = shard;
    c.shards = shards;
    c.start_at = start_at;
    c.only = only;
    c.only_desc = od;
    c.shm = shm;
    c.slot = &shm->slot[shard];
    c.out = fopen(file.c_str(), "a");
    c.samples_left = (only < 0 && start_at == 0) ? 12 : 0;
    std::string errf = file + ".err";
    int fd = open(errf.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
    if (fd >= 0)
      dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0)
      dup2(nul, 1);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
    rl.rlim_cur = rl.rlim_max = 3ull << 30; // runaway allocation ends the worker, not the machine
    setrlimit(RLIMIT_AS, &rl);
#endif
    enumerate(c);
    c.slot->finished = 1;
    fclose(c.out);
    _exit(0);
  };

  auto tail = [](const std::string &f) {
    std::string s;
    if (FILE *fp = fopen(f.c_str(), "r"))
    {
      char b[65536];
      size_t n = fread(b, 1, sizeof b, fp);
      s.assign(b, n);
      fclose(fp);
    }
    size_t p = s.find("runtime error");
    if (p == std::string::npos)
      p = s.find("Assertion");
    if (p == std::string::npos)
      p = s.find("ERROR:");
    if (p != std::string::npos)
      s = s.substr(p > 200 ? p - 200 : 0);
    return s.substr(0, 1500);
  };

  if (!replay.empty() || only_cli >= 0)
  {
    shards = 1;
    std::string f = dir + "/r";
    pid_t p = fork();
    if (p == 0)
      worker(0, 0, only_cli, f, replay);
    int st = 0;
    waitpid(p, &st, 0);
    std::string cmd = "cat " + f + " " + f + ".err 2>/dev/null";
    int unused = system(cmd.c_str());
    (void)unused;
    unlink(f.c_str());
    unlink((f + ".err").c_str());
    rmdir(base);
    printf("exit status %d\n", st);
    return st ? 1 : 0;
  }

  std::vector<pid_t> pid(shards, 0);
  std::vector<uint64_t> last_beat(shards, 0);
  std::vector<double> last_t(shards, now());
  std::vector<int> crashes(shards, 0);
  std::vector<Report> reports;
  bool incomplete = false;
  for (int s = 0; s < shards; s++)
  {
    tmp[s] = dir + "/w" + std::to_string(s);
    pid[s] = fork();
    if (pid[s] == 0)
      worker(s, 0, -1, tmp[s], "");
  }

  // re-run one execution alone, with a long limit
  auto confirm = [&](int s, uint64_t idx, std::string &desc, std::string &why) -> bool {
    std::string f = dir + "/c";
    unlink(f.c_str());
    unlink((f + ".err").c_str());
    shm->desc[0] = 0;
    Slot saved = shm->slot[s];
    shm->slot[s].busy = 0;
    pid_t p = fork();
    if (p == 0)
    {
      worker(s, 0, (long long)idx, f, "");
    }
    double t = now();
    int st = 0;
    bool done = false;
    // generating the prefix of the space again takes time of its own
    double in = 0;
    while (in ? now() - in < 4 * hang_s : now() - t < 6 * hang_s + 120)
    {
      if (!in && shm->slot[s].busy)
        in = now();
      if (waitpid(p, &st, WNOHANG) == p)
      {
        done = true;
        break;
      }
      usleep(20000);
    }
    if (!done)
    {
      bool in_body = shm->slot[s].busy;
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      desc = shm->desc;
      why = "does not terminate";
      memcpy((void *)&shm->slot[s], (void *)&saved, sizeof saved);
      return in_body;
    }
    memcpy((void *)&shm->slot[s], (void *)&saved, sizeof saved);
    desc = shm->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      return false;
    why = "crash: " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                       : "exit " + std::to_string(WEXITSTATUS(st))) +
          " " + tail(f + ".err");
    unlink(f.c_str());
    unlink((f + ".err").c_str());
    return true;
  };

  int live = shards;
  // a violation is an answer: the rest of the space gets a little more time to show a smaller one
  const double grace = getenv("MC_FIRST") ? 0 : 20;
  double stop_at = 0;
  while (live > 0)
  {
    usleep(20000);
    if (!stop_at && (shm->failed || !reports.empty()))
      stop_at = now() + grace;
    if (stop_at && now() >= stop_at)
    {
      for (int s = 0; s < shards; s++)
        if (pid[s])
        {
          int st = 0;
          kill(pid[s], SIGKILL);
          waitpid(pid[s], &st, 0);
          incomplete = true;
        }
      break;
    }
    for (int s = 0; s < shards; s++)
    {
      if (!pid[s])
        continue;
      int st = 0;
      pid_t r = waitpid(pid[s], &st, WNOHANG);
      bool hang = false;
      if (r == 0)
      {
        uint64_t b = shm->slot[s].beat;
        if (b != last_beat[s] || !shm->slot[s].busy)
        {
          last_beat[s] = b;
          last_t[s] = now();
          continue;
        }
        if (now() - last_t[s] < hang_s)
          continue;
        hang = true;
        kill(pid[s], SIGKILL);
        waitpid(pid[s], &st, 0);
      }
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->slot[s].finished)
      {
        pid[s] = 0;
        live--;
        continue;
      }
      // died or hung
      uint64_t idx = shm->slot[s].index;
      bool in_body = shm->slot[s].busy;
      crashes[s]++;
      if (!in_body)
      {
        fprintf(stderr, "worker %d died outside an execution (status %d): %s\n", s, st, tail(tmp[s] + ".err").c_str());
        incomplete = true;
        pid[s] = 0;
        live--;
        continue;
      }
      std::string desc, why;
      if (hang && !reports.empty())
        ;
      else if (confirm(s, idx, desc, why))
        reports.push_back({idx, hang ? "hang" : "crash", desc, why});
      else if (!hang)
        reports.push_back({idx, "crash-in-sequence", desc,
                           "crashed while running with other executions before it: " + tail(tmp[s] + ".err")});
      if (crashes[s] >= 3)
      {
        incomplete = true;
        pid[s] = 0;
        live--;
        continue;
      }
      if (hang && !reports.empty())
      {
        // one that hangs is an answer; others like it would only cost time
        incomplete = true;
        pid[s] = 0;
        live--;
        stop_at = stop_at ? stop_at : now() + grace;
        break;
      }
      unlink((tmp[s] + ".err").c_str());
      shm->slot[s].busy = 0;
      uint64_t from = idx + 1;
      pid[s] = fork();
      if (pid[s] == 0)
        worker(s, from, -1, tmp[s], "");
      last_t[s] = now();
    }
  }

  uint64_t executed = 0, steps = 0, nontrivial = 0, states = 0;
  for (uint64_t w : shm->seen)
    states += uint64_t(__builtin_popcountll(w));
  std::string samples;
  int nsamples = 0;
  std::string freport;
  int nf = 0;
  for (int s = 0; s < shards; s++)
  {
    executed += shm->slot[s].executed;
    steps += shm->slot[s].steps;
    nontrivial += shm->slot[s].nontrivial;
    if (FILE *fp = fopen(tmp[s].c_str(), "r"))
    {
      char *line = nullptr;
      size_t cap = 0;
      ssize_t n;
      while ((n = getline(&line, &cap, fp)) > 0)
      {
        if (line[n - 1] != '\n')
          continue; // cut off when the worker was stopped
        line[--n] = 0;
        if (line[0] == 'S' && nsamples < 24)
        {
          samples += (nsamples++ ? "," : "") + std::string(line + 2);
        }
        else if (line[0] == 'F')
        {
          // F idx "kind" "desc" "msg" -> [idx,"kind","desc","msg"]
          std::string rec = "[";
          const char *p = line + 2;
          while (*p && *p != ' ')
            rec += *p++;
          int fields = 0;
          while (*p && fields < 3)
          {
            while (*p == ' ')
              p++;
            rec += ",";
            const char *q = p + 1;
            while (*q && *q != '"')
            {
              if (*q == '\\' && q[1])
                q++;
              q++;
            }
            rec.append(p, size_t(q + 1 - p));
            p = q + 1;
            fields++;
          }
          rec += "]";
          freport += (nf++ ? "," : "") + rec;
        }
      }
      free(line);
      fclose(fp);
    }
    unlink(tmp[s].c_str());
    unlink((tmp[s] + ".err").c_str());
  }
  for (auto &r : reports)
    freport += (nf++ ? "," : "") + std::string("[") + std::to_string(r.index) + "," + jstr(r.kind) + "," +
               jstr(r.desc) + "," + jstr(r.msg) + "]";
  unlink((dir + "/c").c_str());
  unlink((dir + "/c.err").c_str());
  rmdir(base);
  FILE *o = fopen(outpath.c_str(), "w");
  fprintf(o,
          "{\"executed\":%llu,\"steps\":%llu,\"nontrivial\":%llu,\"states\":%llu,"
          "\"complete\":%s,\"wall_s\":%.2f,\"samples\":[%s],\"failures\":[%s]}\n",
          (unsigned long long)executed, (unsigned long long)steps,
          (unsigned long long)nontrivial, (unsigned long long)states, incomplete ? "false" : "true", now() - t0,
          samples.c_str(), freport.c_str());
  fclose(o);
  return 0;
}

// ---- enumeration helpers ----

// All strings over `sym` of up to max_depth symbols, depth-first.  visit(str, depth) returns false to
// prune the extensions.  Subtrees rooted at split_depth are blocks (explored by one worker each);
// the nodes above them are visited by everyone, so visit must call ctx.exec for its executions.
inline void strings(Ctx &ctx, const std::vector<std::string> &sym, int max_depth, int split_depth,
                    const std::function<bool(const std::string &, int)> &visit)
{
  std::string cur;
  std::function<void(int)> rec = [&](int depth) {
    if (!visit(cur, depth))
      return;
    if (depth == max_depth)
      return;
    for (auto &s : sym)
    {
      size_t n = cur.size();
      cur += s;
      if (depth + 1 == split_depth)
        ctx.block([&] { rec(depth + 1); });
      else
        rec(depth + 1);
      cur.resize(n);
    }
  };
  rec(0);
}
} // namespace mc
