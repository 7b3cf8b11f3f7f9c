// Property-based testing engine for the C runtime harnesses.
//
// A property is a function of a choice source (Src).  Every random decision is drawn from the source and recorded,
// so a case is its list of choices: replaying the list reproduces the case, editing the list shrinks it.
// Cases run in forked workers, so that sanitizer aborts, assertion failures and endless loops become failures too.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <cstdarg>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <dirent.h>

namespace pbt {

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

struct Fail { std::string tag, msg; };
struct Discard {};

inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline std::string hex(const uint8_t *p, size_t n, size_t max = 48) {
  std::string r; char b[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", p[i]); r += b; }
  if (n > max) r += "..";
  return r;
}

constexpr size_t MAXLOG = 4096;
struct Shared {             // one per worker, visible to the parent
  volatile uint64_t nlog;
  volatile uint64_t log[MAXLOG];
  volatile int64_t caseIdx;
  volatile int sub;
};

struct Src {
  bool replay = false;
  std::vector<uint64_t> in;
  size_t pos = 0;
  uint64_t rng = 0;
  std::vector<uint64_t> log;
  Shared *sh = nullptr;
  bool nontriv = false;
  std::string desc;
  std::vector<std::string> labels;

  uint64_t raw(uint64_t n, uint64_t v) {  // record a decision in [0, n) (n==0: full range)
    if (replay) { v = pos < in.size() ? in[pos] : 0; pos++; if (n && v >= n) v = v % n; }
    if (log.size() < MAXLOG) { if (sh) { sh->log[log.size()] = v; sh->nlog = log.size() + 1; } }
    else throw Discard();
    log.push_back(v);
    return v;
  }
  uint64_t below(uint64_t n) { if (n <= 1) return 0; return raw(n, splitmix(rng) % n); }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool coin(int num = 1, int den = 2) { return (int)below(den) >= den - num; }   // shrinks to false
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class T> const T &pickv(const std::vector<T> &l) { return l[below(l.size())]; }
  // interesting 64-bit patterns: small numbers, powers of two and neighbours, random widths, all ones
  uint64_t u64() {
    switch (below(6)) {
      case 0: return below(300);
      case 1: { int w = (int)below(64); return (1ULL << w) + (uint64_t)range(-2, 2); }
      case 2: { int w = (int)below(64) + 1; uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1; return raw(0, splitmix(rng)) & m; }
      case 3: return ~0ULL - below(300);
      case 4: { int w = (int)below(8) + 1; uint64_t m = w == 8 ? ~0ULL : (1ULL << (8 * w)) - 1; return m - below(4); }
      default: return raw(0, splitmix(rng));
    }
  }
  // same, within [lo, hi]
  uint64_t uIn(uint64_t lo, uint64_t hi) {
    uint64_t r = hi - lo;
    if (r == 0) return lo;
    switch (below(4)) {
      case 0: return lo + (r < 4 ? below(r + 1) : below(4));
      case 1: return hi - (r < 4 ? below(r + 1) : below(4));
      case 2: { uint64_t o = u64(); return lo + (r == ~0ULL ? o : o % (r + 1)); }
      default: return lo + (r == ~0ULL ? raw(0, splitmix(rng)) : below(r + 1));
    }
  }
  int64_t iIn(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + uIn(0, (uint64_t)hi - (uint64_t)lo)); }
  int64_t i64() { return (int64_t)u64() ; }
  // bulk contents from a single choice
  void fill(uint8_t *p, size_t n) {
    uint64_t mode = below(4);
    if (mode == 0) { memset(p, 0, n); return; }
    if (mode == 1) { memset(p, 0xFF, n); return; }
    uint64_t s = raw(0, splitmix(rng));
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(splitmix(s) >> 24);
  }
  std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); fill(v.data(), n); return v; }
  void label(const std::string &l) { labels.push_back(l); }
  void interesting(const std::string &d = "") { nontriv = true; if (!d.empty()) desc = d; }
};

#define PBT_FAIL(tag, ...) throw pbt::Fail{tag, pbt::fmt(__VA_ARGS__)}
#define PBT_CHECK(cond, tag, ...) do { if (!(cond)) PBT_FAIL(tag, __VA_ARGS__); } while (0)

struct Check { std::string name; std::function<void(Src &)> fn; long quick, thorough; };

inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

struct Outcome { int kind; std::string tag, msg; };  // 0 pass, 1 oracle failure, 2 crash, 3 hang

struct Engine {
  std::vector<Check> checks;
  uint64_t seed = 1; bool thorough = false; int workers = 8; std::string out = "result.json", only, tmp = "/tmp";
  std::set<std::string> known; double scale = 1.0; int cpuLimit = 20;
  struct Stat { uint64_t evals = 0, discards = 0, excluded = 0; std::set<uint64_t> nontriv; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };
  struct F { std::string sub, tag, msg; std::vector<uint64_t> log; long idx; };
  std::map<std::string, Stat> stats; std::vector<F> fails;

  static void alarm_cpu(int sec) {
    struct itimerval t = {}; t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr);
  }
  static uint64_t hashlog(const std::vector<uint64_t> &l, const std::string &n) {
    uint64_t h = std::hash<std::string>()(n);
    for (auto v : l) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; }
    return h;
  }
  static std::string crashTag(const std::string &err, int st) {
    // "SUMMARY: AddressSanitizer: heap-buffer-overflow file:1:2 in func" / UBSan "file:1:2: runtime error: ..." / assert
    size_t p = err.find("SUMMARY: ");
    std::string kind = "signal" , fn;
    if (WIFSIGNALED(st)) { kind += std::to_string(WTERMSIG(st)); }
    size_t a = err.find("Assertion `");
    if (a != std::string::npos) {
      size_t b = err.rfind('\n', a); b = b == std::string::npos ? 0 : b + 1;
      std::string l = err.substr(b, a - b);    // prog: file.c:12: func: 
      std::vector<std::string> parts; size_t s = 0;
      while (true) { size_t e = l.find(": ", s); if (e == std::string::npos) break; parts.push_back(l.substr(s, e - s)); s = e + 2; }
      fn = parts.empty() ? "" : parts.back(); size_t q = fn.find('('); if (q != std::string::npos) fn = fn.substr(0, q);
      q = fn.rfind(' '); if (q != std::string::npos) fn = fn.substr(q + 1);
      return "assert:" + fn;
    }
    if (p != std::string::npos) {
      std::string l = err.substr(p + 9, err.find('\n', p) - p - 9);
      size_t c = l.find(": "); if (c != std::string::npos) l = l.substr(c + 2);
      kind = l.substr(0, l.find(' '));
      size_t i = l.rfind(" in "); if (i != std::string::npos) fn = l.substr(i + 4);
      if (fn.empty() || fn.find("__asan") == 0 || fn == "memcpy" || fn == "memset" || fn.find("interceptor") != std::string::npos || fn == "strlen" || fn == "strcpy" || fn == "strcat") {
        // first frame with a source position in the runtime
        size_t f = err.find("    #1 "); if (f != std::string::npos) { size_t in = err.find(" in ", f); size_t e = err.find(' ', in + 4); fn = err.substr(in + 4, e - in - 4); }
      }
      if (kind == "undefined-behavior") {
        size_t r = err.find("runtime error: "); if (r != std::string::npos) { std::string m = err.substr(r + 15, err.find('\n', r) - r - 15); std::string k; for (char ch : m) { if (isdigit((unsigned char)ch) || ch == '-' || ch=='\'') continue; k += ch; if (k.size() > 40) break; } kind = "ub(" + k + ")"; }
        size_t f = err.find("    #0 "); if (f != std::string::npos) { size_t in = err.find(" in ", f); size_t e = err.find_first_of(" (", in + 4); fn = err.substr(in + 4, e - in - 4); }
      }
    }
    std::string t = kind + ":" + fn; std::string r; for (char ch : t) r += (ch == ' ' || ch == ',') ? '_' : ch; return r;
  }

  void runBody(const Check &c, Src &s, Outcome &o) {
    try { c.fn(s); o.kind = 0; }
    catch (Fail &f) { o = {1, f.tag, f.msg}; }
    catch (Discard &) { o.kind = -1; }
  }
  // run one recorded case in a child
  Outcome runChild(const Check &c, const std::vector<uint64_t> &in) {
    int pf[2]; if (pipe(pf)) abort();
    std::string ef = tmp + "/err." + std::to_string(getpid());
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      close(pf[0]); int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 2); dup2(fd, 1);
      alarm_cpu(cpuLimit);
      Src s; s.replay = true; s.in = in; Outcome o; runBody(c, s, o);
      std::string m = std::to_string(o.kind) + "\n" + o.tag + "\n" + o.msg; (void)!write(pf[1], m.data(), m.size()); _exit(0);
    }
    close(pf[1]); std::string m; char b[4096]; ssize_t n; while ((n = read(pf[0], b, sizeof b)) > 0) m.append(b, n); close(pf[0]);
    int st; waitpid(p, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !m.empty()) {
      o.kind = atoi(m.c_str()); size_t a = m.find('\n'), e = m.find('\n', a + 1); o.tag = m.substr(a + 1, e - a - 1); o.msg = m.substr(e + 1);
    } else crash(o, st, ef);
    unlink(ef.c_str());
    return o;
  }
  void crash(Outcome &o, int st, const std::string &ef) {
    std::string err; FILE *f = fopen(ef.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && err.size() < 60000) err.append(b, n); fclose(f); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) { o = {3, "hang", "no result after " + std::to_string(cpuLimit) + " s of CPU time"}; return; }
    o = {2, crashTag(err, st), err.substr(0, 1500)};
  }
  std::vector<uint64_t> shrink(const Check &c, std::vector<uint64_t> cur, Outcome &o) {
    int budget = o.kind == 3 ? 6 : 600; double t0 = now();
    auto tryit = [&](std::vector<uint64_t> cand) {
      if (budget-- <= 0 || now() - t0 > 20) return false;
      Outcome r = runChild(c, cand);
      if (r.kind > 0 && r.tag == o.tag) { cur = cand; o = r; return true; }
      return false;
    };
    bool again = true;
    while (again && budget > 0) {
      again = false;
      for (size_t k = cur.size(); k >= 1; k /= 2)
        for (size_t i = 0; i + k <= cur.size();) { auto d = cur; d.erase(d.begin() + i, d.begin() + i + k); if (tryit(d)) again = true; else i += k; }
      for (size_t i = 0; i < cur.size() && budget > 0; i++) {
        if (cur[i] == 0) continue;
        auto d = cur; d[i] = 0; if (tryit(d)) { again = true; continue; }
        uint64_t lo = 0, hi = cur[i];
        while (lo + 1 < hi && budget > 0) { uint64_t mid = lo + (hi - lo) / 2; d = cur; d[i] = mid; if (tryit(d)) { hi = mid; again = true; } else lo = mid; }
      }
    }
    return cur;
  }
  static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

  void worker(size_t w, Shared *sh, long startIdx, int startSub, const std::string &dump) {
    FILE *f = fopen(dump.c_str(), "a");
    std::set<std::string> seen;
    for (int si = startSub; si < (int)checks.size(); si++) {
      const Check &c = checks[si];
      if (!only.empty() && c.name.compare(0, only.size(), only) != 0) continue;
      long total = (long)((thorough ? c.thorough : c.quick) * scale);
      Stat st; int nf = 0;
      std::vector<uint64_t> nth;
      auto flush = [&]() {
        fprintf(f, "S %d %llu %llu %llu\n", si, (unsigned long long)st.evals, (unsigned long long)st.discards, (unsigned long long)st.excluded);
        for (auto &l : st.labels) fprintf(f, "L %d %llu %s\n", si, (unsigned long long)l.second, l.first.c_str());
        for (auto &d : st.samples) fprintf(f, "X %d %s\n", si, d.c_str());
        for (auto h : nth) fprintf(f, "H %d %llx\n", si, (unsigned long long)h);
        fflush(f); st = Stat(); nth.clear();
      };
      long i = si == startSub ? startIdx : (long)w;
      for (; i < total; i += workers) {
        Src s; uint64_t x = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)i * 0xD1B54A32D192ED03ULL + std::hash<std::string>()(c.name); s.rng = splitmix(x); s.rng ^= splitmix(x);
        s.sh = sh; sh->nlog = 0; sh->caseIdx = i; sh->sub = si;
        alarm_cpu(cpuLimit);
        Outcome o; runBody(c, s, o);
        if (o.kind == -1) { st.discards++; continue; }
        st.evals++;
        for (auto &l : s.labels) st.labels[l]++;
        if (s.nontriv) { nth.push_back(hashlog(s.log, c.name)); if (st.samples.size() < 2 && !s.desc.empty() && i < 64) { std::string d = s.desc; for (auto &ch : d) if (ch == '\n') ch = ' '; st.samples.push_back(d); } }
        if (o.kind == 1) {
          if (known.count(c.name + "/" + o.tag)) st.excluded++;
          if (seen.insert(c.name + "/" + o.tag).second) {
            fprintf(f, "F %d %ld %zu", si, i, s.log.size()); for (auto v : s.log) fprintf(f, " %llx", (unsigned long long)v); fprintf(f, "\n"); fflush(f);
            nf++;
          }
        }
        if ((st.evals & 1023) == 0) flush();
      }
      flush();
    }
    fclose(f);
  }

  int main(int argc, char **argv) {
    std::string replayFile;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
      else if (a == "--thorough") thorough = true;
      else if (a == "--out") out = argv[++i];
      else if (a == "--only") only = argv[++i];
      else if (a == "--tmp") tmp = argv[++i];
      else if (a == "--workers") workers = atoi(argv[++i]);
      else if (a == "--scale") scale = atof(argv[++i]);
      else if (a == "--known") known.insert(argv[++i]);
      else if (a == "--replay") replayFile = argv[++i];
    }
    if (!replayFile.empty()) {   // file: sub \n hex choices
      FILE *f = fopen(replayFile.c_str(), "r"); char nm[256]; if (!f || fscanf(f, "%255s", nm) != 1) return 2;
      std::vector<uint64_t> l; unsigned long long v; while (fscanf(f, "%llx", &v) == 1) l.push_back(v); fclose(f);
      for (auto &c : checks) if (c.name == nm) { Outcome o = runChild(c, l); printf("%d\n%s\n%s\n", o.kind, o.tag.c_str(), o.msg.c_str()); return 0; }
      return 2;
    }
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(workers, 0); std::map<std::pair<int, int>, int> crashCount;
    auto spawn = [&](int w, long idx, int sub) {
      fflush(nullptr); pid_t p = fork();
      if (p == 0) {
        std::string ef = tmp + "/werr." + std::to_string(w); int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 2); dup2(fd, 1);
        worker(w, &sh[w], idx, sub, tmp + "/dump." + std::to_string(w)); _exit(0);
      }
      pid[w] = p;
    };
    for (int w = 0; w < workers; w++) { unlink((tmp + "/dump." + std::to_string(w)).c_str()); spawn(w, w, 0); }
    std::vector<F> raw; int alive = workers; std::map<std::string, int> crashSeen;
    while (alive > 0) {
      int st; pid_t p = wait(&st); if (p < 0) break;
      int w = -1; for (int k = 0; k < workers; k++) if (pid[k] == p) w = k;
      if (w < 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
      Outcome o; crash(o, st, tmp + "/werr." + std::to_string(w));
      std::string key = checks[sh[w].sub].name + "/" + o.tag;
      std::vector<uint64_t> l; for (uint64_t k = 0; k < sh[w].nlog; k++) l.push_back((uint64_t)sh[w].log[k]);
      if (!crashSeen[key]++) raw.push_back({checks[sh[w].sub].name, o.tag, o.msg, l, (long)sh[w].caseIdx});
      stats[checks[sh[w].sub].name].evals++;
      if (known.count(key)) stats[checks[sh[w].sub].name].excluded++;
      int &rc = crashCount[{w, sh[w].sub}]; rc += o.kind == 3 ? 10 : 1;
      if (rc >= 25) spawn(w, w, sh[w].sub + 1);      // this worker stops exploring this sub-property
      else spawn(w, sh[w].caseIdx + workers, sh[w].sub);
    }
    for (int w = 0; w < workers; w++) {
      FILE *f = fopen((tmp + "/dump." + std::to_string(w)).c_str(), "r"); if (!f) continue;
      char *line = nullptr; size_t cap = 0;
      while (getline(&line, &cap, f) > 0) {
        char *e = line + strlen(line) - 1; if (*e == '\n') *e = 0;
        int si = atoi(line + 2); Stat &st = stats[checks[si].name]; char *r = strchr(line + 2, ' '); r = r ? r + 1 : (char *)"";
        if (line[0] == 'S') { unsigned long long a, b, c; if (sscanf(r, "%llu %llu %llu", &a, &b, &c) == 3) { st.evals += a; st.discards += b; st.excluded += c; } }
        else if (line[0] == 'L') { char *q; unsigned long long n = strtoull(r, &q, 10); st.labels[q + 1] += n; }
        else if (line[0] == 'X') { if (st.samples.size() < 4) st.samples.push_back(r); }
        else if (line[0] == 'H') st.nontriv.insert(strtoull(r, nullptr, 16));
        else if (line[0] == 'F') { char *q; long idx = strtol(r, &q, 10); size_t n = strtoull(q, &q, 10); std::vector<uint64_t> l; for (size_t k = 0; k < n; k++) l.push_back(strtoull(q, &q, 16)); raw.push_back({checks[si].name, "", "", l, idx}); }
      }
      free(line); fclose(f); unlink((tmp + "/dump." + std::to_string(w)).c_str()); unlink((tmp + "/werr." + std::to_string(w)).c_str());
    }
    std::sort(raw.begin(), raw.end(), [](const F &a, const F &b) { return a.sub < b.sub || (a.sub == b.sub && a.idx < b.idx); });
    std::set<std::string> done;
    for (auto &r : raw) {
      const Check *c = nullptr; for (auto &k : checks) if (k.name == r.sub) c = &k;
      Outcome o = runChild(*c, r.log);
      if (o.kind <= 0) { // not reproducible in isolation: report as found, flagged
        if (done.insert(r.sub + "/unreproduced").second) fails.push_back({r.sub, "unreproduced", r.tag + " " + r.msg, r.log, r.idx});
        continue;
      }
      if (!done.insert(r.sub + "/" + o.tag).second) continue;
      auto l = known.count(r.sub + "/" + o.tag) ? r.log : shrink(*c, r.log, o);
      fails.push_back({r.sub, o.tag, o.msg, l, r.idx});
    }
    FILE *f = fopen(out.c_str(), "w"); fprintf(f, "{\"stats\":{");
    bool first = true;
    for (auto &c : checks) {
      if (!stats.count(c.name)) continue; auto &s = stats[c.name];
      fprintf(f, "%s%s:{\"evaluations\":%llu,\"discards\":%llu,\"excluded_known\":%llu,\"distinct_nontrivial\":%zu,\"labels\":{", first ? "" : ",", jstr(c.name).c_str(), (unsigned long long)s.evals, (unsigned long long)s.discards, (unsigned long long)s.excluded, s.nontriv.size());
      first = false; bool g = true; for (auto &l : s.labels) { fprintf(f, "%s%s:%llu", g ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); g = false; }
      fprintf(f, "},\"samples\":["); g = true; for (auto &x : s.samples) { fprintf(f, "%s%s", g ? "" : ",", jstr(x).c_str()); g = false; } fprintf(f, "]}");
    }
    fprintf(f, "},\"failures\":["); first = true;
    for (auto &x : fails) {
      fprintf(f, "%s{\"sub\":%s,\"tag\":%s,\"case\":%ld,\"msg\":%s,\"choices\":[", first ? "" : ",", jstr(x.sub).c_str(), jstr(x.tag).c_str(), x.idx, jstr(x.msg).c_str()); first = false;
      bool g = true; for (auto v : x.log) { fprintf(f, "%s\"%llx\"", g ? "" : ",", (unsigned long long)v); g = false; } fprintf(f, "]}");
    }
    fprintf(f, "]}\n"); fclose(f);
    return 0;
  }
};
}  // namespace pbt
