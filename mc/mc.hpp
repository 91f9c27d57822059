// mc.hpp - a small stateless model checker for GANDALF.
//
// A *scenario* is a function that runs one execution of the real code.  Every source of
// variation in it is an explicit call to Ctx::choose(n); the explorer enumerates *all* choice
// sequences depth-first (never sampling), in forked worker processes, and records
//   - runs        : executions completed
//   - transitions : operations executed on the implementation (reported by the scenario)
//   - states      : distinct observed states (64 bit hashes reported by the scenario)
//   - outcomes    : distinct observed outcomes
// A violation is (scenario, choice sequence, key, message).  Every violation is replayed alone in
// a fresh process before it is reported.  Death of a worker (assertion failure, signal, exit())
// is itself a violation of the running execution; exploration resumes behind it.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

namespace mc {

static const int MAXDEPTH = 512;
static const int MAXV = 48;
struct SkipPrefix {};
struct Prune {};                       // thrown by Ctx::prune(): execution is not a legal input

struct Violation { char key[160]; char msg[1400]; int scen; int depth; int16_t ch[MAXDEPTH]; long count; };

struct Slot {                          // one per worker, in shared memory
  volatile int running;                // an execution is in progress
  volatile int scen;                   // current scenario
  volatile int depth;
  int16_t ch[MAXDEPTH], ar[MAXDEPTH];
  volatile long prefix;                // prefix counter of the DFS
  volatile long progress;
  volatile int done; volatile int recycled;
  long runs[64], trans[64], pruned[64], nontriv[64];
  int nviol; Violation viol[MAXV];
  int nsample; char sample[4][700];
};

struct Ctx {
  // configuration
  bool thorough = false, replaying = false, verbose = false;
  // DFS state
  std::vector<int16_t> ch, ar;
  size_t pos = 0;
  int split = 2; bool owned = false; long *prefix = nullptr; std::atomic<unsigned char>* claimed = nullptr;
  long nclaim = 0; bool startfresh = true;
  Slot* slot = nullptr;
  // results of this run
  bool failed = false; std::vector<std::pair<std::string,std::string>> fails;
  std::unordered_set<uint64_t> *states = nullptr, *outs = nullptr;
  bool nontrivial = false; std::string desc;
  long ntrans = 0;

  int choose(int n, const char* what = 0) {
    if (n <= 0) { fail("harness", "choose(%d)", n); throw Prune(); }
    int v;
    if (pos < ch.size()) {
      if (replaying && ch[pos] >= n) { fail("harness:replay-divergence", "choice %d of %d at %zu", ch[pos], n, pos); throw Prune(); }
      if (!replaying && ar[pos] != n) { fail("harness:nondeterminism", "arity %d became %d at choice %zu", ar[pos], n, pos); throw Prune(); }
      v = ch[pos];
      if (replaying) ar[pos] = n;
    } else {
      if (replaying) { v = 0; ch.push_back(0); ar.push_back(n); }
      else {
        v = 0; ch.push_back(0); ar.push_back(n);
        if (ch.size() > (size_t)MAXDEPTH) { fail("harness:depth", "too many choices"); throw Prune(); }
      }
    }
    pos++;
    if (slot) { slot->ch[pos-1] = v; slot->ar[pos-1] = n; slot->depth = pos; }
    if (!replaying && (int)pos == split && !owned) claim();
    if (verbose && what) fprintf(stderr, "  choose %-24s %d/%d\n", what, v, n);
    return v;
  }
  void claim() {
    long idx = (*prefix)++;
    if (slot) slot->prefix = *prefix;
    if (idx >= nclaim || claimed[idx].exchange(1) == 0) owned = true;
    else throw SkipPrefix();
  }
  template<class T> const T& pick(const std::vector<T>& v, const char* what = 0) { return v[choose((int)v.size(), what)]; }
  template<class T> T pick(std::initializer_list<T> v, const char* what = 0) { return v.begin()[choose((int)v.size(), what)]; }
  bool flip(const char* what = 0) { return choose(2, what) == 1; }
  void prune() { throw Prune(); }
  void step(long k = 1) { ntrans += k; }
  void state(uint64_t h) { if (states) states->insert(h); }
  void outcome(uint64_t h) { if (outs) outs->insert(h); }
  void interesting() { nontrivial = true; }
  void describe(const std::string& s) { desc = s; }
  void fail(const char* key, const char* fmt, ...) __attribute__((format(printf,3,4))) {
    char buf[1300]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    failed = true;
    if (fails.size() < 20) fails.push_back(std::make_pair(std::string(key), std::string(buf)));
    if (verbose) fprintf(stderr, "FAIL [%s] %s\n", key, buf);
  }
  // |a-b| <= rel*max(|a|,|b|,scale)
  bool near(const char* key, const char* what, double a, double b, double rel, double scale = 0.0) {
    if (a == b) return true;
    double s = std::max(std::max(std::fabs(a), std::fabs(b)), scale);
    if (std::fabs(a - b) <= rel*s) return true;
    fail(key, "%s: got %.17g expected %.17g (tol %.3g)", what, a, b, rel*s);
    return false;
  }
  bool check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf,4,5))) {
    if (ok) return true;
    char buf[1300]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    fail(key, "%s", buf); return false;
  }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
struct Hash { uint64_t h = 1469598103934665603ULL;
  Hash& i(long v) { h = mix(h, (uint64_t)v); return *this; }
  Hash& d(double v) { float f = (float)v; if (f == 0) f = 0; uint32_t u; memcpy(&u, &f, 4); h = mix(h, u); return *this; }
  Hash& s(const std::string& x) { for (char c : x) h = mix(h, (unsigned char)c); return *this; } };

struct Scenario { std::string name; std::function<void(Ctx&)> body; int split; bool thorough_only; std::string doc; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char* n, const char* doc, std::function<void(Ctx&)> b, int split = 2, bool thor = false) { Scenario s; s.name=n; s.doc=doc; s.body=b; s.split=split; s.thorough_only=thor; scenarios().push_back(s);} };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

struct Opts { bool thorough = false; int workers = 8; std::string out; double budget = 1e9; std::string only; std::vector<int> replay; bool doreplay = false; bool list = false; double hang = 120; };
static volatile int* g_stop = nullptr;

// run one execution; returns 0 ok, 1 pruned, 2 skipped
inline int run_once(Ctx& c, const Scenario& s) {
  c.pos = 0; c.failed = false; c.fails.clear(); c.nontrivial = false; c.desc.clear(); c.ntrans = 0;
  try { s.body(c); }
  catch (SkipPrefix&) { return 2; }
  catch (Prune&) { return 1; }
  catch (std::exception& e) { c.fail("uncaught", "uncaught exception: %s", e.what()); }
#ifdef _EXCEPTION_H_
  catch (GandalfError& e) { c.fail("uncaught-error", "code raised an error: %s", e.msg.c_str()); }
#endif
  catch (...) { c.fail("uncaught", "uncaught unknown exception"); }
  return 0;
}

inline bool advance(std::vector<int16_t>& ch, std::vector<int16_t>& ar, size_t keep) {
  if (ch.size() > keep) { ch.resize(keep); ar.resize(keep); }
  while (!ch.empty()) {
    if (ch.back() + 1 < ar.back()) { ch.back()++; return true; }
    ch.pop_back(); ar.pop_back();
  }
  return false;
}

inline void add_viol(Slot* sl, int scen, const std::vector<int16_t>& ch, const std::string& key, const std::string& msg) {
  for (int i=0; i<sl->nviol; i++) if (key == sl->viol[i].key && sl->viol[i].scen == scen) { sl->viol[i].count++; return; }
  if (sl->nviol >= MAXV) return;
  Violation& v = sl->viol[sl->nviol];
  snprintf(v.key, sizeof v.key, "%s", key.c_str()); snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  v.scen = scen; v.depth = std::min((int)ch.size(), MAXDEPTH); v.count = 1;
  for (int i=0; i<v.depth; i++) v.ch[i] = ch[i];
  sl->nviol++;
}

inline void quiet_stdout() { fflush(stdout); std::cout.flush(); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); std::cout.setstate(std::ios::failbit); }

inline long rss_mb() { FILE* f = fopen("/proc/self/statm", "r"); long a=0, b=0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b*4/1024; }
static const long RECYCLE_MB = 1500;   // a worker whose heap has grown this far is replaced by a fresh one

inline void worker(int w, const Opts& o, Slot* sl, std::vector<std::atomic<unsigned char>*>& claims, const std::vector<long>& nclaims,
                   bool resume, const std::string& tmp) {
  quiet_stdout();
  std::unordered_set<uint64_t> states, outs;
  auto& S = scenarios();
  auto dump = [&]() {
    std::string f1 = tmp + "/states." + std::to_string(w) + "." + std::to_string(getpid()), f2 = tmp + "/outs." + std::to_string(w) + "." + std::to_string(getpid());
    FILE* f = fopen(f1.c_str(), "wb"); for (uint64_t h : states) fwrite(&h, 8, 1, f); fclose(f);
    f = fopen(f2.c_str(), "wb"); for (uint64_t h : outs) fwrite(&h, 8, 1, f); fclose(f);
  };
  int s0 = resume ? sl->scen : 0;
  for (int s = s0; s < (int)S.size(); s++) {
    if (!o.only.empty() && S[s].name != o.only) continue;
    if (S[s].thorough_only && !o.thorough) continue;
    Ctx c; c.thorough = o.thorough; c.split = S[s].split; c.slot = sl; c.states = &states; c.outs = &outs;
    long prefix = 0; c.prefix = &prefix; c.claimed = claims[s]; c.nclaim = nclaims[s];
    bool more = true;
    if (resume && s == s0) {
      for (int i=0; i<sl->depth; i++) { c.ch.push_back(sl->ch[i]); c.ar.push_back(sl->ar[i]); }
      prefix = sl->prefix;
      // the crashed execution is done; go on behind it
      size_t before = c.ch.size();
      more = advance(c.ch, c.ar, before);
      c.owned = ((int)c.ch.size() > c.split);      // still below the prefix we own
    } else { sl->scen = s; sl->prefix = 0; }
    while (more) {
      if (*g_stop) break;
      sl->depth = 0; sl->running = 1;
      int r = run_once(c, S[s]);
      sl->running = 0; sl->progress++;
      if (r == 2) {            // prefix owned by somebody else: skip the whole subtree
        more = advance(c.ch, c.ar, c.pos);
        c.owned = false;
        continue;
      }
      // executions with fewer choices than the split depth: owned through a claim at the end
      bool mine = true;
      if ((int)c.pos < c.split && !c.owned) {
        long idx = prefix++; sl->prefix = prefix;
        mine = (idx >= c.nclaim || c.claimed[idx].exchange(1) == 0);
      }
      if (mine) {
        if (r == 1) sl->pruned[s]++;
        if (r == 0) { sl->runs[s]++; if (c.nontrivial) sl->nontriv[s]++; }
        sl->trans[s] += c.ntrans;
        std::vector<int16_t> used(c.ch.begin(), c.ch.begin() + std::min(c.pos, c.ch.size()));
        for (auto& f : c.fails) add_viol(sl, s, used, f.first, f.second);
        if (r == 0 && !c.desc.empty() && c.nontrivial && sl->nsample < 4 && (sl->runs[s] % 7 == 1)) { snprintf(sl->sample[sl->nsample++], 700, "%s: %s", S[s].name.c_str(), c.desc.c_str()); }
      }
      if ((sl->progress & 31) == 0 && rss_mb() > RECYCLE_MB) { dump(); sl->recycled = 1; fflush(0); _exit(0); }
      size_t keep = c.pos;
      more = advance(c.ch, c.ar, keep);
      if ((int)c.ch.size() <= c.split) c.owned = false;   // next prefix must be claimed again
    }
  }
  dump();
  sl->done = 1;
  fflush(0); _exit(0);
}

// replay one choice sequence in a fresh process; returns "" if no violation, else "key\tmsg" lines
inline std::string replay_case(int scen, const std::vector<int>& ch, bool thorough, double limit, bool verbose = false) {
  int p[2]; if (pipe(p)) return "harness\tpipe";
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); if (!verbose) quiet_stdout();
    Ctx c; c.thorough = thorough; c.replaying = true; c.verbose = verbose;
    for (int x : ch) { c.ch.push_back(x); c.ar.push_back(0); }
    run_once(c, scenarios()[scen]);
    std::string out;
    if (verbose && !c.desc.empty()) fprintf(stderr, "case: %s\n", c.desc.c_str());
    for (auto& f : c.fails) out += f.first + "\t" + f.second + "\n";
    size_t off = 0; while (off < out.size()) { ssize_t k = write(p[1], out.data()+off, out.size()-off); if (k <= 0) break; off += k; }
    _exit(0);
  }
  close(p[1]);
  std::string res; char buf[4096]; double t0 = now(); bool timeout = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  int st = 0;
  for (;;) {
    ssize_t k = read(p[0], buf, sizeof buf);
    if (k > 0) { res.append(buf, k); continue; }
    if (k == 0) { waitpid(pid, &st, 0); break; }
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timeout = true; break; }
    usleep(2000);
  }
  close(p[0]);
  if (timeout) return "hang\texecution did not finish within " + std::to_string((int)limit) + " s\n";
  if (WIFSIGNALED(st)) res += "crash\tprocess killed by signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")\n";
  else if (WEXITSTATUS(st) != 0) res += "exit\tcode called exit(" + std::to_string(WEXITSTATUS(st)) + ")\n";
  return res;
}

inline std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }

inline int main(int argc, char** argv) {
  Opts o;
  for (int i=1; i<argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") o.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--workers") o.workers = atoi(argv[++i]);
    else if (a == "--out") o.out = argv[++i];
    else if (a == "--scenario") o.only = argv[++i];
    else if (a == "--budget") o.budget = atof(argv[++i]);
    else if (a == "--hang") o.hang = atof(argv[++i]);
    else if (a == "--list") o.list = true;
    else if (a == "--replay") { o.doreplay = true; std::stringstream ss(argv[++i]); std::string t; while (getline(ss, t, '.')) if (!t.empty()) o.replay.push_back(atoi(t.c_str())); }
  }
  auto& S = scenarios();
  std::sort(S.begin(), S.end(), [](const Scenario& a, const Scenario& b) { return a.name < b.name; });
  if (o.list) { for (auto& s : S) printf("%s%s: %s\n", s.name.c_str(), s.thorough_only?" [thorough]":"", s.doc.c_str()); return 0; }
  if (o.doreplay) {
    for (size_t s=0; s<S.size(); s++) if (S[s].name == o.only) { std::string r = replay_case(s, o.replay, o.thorough, 600, true); fprintf(stderr, "%s", r.empty() ? "no violation\n" : r.c_str()); return r.empty() ? 0 : 1; }
    fprintf(stderr, "no such scenario\n"); return 2;
  }
  char tmpl[] = "/tmp/mcXXXXXX"; std::string tmp = mkdtemp(tmpl);
  int W = o.workers;
  Slot* slots = (Slot*) mmap(0, sizeof(Slot)*W, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  g_stop = (volatile int*) mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  std::vector<std::atomic<unsigned char>*> claims; std::vector<long> nclaims;
  for (size_t s=0; s<S.size(); s++) { long n = 1L<<22; claims.push_back((std::atomic<unsigned char>*) mmap(0, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0)); nclaims.push_back(n); }
  double t0 = now(); bool capped = false; int ncrash = 0; std::string capmsg;
  std::vector<pid_t> pid(W); std::vector<long> lastprog(W, -1); std::vector<double> lastt(W, t0);
  struct Raw { int scen; std::vector<int> ch; std::string key, msg; long count; };
  std::vector<Raw> raws;
  for (int w=0; w<W; w++) { pid[w] = fork(); if (pid[w]==0) worker(w, o, &slots[w], claims, nclaims, false, tmp); }
  int alive = W;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(20000);
      for (int w=0; w<W; w++) if (pid[w] > 0) {
        if (slots[w].progress != lastprog[w]) { lastprog[w] = slots[w].progress; lastt[w] = now(); }
        else if (now() - lastt[w] > o.hang && slots[w].running) { kill(pid[w], SIGKILL); lastt[w] = now(); }
      }
      if (now() - t0 > o.budget && !*g_stop) { *g_stop = 1; capped = true; capmsg = "time budget reached"; }
      continue;
    }
    if (p < 0) break;
    for (int w=0; w<W; w++) if (pid[w] == p) {
      if (slots[w].done) { pid[w] = -1; alive--; break; }
      if (slots[w].recycled) { slots[w].recycled = 0; pid[w] = fork(); if (pid[w] == 0) worker(w, o, &slots[w], claims, nclaims, true, tmp); lastt[w] = now(); break; }
      // worker died inside an execution
      Slot& sl = slots[w]; Raw r; r.scen = sl.scen; r.count = 1;
      for (int i=0; i<sl.depth; i++) r.ch.push_back(sl.ch[i]);
      if (WIFSIGNALED(st)) { r.key = WTERMSIG(st)==SIGKILL ? "hang" : "crash"; r.msg = "process killed by signal " + std::to_string(WTERMSIG(st)); }
      else { r.key = "exit"; r.msg = "code called exit(" + std::to_string(WEXITSTATUS(st)) + ")"; }
      bool spurious = false;
      if (r.key == "hang") { std::string rr = replay_case(r.scen, r.ch, o.thorough, 3*o.hang); if (rr.find("hang\t") != 0) spurious = true; }
      if (!spurious) raws.push_back(r);
      sl.running = 0; sl.runs[sl.scen]++; ncrash++;
      if (ncrash > 40) { *g_stop = 1; capped = true; capmsg = "more than 40 crashing executions"; }
      pid[w] = fork(); if (pid[w] == 0) worker(w, o, &slots[w], claims, nclaims, true, tmp);
      lastt[w] = now();
      break;
    }
  }
  // merge
  std::set<uint64_t> st, ou; 
  { std::string cmd; for (int k=0; k<2; k++) { FILE* ls = popen(("ls " + tmp + "/" + (k?"outs":"states") + ".* 2>/dev/null").c_str(), "r"); char line[512]; while (fgets(line, 512, ls)) { std::string fn(line); fn.erase(fn.find_last_not_of("\n")+1); FILE* f = fopen(fn.c_str(), "rb"); uint64_t h; while (f && fread(&h, 8, 1, f) == 1) (k?ou:st).insert(h); if (f) fclose(f); unlink(fn.c_str()); } pclose(ls); } }
  rmdir(tmp.c_str());
  for (int w=0; w<W; w++) for (int i=0; i<slots[w].nviol; i++) { Violation& v = slots[w].viol[i]; Raw r; r.scen=v.scen; r.key=v.key; r.msg=v.msg; r.count=v.count; for (int k=0;k<v.depth;k++) r.ch.push_back(v.ch[k]); raws.push_back(r); }
  // dedupe by (scenario,key), smallest choice sequence first
  std::map<std::pair<int,std::string>, Raw> byk;
  for (auto& r : raws) { auto k = std::make_pair(r.scen, r.key); auto it = byk.find(k); if (it == byk.end()) byk[k] = r; else { long c = it->second.count + r.count; if (r.ch < it->second.ch) it->second = r; it->second.count = c; } }
  std::stringstream js; js << std::setprecision(17);
  js << "{\"tier\":\"" << (o.thorough?"thorough":"quick") << "\",\"workers\":" << W << ",\"capped\":" << (capped?"true":"false") << ",\"capmsg\":\"" << capmsg << "\",\"crashes\":" << ncrash << ",\"wall_s\":" << now()-t0
     << ",\"states\":" << st.size() << ",\"outcomes\":" << ou.size() << ",\"scenarios\":[";
  bool first = true;
  for (size_t s=0; s<S.size(); s++) { long r=0,t=0,p=0,n=0; for (int w=0; w<W; w++) { r+=slots[w].runs[s]; t+=slots[w].trans[s]; p+=slots[w].pruned[s]; n+=slots[w].nontriv[s]; }
    if (!o.only.empty() && S[s].name != o.only) continue; if (S[s].thorough_only && !o.thorough) continue;
    js << (first?"":",") << "{\"name\":\"" << S[s].name << "\",\"doc\":\"" << jesc(S[s].doc) << "\",\"runs\":" << r << ",\"transitions\":" << t << ",\"pruned\":" << p << ",\"nontrivial\":" << n << "}"; first=false; }
  js << "],\"samples\":["; first = true;
  std::set<std::string> smp; for (int w=0; w<W; w++) for (int i=0; i<slots[w].nsample; i++) smp.insert(slots[w].sample[i]);
  int ns=0; for (auto& s : smp) { if (ns++ >= 12) break; js << (first?"":",") << "\"" << jesc(s) << "\""; first=false; }
  js << "],\"violations\":["; first = true;
  int nrep = 0;
  for (auto& kv : byk) { Raw& r = kv.second; std::string rr = (nrep++ < 60) ? replay_case(r.scen, r.ch, o.thorough, 3*o.hang) : std::string("unchecked\t"); std::string cs; for (size_t i=0;i<r.ch.size();i++) cs += (i?".":"") + std::to_string(r.ch[i]);
    bool rep = rr.find(r.key + "\t") != std::string::npos || rr.find("unchecked") == 0;
    js << (first?"":",") << "{\"scenario\":\"" << S[r.scen].name << "\",\"key\":\"" << jesc(r.key) << "\",\"message\":\"" << jesc(r.msg) << "\",\"count\":" << r.count << ",\"choices\":\"" << cs << "\",\"reproduced\":" << (rep?"true":"false") << ",\"replay_output\":\"" << jesc(rr.substr(0,2000)) << "\"}"; first=false; }
  js << "]}";
  if (o.out.empty()) printf("%s\n", js.str().c_str()); else { std::ofstream f(o.out.c_str()); f << js.str() << std::endl; }
  return 0;
}
} // namespace mc
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define SCENARIO(name, split, doc) static void MC_CAT(scn_,name)(mc::Ctx& c); static mc::Reg MC_CAT(reg_,name)(#name, doc, MC_CAT(scn_,name), split, false); static void MC_CAT(scn_,name)(mc::Ctx& c)
#define SCENARIO_T(name, split, doc) static void MC_CAT(scn_,name)(mc::Ctx& c); static mc::Reg MC_CAT(reg_,name)(#name, doc, MC_CAT(scn_,name), split, true); static void MC_CAT(scn_,name)(mc::Ctx& c)
#endif
