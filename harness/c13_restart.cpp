// C13 - output and restart: snapshot schedule and numbering, and every crash point of the file operations of a run.
// The file operations of the real code are recorded as they reach the operating system (open / write / rename / remove); the files a
// kill after any of them (or in the middle of a write) leaves behind are rebuilt, and the real restart is run on them.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <dirent.h>
#include <cerrno>
#include <cstdarg>
#include "sim.hpp"
#include <fstream>
#include <sstream>
using namespace mc;
typedef std::string S;
// ---- recording of file operations -------------------------------------------------------------------------------------------------
struct Op { int kind; S a, b; long pos; };       // 0 open+truncate a, 1 open/create a, 2 write b into a at pos, 3 rename a to b, 4 remove a, 5 truncate a to pos
static bool REC = false; static std::vector<Op> OPS; static std::map<int, S> FDS; static long FAILAT = -1, NW = 0;
template<class F> F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
static void opened(int fd, const char* p, bool trunc, bool wr) { if (!REC || fd < 0) return; if (!wr) { FDS.erase(fd); return; } FDS[fd] = p; OPS.push_back({trunc ? 0 : 1, p, "", 0}); }
static bool full() { return FAILAT >= 0 && NW++ >= FAILAT; }
static void wrote(int fd, const char* d, size_t n) { if (!REC || !FDS.count(fd)) return; off_t e = lseek(fd, 0, SEEK_CUR); OPS.push_back({2, FDS[fd], S(d, n), (long) (e-n)}); }
extern "C" {
FILE* fopen(const char* p, const char* m) { static auto f = real<FILE*(*)(const char*, const char*)>("fopen"); FILE* r = f(p, m); if (r) opened(fileno(r), p, m[0] == 'w', m[0] != 'r' || strchr(m, '+')); return r; }
FILE* fopen64(const char* p, const char* m) { static auto f = real<FILE*(*)(const char*, const char*)>("fopen64"); FILE* r = f(p, m); if (r) opened(fileno(r), p, m[0] == 'w', m[0] != 'r' || strchr(m, '+')); return r; }
int open(const char* p, int fl, ...) { static auto f = real<int(*)(const char*, int, ...)>("open"); va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); int r = f(p, fl, md); opened(r, p, fl & O_TRUNC, (fl & O_ACCMODE) != O_RDONLY); return r; }
int open64(const char* p, int fl, ...) { static auto f = real<int(*)(const char*, int, ...)>("open64"); va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); int r = f(p, fl, md); opened(r, p, fl & O_TRUNC, (fl & O_ACCMODE) != O_RDONLY); return r; }
ssize_t write(int fd, const void* d, size_t n) { static auto f = real<ssize_t(*)(int, const void*, size_t)>("write"); if (REC && FDS.count(fd) && full()) { errno = ENOSPC; return -1; } ssize_t r = f(fd, d, n); if (r > 0) wrote(fd, (const char*) d, r); return r; }
ssize_t writev(int fd, const struct iovec* v, int n) { static auto f = real<ssize_t(*)(int, const struct iovec*, int)>("writev"); if (REC && FDS.count(fd) && full()) { errno = ENOSPC; return -1; } ssize_t r = f(fd, v, n);
  if (r > 0) { S s; for (int i=0;i<n;i++) s.append((const char*) v[i].iov_base, v[i].iov_len); s.resize(r); wrote(fd, s.data(), r); } return r; }
int rename(const char* a, const char* b) { static auto f = real<int(*)(const char*, const char*)>("rename"); int r = f(a, b); if (!r && REC) { OPS.push_back({3, a, b, 0}); for (auto& x : FDS) if (x.second == a) x.second = b; } return r; }
int remove(const char* a) { static auto f = real<int(*)(const char*)>("remove"); int r = f(a); if (!r && REC) OPS.push_back({4, a, "", 0}); return r; }
int unlink(const char* a) { static auto f = real<int(*)(const char*)>("unlink"); int r = f(a); if (!r && REC) OPS.push_back({4, a, "", 0}); return r; }
int ftruncate(int fd, off_t n) { static auto f = real<int(*)(int, off_t)>("ftruncate"); int r = f(fd, n); if (!r && REC && FDS.count(fd)) OPS.push_back({5, FDS[fd], "", (long) n}); return r; }
}
typedef std::map<S, S> Files;
void redo(Files& v, const Op& o, size_t cut = (size_t) -1) {
  if (o.kind == 0) v[o.a] = ""; else if (o.kind == 1) v[o.a];
  else if (o.kind == 2) { S& f = v[o.a]; S d = o.b.substr(0, std::min(cut, o.b.size())); if (f.size() < (size_t) o.pos+d.size()) f.resize(o.pos+d.size()); f.replace(o.pos, d.size(), d); }
  else if (o.kind == 3) { v[o.b] = v[o.a]; v.erase(o.a); } else if (o.kind == 4) v.erase(o.a); else v[o.a].resize(o.pos);
}
S slurp(const S& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
Files dir() { Files v; DIR* d = opendir("."); while (dirent* e = readdir(d)) { S n = e->d_name; if (n != "." && n != "..") v[n] = slurp(n); } closedir(d); return v; }
void enter(const char* name, const Files& v) {     // an own directory of this worker, holding exactly these files
  sim::scratch(); char d[600]; snprintf(d, sizeof d, "%s/w%d/%s", sim::base().c_str(), (int) getpid(), name); bool r = REC; REC = false;
  mkdir(d, 0755); if (chdir(d)) abort(); for (auto& x : dir()) ::unlink(x.first.c_str()); for (auto& x : v) { std::ofstream o(x.first.c_str(), std::ios::binary); o << x.second; } REC = r;
}
struct Quiet { std::streambuf *b, *e; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(e); } };

// ---- runs -------------------------------------------------------------------------------------------------------------------------
struct St { double t; long steps; int nout; std::vector<double> x; };
struct Cfg { int type; S form; double first, dt; int nrestart, units, levels, lite; bool operator<(const Cfg& o) const { return std::tie(type, form, first, dt, nrestart, units, levels, lite) < std::tie(o.type, o.form, o.first, o.dt, o.nrestart, o.units, o.levels, o.lite); } };
static const char* TYPES[] = {"nbody", "sph", "mfvmuscl", "mfvrk", "sph"};
static const int ND[] = {3, 1, 1, 1, 3};
static const double H[] = {0.1, 0.01, 0.01, 0.01, 0.01};                                              // about one step of each type
struct Run {
  Parameters P; SimulationBase* s; int nd;
  Run(const Cfg& g, bool restart, const char* ic) : nd(ND[g.type]) {
    sim::boot();
    P.stringparams["ic"] = ic; P.stringparams["in_file"] = "ic.su"; P.stringparams["in_file_form"] = "su"; P.stringparams["sim"] = TYPES[g.type]; P.intparams["ndim"] = nd;
    P.intparams["dimensionless"] = g.units == 0; P.stringparams["run_id"] = "R"; P.stringparams["out_file_form"] = g.form;
    if (g.units) { for (const char* w : {"inunit", "outunit"}) { P.stringparams[S("r")+w] = "au"; P.stringparams[S("m")+w] = "m_sun"; P.stringparams[S("t")+w] = "yr"; P.stringparams[S("v")+w] = "km_s"; } }
    P.floatparams["tmax_wallclock"] = 1e30; P.intparams["tabulated_kernel"] = 0; P.intparams["noutputstep"] = 1 << 30; P.intparams["ndiagstep"] = 1 << 30; P.intparams["nrestartstep"] = g.nrestart;
    P.floatparams["tend"] = 1e30; P.floatparams["tsnapfirst"] = g.first*H[g.type]; P.floatparams["dt_snap"] = g.dt*H[g.type];
    P.intparams["litesnap"] = g.lite; P.floatparams["tlitesnapfirst"] = 0; P.floatparams["dt_litesnap"] = 0.8*H[g.type];
    P.intparams["Nlevels"] = g.levels; P.stringparams["gas_eos"] = "energy_eqn"; P.floatparams["nbody_mult"] = 0.1; P.stringparams["nbody"] = g.type == 4 ? "lfkdk" : "hermite4";
    if (nd == 1) { P.floatparams["boxmin[0]"] = 0; P.floatparams["boxmax[0]"] = 1; P.stringparams["boundary_lhs[0]"] = P.stringparams["boundary_rhs[0]"] = "periodic"; }
    if (g.type == 4) { P.intparams["self_gravity"] = 1; P.floatparams["theta_macsqd"] = 0.1; }
    P.floatparams["courant_mult"] = 0.15;
    s = SimulationBase::SimulationFactory(nd, TYPES[g.type], &P); s->restart = restart; s->rank = 0;
  }
  template<int n> void get(std::vector<double>& x) { Simulation<n>* q = static_cast<Simulation<n>*>(s);
    for (int i=0;i<q->hydro->Nhydro;i++) { Particle<n>& p = q->hydro->GetParticlePointer(i); for (int k=0;k<n;k++) { x.push_back(p.r[k]); x.push_back(p.v[k]); } x.push_back(p.m); x.push_back(p.u); }
    x.push_back(-77); for (int i=0;i<q->nbody->Nstar;i++) { auto& p = q->nbody->stardata[i]; for (int k=0;k<n;k++) { x.push_back(p.r[k]); x.push_back(p.v[k]); } x.push_back(p.m); } }
  St state() { St z; z.t = s->t; z.steps = s->Nsteps; z.nout = s->Noutsnap; if (nd == 1) get<1>(z.x); else get<3>(z.x); return z; }
};
S makeic(const Cfg& g) {
  static std::map<int, S> memo; if (memo.count(g.type*8+g.units)) return memo[g.type*8+g.units];
  enter("ic", Files()); Cfg h = g; Run r(h, false, "python"); int nh = g.type == 0 ? 0 : g.type == 4 ? 8 : 14, ns = (g.type == 0) ? 2 : g.type == 4 ? 1 : 0; r.s->simparams->intparams["Nhydro"] = nh; r.s->simparams->intparams["Nstar"] = ns; r.s->PreSetupForPython();
  if (r.nd == 1) { Simulation<1>* q = static_cast<Simulation<1>*>(r.s); for (int i=0;i<nh;i++) { Particle<1>& p = q->hydro->GetParticlePointer(i); p.r[0] = (i+0.5)/nh + 0.01*sin(7.0*i); p.v[0] = 0.1*cos(3.0*i); p.m = 1.0/nh; p.u = 1.5 + 0.1*sin(5.0*i); p.h = 0.2; p.rho = 1; p.ptype = gas_type; } }
  else { Simulation<3>* q = static_cast<Simulation<3>*>(r.s);
    for (int i=0;i<nh;i++) { Particle<3>& p = q->hydro->GetParticlePointer(i); for (int k=0;k<3;k++) { p.r[k] = ((i>>k)&1) - 0.5 + 0.05*sin(7.0*i+k); p.v[k] = 0.1*cos(3.0*i+k); } p.m = 0.1; p.u = 1; p.h = 1; p.rho = 1; p.ptype = gas_type; }
    for (int i=0;i<ns;i++) { auto& p = q->nbody->stardata[i]; for (int k=0;k<3;k++) { p.r[k] = (i ? -0.5 : 0.5)*(k == 0) + 0.01*k; p.v[k] = (i ? -0.5 : 0.5)*(k == 1); } p.m = 0.5; p.h = 0.1; p.radius = 0.05; if (g.type == 4) for (int k=0;k<3;k++) p.r[k] = 3+k; } }
  r.s->t = 0; r.s->tsnaplast = 0; r.s->Nsteps = 0; r.s->Noutsnap = 0; if (!r.s->WriteSnapshotFile("ic.su", "su")) abort(); delete r.s; return memo[g.type*8+g.units] = slurp("ic.su");
}
struct History { std::vector<St> st; std::vector<size_t> end; std::vector<Op> ops; Files start; bool ok; S why; int from; };  // end[j]: operations done when step j's output was over
// a run of so many steps from whatever is on disk (the current directory); every Output() is a step
History go(const Cfg& g, bool restart, int nsteps) {
  History h; h.ok = true; h.start = dir(); OPS.clear(); FDS.clear(); Quiet q; Run* r = new Run(g, restart, "file"); REC = true;
  try { r->s->SetupSimulation(); h.st.push_back(r->state()); h.end.push_back(OPS.size());
    for (int i=0;i<nsteps;i++) { r->s->MainLoop(); r->s->Output(); h.st.push_back(r->state()); h.end.push_back(OPS.size()); } }
  catch (GandalfError& e) { h.ok = false; h.why = e.msg; }
  REC = false; h.ops = OPS; h.from = r->s->restart; delete r->s; delete r; return h;
}
double num(const S& d, const S& form, int which) {          // 0: time, 1: number of snapshots, 2: time of the last snapshot - from the header of a su / sf file; NaN when incomplete
  if (form == "su") { size_t o = 20 + 4*4 + 50*4; if (d.size() < o + 50*16 + 50*8) return NAN; long nl; double t, tl; memcpy(&nl, &d[o], 8); memcpy(&t, &d[o+50*8+50*8], 8); memcpy(&tl, &d[o+50*16+8], 8); return which == 0 ? t : which == 1 ? nl : tl; }
  std::istringstream i(d); S w; i >> w; std::vector<double> v; for (int k=0;k<4+200;k++) { double x; if (!(i >> x)) return NAN; v.push_back(x); } return which == 0 ? v[4+150] : which == 1 ? v[4+50] : v[4+151];
}
S snapname(const S& form, int k) { char b[64]; snprintf(b, 64, "R.%s.%05d", form.c_str(), k); return b; }
bool close(const St& a, const St& b, double tol) {
  if (a.x.size() != b.x.size() || a.steps != b.steps || a.nout != b.nout || std::fabs(a.t-b.t) > tol*(1e-3+std::fabs(b.t))) return false;
  for (size_t i=0;i<a.x.size();i++) if (std::fabs(a.x[i]-b.x[i]) > tol*(1+std::fabs(b.x[i]))) return false; return true;
}
// the schedule: with snapshots so far and the time the next is due, snapshot numbers after each state's output
bool schedule(Ctx& c, const History& h, const Files& v, const Cfg& g, double unit, int nout0, double due, bool first_outputs, const char* how, int prevn) {
  double dt = g.dt*H[g.type]; double tol = g.form == "sf" ? 1e-8*H[g.type] : 1e-12*H[g.type]; int n = nout0; double tlast = -1e300;
  for (size_t j=0;j<h.st.size();j++) { double t = h.st[j].t*unit; bool may = j > 0 || first_outputs; bool want = may && t >= due; bool near = may && std::fabs(t-due) < tol; 
    bool got = h.st[j].nout == n+1; if (!got && h.st[j].nout != n) { c.fail((S(how)+"-jump").c_str(), "%s: number of snapshots went from %d to %d in one step", how, n, h.st[j].nout); return false; }
    if (near) want = got;
    if (want != got) { c.fail((S(how)+"-schedule").c_str(), "%s: t=%.12g: snapshot %d is due at %.12g and was%s written", how, t, n+1, due, got ? "" : " not"); return false; }
    if (got) { n++; due += dt; S f = snapname(g.form, n); if (!v.count(f)) { c.fail((S(how)+"-file").c_str(), "%s: no file %s", how, f.c_str()); return false; }
      double ft = num(v.at(f), g.form, 0), fn = num(v.at(f), g.form, 1); if (!(std::fabs(ft-t) <= 1e-9*(std::fabs(t)+H[g.type])) || fn != n) { c.fail((S(how)+"-content").c_str(), "%s: %s holds t=%.12g, number %g; written at %.12g", how, f.c_str(), ft, fn, t); return false; }
      if (t <= tlast) { c.fail((S(how)+"-twice").c_str(), "%s: snapshots at the same time %g", how, t); return false; } tlast = t; } }
  (void) prevn; return true;
}
bool numbering(Ctx& c, const Files& v, const Cfg& g, int n, const char* how) {     // snapshots 1..n and no more, at increasing times
  double tl = -1e300; for (int k=1;k<=n;k++) { S f = snapname(g.form, k); if (!v.count(f)) { c.fail((S(how)+"-gap").c_str(), "%s: %d snapshots, but no %s", how, n, f.c_str()); return false; }
    double t = num(v.at(f), g.form, 0), m = num(v.at(f), g.form, 1); if (!(t > tl) || m != k) { c.fail((S(how)+"-order").c_str(), "%s: snapshot %d is at t=%.12g with number %g, the one before at %.12g", how, k, t, m, tl); return false; } tl = t; }
  return true;
}
double unit(const Cfg& g) { if (!g.units) return 1; static double u = 0; if (!u) { enter("ic", Files()); Quiet q; Run r(g, false, "python"); r.s->simparams->intparams["Nhydro"] = 8; r.s->simparams->intparams["Nstar"] = 2; r.s->PreSetupForPython(); u = r.s->simunits.t.outscale; delete r.s; } return u; }
static const int STEPS = 6;
const History& history(const Cfg& g) { static std::map<Cfg, History> memo; auto it = memo.find(g); if (it != memo.end()) return it->second; if (memo.size() > 40) memo.clear();
  Files v; v["ic.su"] = makeic(g); unit(g); enter("a", v); History h = go(g, false, STEPS);
  Files after = dir(), re = h.start; for (auto& o : h.ops) redo(re, o); if (re != after) { fprintf(stderr, "recording of file operations is not faithful\n"); abort(); }      // conformance of the file model
  return memo[g] = h; }
// what a kill after k operations (and a part of the next) leaves, judged against the run it happened in
bool crash(Ctx& c, const Cfg& g, const History& h, size_t k, int torn, const char* how, History* out, Files* left) {
  Files v = h.start; for (size_t i=0;i<k;i++) redo(v, h.ops[i]); if (torn && k < h.ops.size() && h.ops[k].kind == 2) redo(v, h.ops[k], torn == 1 ? h.ops[k].b.size()/2 : h.ops[k].b.size()-1);
  size_t cur = 0; while (cur < h.end.size() && h.end[cur] <= k) cur++;                                  // the step whose output is under way (or being computed)
  // last state whose output completed a record: a snapshot was written, or nrestartstep steps have passed since the last such
  int lo = -1; { int n = h.from ? -1 : 0; long nl = h.from ? h.st[0].steps : 0; if (h.from) { lo = 0; n = h.st[0].nout; }
    for (size_t j=0;j<cur && j<h.st.size();j++) { if (j == 0 && h.from) { n = h.st[0].nout; continue; } if (h.st[j].nout > n) { n = h.st[j].nout; lo = j; } if (g.levels == 1 && (!h.from || g.nrestart == 1) && h.st[j].steps - nl >= g.nrestart) { lo = j; nl = h.st[j].steps; } } }
  Files done; for (int q=1;q<=(cur ? h.st[cur-1].nout : 0);q++) { S f = snapname(g.form, q); if (v.count(f)) done[f] = v[f]; else { c.fail((S(how)+"-lost").c_str(), "%s: snapshot %d is gone", how, q); return false; } }
  enter("b", v); History r = go(g, true, 3); if (left) *left = dir();
  S where = k < h.ops.size() ? S(h.ops[k].kind == 2 ? "write " : h.ops[k].kind == 3 ? "rename " : h.ops[k].kind == 4 ? "remove " : "open ")+h.ops[k].a : "end";
  if (!r.ok) { c.fail((S(how)+"-unrestartable").c_str(), "%s: killed before operation %d (%s, %d) after step %d: the restart fails: %s", how, (int) k, where.c_str(), torn, (int) cur-1, r.why.c_str()); return false; }
  if (!r.from && lo >= 0) { c.fail((S(how)+"-fromscratch").c_str(), "%s: killed at operation %d (%s): the run starts again from its initial conditions although step %d was recorded", how, (int) k, where.c_str(), lo); return false; }
  double tol = g.form == "sf" ? 3e-9 : 1e-12; int match = -1; for (size_t j=0;j<=cur && j<h.st.size();j++) if (close(r.st[0], h.st[j], tol)) match = j;
  if (r.from) {
    if (match < 0 && lo < 0 && h.from) match = 0;
    if (match < 0) { int b = 0; for (size_t j=0;j<h.st.size();j++) if (h.st[j].steps == r.st[0].steps) b = j; double dx = 0; for (size_t i=0;i<r.st[0].x.size() && i<h.st[b].x.size();i++) dx = std::max(dx, std::fabs(r.st[0].x[i]-h.st[b].x[i]));
      c.fail((S(how)+"-state").c_str(), "%s: killed at operation %d (%s): restarted at t=%.12g, step %ld, %d snapshots; the run had t=%.12g, step %ld, %d snapshots then; particles differ by up to %g", how, (int) k, where.c_str(), r.st[0].t, r.st[0].steps, r.st[0].nout, h.st[b].t, h.st[b].steps, h.st[b].nout, dx); return false; }
    if (match < lo) { c.fail((S(how)+"-stale").c_str(), "%s: killed at operation %d (%s): restarted from step %d although step %d was recorded", how, (int) k, where.c_str(), match, lo); return false; }
  }
  // the earlier snapshots of the restored state are untouched, and the later ones follow on
  Files now = dir(); for (auto& d : done) { int q = atoi(d.first.substr(d.first.size()-5).c_str()); if (r.from && q <= r.st[0].nout && now[d.first] != d.second) { c.fail((S(how)+"-overwritten").c_str(), "%s: killed at operation %d (%s): the restarted run changed %s", how, (int) k, where.c_str(), d.first.c_str()); return false; } }
  double u = unit(g); double due = g.first*H[g.type]; int n0 = r.from ? r.st[0].nout : 0; for (int q=0;q<n0;q++) due += g.dt*H[g.type];
  if (!schedule(c, r, now, g, u, n0, due, !r.from, (S(how)+"-restarted").c_str(), 0)) return false;
  if (!numbering(c, now, g, r.st.back().nout, (S(how)+"-restarted").c_str())) return false;
  if (out) { *out = r; } c.step(); return true;
}
Cfg config(Ctx& c, bool all) {
  Cfg g; g.type = all ? c.choose(5, "type") : c.pick({0, 1, 2}); g.form = c.choose(2, "form") ? "sf" : "su"; g.dt = c.pick<double>({0.3, 1.3, 2.5, 50}); g.first = c.pick<double>({0.0, 2.2}); g.nrestart = c.pick({1 << 30, 1, 3}); g.lite = 0; g.units = 0; g.levels = 1;
  if (!c.thorough && g.form == "sf" && (g.dt != 1.3 || g.nrestart == 3 || g.first != 0)) c.prune();                // (text files take hundreds of writes)
  return g;
}
SCENARIO(crash, 5, "every prefix of the file operations of a run (and every write cut in half or before its last byte) x type x format x output intervals x restart interval: restart, state, numbering") {
  Cfg g = config(c, c.thorough); g.units = c.choose(c.thorough || g.dt == 1.3 ? 2 : 1, "units"); int blk = c.choose(g.dt == 1.3 && (c.thorough || g.form == "su") ? 2 : 1, "block steps"); if (blk) { g.levels = 3; g.lite = 1; }
  const History& h = history(g); if (!h.ok) { c.fail("run", "the run failed: %s", h.why.c_str()); return; }
  size_t k = c.choose((int) h.ops.size()+1, "operations before the kill"); int torn = k < h.ops.size() && h.ops[k].kind == 2 ? c.choose(c.thorough ? 3 : g.form == "su" ? 2 : 1, "torn write") : 0; c.interesting();
  if (k == h.ops.size()) { Files v = h.start; for (auto& o : h.ops) redo(v, o); if (!schedule(c, h, v, g, unit(g), 0, g.first*H[g.type], true, "run", 0) || !numbering(c, v, g, h.st.back().nout, "run")) return; }
  crash(c, g, h, k, torn, "kill", nullptr, nullptr);
}
SCENARIO(crash2, 5, "the restarted run is killed too, at every prefix of its operations, for kills of the first at the end of each step") {
  Cfg g; g.type = c.thorough ? c.choose(4, "type") : c.pick({0, 1}); g.form = "su"; g.dt = c.pick<double>({0.3, 1.3}); g.first = c.pick<double>({0.0, 2.2}); g.nrestart = c.pick({1 << 30, 1, 3}); g.lite = 0; g.units = 0; g.levels = 1;
  const History& h = history(g); if (!h.ok) { c.fail("run", "the run failed: %s", h.why.c_str()); return; }
  int j = c.choose((int) h.end.size(), "first kill after step"); size_t k0 = h.end[j];
  static std::map<std::pair<Cfg, size_t>, History> memo; auto key = std::make_pair(g, k0); if (!memo.count(key)) { Files v = h.start; for (size_t i=0;i<k0;i++) redo(v, h.ops[i]); enter("b", v); History r = go(g, true, 3); if (memo.size() > 60) memo.clear(); memo[key] = r; }
  History r = memo[key]; if (!r.ok) { c.fail("run", "the restarted run failed: %s", r.why.c_str()); return; }
  size_t k = c.choose((int) r.ops.size()+1, "operations before the second kill"); int torn = k < r.ops.size() && r.ops[k].kind == 2 ? c.choose(2, "torn write") : 0; c.interesting();
  crash(c, g, r, k, torn, "second-kill", nullptr, nullptr);
}
SCENARIO(diskfull, 5, "every write from some point on fails (disk full), the run ends or is killed; with space again it is restarted") {
  Cfg g = config(c, c.thorough); if (!c.thorough && g.first != 0) c.prune(); if (g.dt == 0.3) g.dt = 0.9; const History& h = history(g); if (!h.ok) { c.fail("run", "the run failed: %s", h.why.c_str()); return; }
  int nw = 0; for (auto& o : h.ops) nw += o.kind == 2; int k = c.choose(nw, "writes that succeed"); c.interesting();
  Files v; v["ic.su"] = makeic(g); enter("a", v); FAILAT = k; NW = 0; History f = go(g, false, STEPS); FAILAT = -1; Files left = dir(); left.erase("ic.su");
  // what was recorded before the disk was full must still be there to restart from
  int lo = -1, n = 0; long nl = 0; { size_t ops = 0; int w = 0; while (ops < h.ops.size() && w < k) w += h.ops[ops++].kind == 2; for (size_t j=0;j<h.st.size();j++) { bool rec = false; if (h.st[j].nout > n) { n = h.st[j].nout; rec = true; } if (h.st[j].steps-nl >= g.nrestart) { rec = true; nl = h.st[j].steps; } if (rec && h.end[j] <= ops) lo = j; } }
  left["ic.su"] = v["ic.su"]; enter("b", left); History r = go(g, true, 1);
  if (!r.ok) { c.fail("full-unrestartable", "disk full after %d writes: the restart fails: %s", k, r.why.c_str()); return; }
  if (lo >= 0) { if (!r.from) { c.fail("full-fromscratch", "disk full after %d writes: the run starts again from its initial conditions although step %d was recorded", k, lo); return; }
    bool ok = false; for (size_t j=lo;j<h.st.size();j++) { St a = r.st[0], b = h.st[j]; a.nout = b.nout; ok |= close(a, b, g.form == "sf" ? 3e-9 : 1e-12); } if (!ok) { c.fail("full-state", "disk full after %d writes: restarted at step %ld, t=%.12g, which is no state of the run after step %d", k, r.st[0].steps, r.st[0].t, lo); return; } }
  c.step();
}
// ---- the schedule alone, with scripted steps and restarts at every place
SCENARIO(schedule, 4, "every sequence of step lengths x output interval x first output x restart interval x restart after any step: times, numbers, return value, lite snapshots") {
  Cfg g; g.type = 0; g.form = c.choose(c.thorough ? 2 : 1, "form") ? "sf" : "su"; g.nrestart = c.thorough ? c.pick({1 << 30, 1, 2}) : c.pick({1 << 30, 1}); g.units = 0; g.levels = 1; g.lite = 1; double F = c.pick<double>({0.0, 0.75, 2.0}), D = c.pick<double>({1.0, 0.5, 2.5}); g.first = F/H[0]; g.dt = D/H[0];
  int n = c.thorough ? 6 : 4, ra = c.choose(n+1, "restart after step"); 
  Files v; v["ic.su"] = makeic(g); enter("a", v); Quiet q; Run* r = new Run(g, false, "file"); r->s->simparams->floatparams["dt_litesnap"] = 0.75; r->s->SetupSimulation();
  int nout = 0, nlite = 0; double due = F, ldue = 0, t = 0; c.interesting(); S at;
  for (int j=0;j<=n;j++) {
    bool wrote = false; S name;
    if (j) { double len = c.pick<double>({0.25, 0.5, 1.0, 3.0}); char b[20]; snprintf(b, 20, " %g", len); at += b; t += len; r->s->t = t; r->s->Nsteps++; name = r->s->Output(); }
    if (t >= due) { nout++; due += D; wrote = true; }
    if (t >= ldue) { nlite++; ldue += 0.75; }
    S f = snapname(g.form, nout);
    if (r->s->Noutsnap != nout) { c.fail("schedule", "first %g, interval %g, steps%s, restart after step %d: at t=%g %d snapshots, expected %d", F, D, at.c_str(), ra, t, (int) r->s->Noutsnap, nout); break; }
    if (j && wrote && name != f) { c.fail("name", "steps%s: Output() returned '%s', expected '%s'", at.c_str(), name.c_str(), f.c_str()); break; }
    if (wrote && !(num(slurp(f), g.form, 0) == t && num(slurp(f), g.form, 1) == nout && num(slurp(f), g.form, 2) == due-D)) { c.fail("content", "steps%s: %s holds t=%g, number %g, due %g; expected %g, %d, %g", at.c_str(), f.c_str(), num(slurp(f), g.form, 0), num(slurp(f), g.form, 1), num(slurp(f), g.form, 2), t, nout, due-D); break; }
    char lf[40]; snprintf(lf, 40, "R.slite.%05d", nlite); if (access(lf, 0) || (snprintf(lf, 40, "R.slite.%05d", nlite+1), !access(lf, 0))) { c.fail("lite", "first %g, steps%s, restart after %d: at t=%g expected %d lite snapshots", F, at.c_str(), ra, t, nlite); break; }
    if (j == ra) {                                                                                      // kill and restart: only a state with a record can be gone back to
      bool rec = wrote || (j >= g.nrestart && (j % g.nrestart) == 0); if (!rec) { c.prune(); break; }
      delete r->s; delete r; r = new Run(g, true, "file"); r->s->simparams->floatparams["dt_litesnap"] = 0.75;
      try { r->s->SetupSimulation(); } catch (GandalfError& e) { c.fail("restart", "%s", e.msg.c_str()); break; }
      if (!r->s->restart || r->s->t != t || r->s->Noutsnap != nout || r->s->Nsteps != j) { c.fail("restored", "first %g, interval %g, steps%s, restart after step %d: t=%g, %d snapshots, %d steps; expected %g, %d, %d", F, D, at.c_str(), ra, r->s->t, (int) r->s->Noutsnap, (int) r->s->Nsteps, t, nout, j); break; }
      if (r->s->Noutlitesnap != nlite) { c.fail("lite-restored", "steps%s, restart after %d: %d lite snapshots, expected %d", at.c_str(), ra, (int) r->s->Noutlitesnap, nlite); break; }
    }
    c.step();
  }
  delete r->s; delete r;
}
// ---- the run driver: stops on the wall clock with a restart record, and a finished run leaves no mark to start it again
SCENARIO(driver, 3, "Run() with a wall-clock limit of zero, a step limit or an end time, x restart: what is left can be continued") {
  Cfg g = config(c, true); int mode = c.choose(3, "ends by"); if (g.dt == 0.3) g.dt = 0.9; c.interesting();
  Files v; v["ic.su"] = makeic(g); v["cont"] = ""; enter("a", v); Quiet q; Run* r = new Run(g, false, "file"); if (mode == 0) r->s->simparams->floatparams["tmax_wallclock"] = 0; if (mode == 1) r->s->simparams->intparams["Nstepsmax"] = 3; if (mode == 2) r->s->simparams->floatparams["tend"] = 2.6*H[g.type];
  r->s->SetupSimulation(); r->s->Run(); St z = r->state(); delete r->s; delete r; bool cont = !access("cont", 0);
  if (cont != (mode == 0)) { c.fail("cont", "ended by %s: the mark of an unfinished run is %s", mode == 0 ? "the wall clock" : mode == 1 ? "steps" : "time", cont ? "still there" : "gone"); return; }
  if (mode == 1 && z.steps != 3) { c.fail("steps", "asked for 3 steps, made %ld", z.steps); return; }
  if (mode == 0) { History s = go(g, true, 1); if (!s.ok || !s.from || !close(s.st[0], z, g.form == "sf" ? 3e-9 : 1e-12)) { c.fail("wallclock", "killed by the wall clock at step %ld, t=%g; restart: %s step %ld t=%g", z.steps, z.t, s.why.c_str(), s.ok ? s.st[0].steps : -1, s.ok ? s.st[0].t : 0.0); return; } }
  c.step();
}
SCENARIO(column, 3, "the same kills for runs whose snapshots are in column format") {
  Cfg g; g.type = c.pick({0, 1}); g.form = "column"; g.dt = 1.3; g.first = 0; g.nrestart = 1 << 30; g.units = 0; g.levels = 1; g.lite = 0;
  Files v; v["ic.su"] = makeic(g); enter("a", v); History h = go(g, false, STEPS); if (!h.ok) { c.fail("run", "%s", h.why.c_str()); return; }
  int j = c.choose((int) h.end.size(), "kill after step"); v = h.start; for (size_t i=0;i<h.end[j];i++) redo(v, h.ops[i]); enter("b", v); History r = go(g, true, 2); c.interesting();
  if (!r.ok || !r.from) { c.fail("restart", "%s", r.why.c_str()); return; }
  bool ok = false; for (auto& s : h.st) { St a = r.st[0]; a.nout = s.nout; a.steps = s.steps; ok |= close(a, s, 2e-4); } if (!ok) { c.fail("state", "restarted at t=%g, which is no state of the run", r.st[0].t); return; }
  if (r.st[0].nout != h.st[j].nout) { c.fail("column-number", "killed with %d snapshots written, the restarted run goes on with number %d and overwrites the earlier ones", h.st[j].nout, r.st[0].nout+1); return; }
  c.step();
}
int main(int a, char** v) { return mc::main(a, v); }
