// C17 - the same total of steps gives the same state however it is split over calls, written, viewed or interleaved with another simulation;
// a repeated run is identical; a run stops at its end time or step count
#include <functional>
#include <memory>
#include "sim.hpp"
#include "SphSnapshot.h"
#include "Supernova.h"
using namespace mc;
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
typedef std::vector<double> St;
static const char* KIND[] = {"sph lfkdk", "sph lfdkd", "mfvmuscl", "mfvrk", "nbody hermite4", "nbody hermite4ts", "nbody lfdkd", "nbody with subsystems", "sph with stars and self-gravity", "sph with sinks", "sph with test-particle dust", "plummer (random numbers)", "random sphere (random numbers)", "sph with random supernovae", "mfv with self-gravity", "nbody lfkdk", "nbody hermite6ts"};
enum { NKIND = 17 };
static bool hasgas(int k) { return !(k >= 4 && k <= 7) && k != 11 && k < 15; }
// a live simulation of any dimension, reduced to what this property needs
struct One {
  std::function<SimulationBase*()> base; std::function<St()> state; std::shared_ptr<void> own;
};
template<int nd> St state_of(Simulation<nd>* s, bool mfv) {
  St v; auto put = [&](double x) { v.push_back(x); }; put(s->t); put(s->n); put(s->Nsteps); put(s->timestep); put(s->nresync); put(s->level_max); put(s->level_step); put(s->hydro->Nhydro); put(s->nbody->Nstar);
  for (int i=0;i<s->hydro->Nhydro;i++) { Particle<nd>& p = s->hydro->GetParticlePointer(i); for (int k=0;k<nd;k++) { put(p.r[k]); put(p.v[k]); put(p.a[k]); put(p.r0[k]); put(p.v0[k]); put(p.a0[k]); } put(p.m); put(p.h); put(p.u); put(p.rho); put(p.u0); put(p.sound); put(p.dudt); put(p.dt); put(p.dt_next); put(p.level); put(p.levelneib); put(p.nstep); put(p.nlast); put(p.iorig); put(p.ptype); put(p.flags.get() & (active | dead)); put(p.gpot);
    if (mfv) { auto& q = static_cast<MeshlessFVParticle<nd>&>(p); for (int k=0;k<nd+2;k++) { put(q.Qcons0[k]); put(q.dQ[k]); put(q.dQdt[k]); put(q.Wprim[k]); } } }
  for (int i=0;i<s->nbody->Nstar;i++) { StarParticle<nd>& p = s->nbody->stardata[i]; for (int k=0;k<nd;k++) { put(p.r[k]); put(p.v[k]); put(p.a[k]); put(p.adot[k]); put(p.r0[k]); put(p.v0[k]); put(p.a0[k]); } put(p.m); put(p.h); put(p.level); put(p.nstep); put(p.nlast); put(p.gpot); }
  return v; }
template<int nd> One wrap(std::shared_ptr<sim::Sim<nd>> X, bool mfv) { One o; Simulation<nd>* s = X->sim; o.own = X; o.base = [s] { return (SimulationBase*) s; }; o.state = [s, mfv] { return state_of<nd>(s, mfv); }; return o; }
// simulations whose initial conditions the code makes by itself
struct Own { Parameters P; Simulation<3>* sim; Own(const char* type, const sim::Opts& o, int Nh, int Ns) { sim::boot(); sim::scratch(); P.intparams["dimensionless"] = 1; P.intparams["tabulated_kernel"] = 0; P.floatparams["tsnapfirst"] = P.floatparams["dt_snap"] = P.floatparams["tmax_wallclock"] = 1e30; P.intparams["noutputstep"] = P.intparams["ndiagstep"] = P.intparams["nrestartstep"] = 1 << 30; P.intparams["Nhydro"] = Nh; P.intparams["Nstar"] = Ns;
  for (auto& x : o.s) P.stringparams[x.first] = x.second; for (auto& x : o.i) P.intparams[x.first] = x.second; for (auto& x : o.f) P.floatparams[x.first] = x.second; sim = static_cast<Simulation<3>*>(SimulationBase::SimulationFactory(3, type, &P)); } };
static One wrap(std::shared_ptr<Own> X) { One o; Simulation<3>* s = X->sim; o.own = X; o.base = [s] { return (SimulationBase*) s; }; o.state = [s] { return state_of<3>(s, false); }; return o; }
// outputs: 0 none, 1 everything at every step, 2 snapshots now and then
static sim::Opts outputs(int out, const char* id, int lev) {
  sim::Opts o; o.S("run_id", id).I("Nlevels", lev); if (out) { o.F("tsnapfirst", 0).F("dt_snap", out == 1 ? 1e-9 : 0.011).I("litesnap", 1).F("tlitesnapfirst", 0).F("dt_litesnap", 0.004).I("ndiagstep", 1).I("noutputstep", 1).I("nrestartstep", out == 1 ? 1 : 3).S("out_file_form", out == 1 ? "sf" : "su"); if (out == 1) o.F("dt_snap", 1e-4).F("dt_litesnap", 1e-4); }
  return o; }
static One build(int kind, int out, const char* id = "MC", int lev = 3, int Nmax = 1<<30, double tend = 1e30, int seed = 7, bool xor_ = true) {
  sim::Opts o = outputs(out, id, lev); o.I("Nstepsmax", Nmax).F("tend", tend).I("randseed", seed).S("rand_algorithm", xor_ ? "xorshift" : "none").F("h_fac", 0.75);
  if (hasgas(kind) && kind != 12) { int n = 5, N = n*n, ns = kind == 8 ? 2 : 0, nd2 = kind == 10 ? N : 0; o.S("neib_search", "kdtree").I("Nleafmax", 4).S("gas_eos", "energy_eqn").S("time_step_limiter", "conservative").I("ntreebuildstep", 2).I("ntreestockstep", 1); bool mfv = kind == 2 || kind == 3 || kind == 14;
    for (int k=0;k<2;k++) o.box(k, -50.0, 50.0, "open", "open"); o.S("sph_integration", kind == 1 ? "lfdkd" : "lfkdk"); if (kind == 3) o.I("Nlevels", 1); if (kind == 8 || kind == 14) o.I("self_gravity", 1); if (kind == 14) o.I("zero_mass_flux", 1);
    if (kind == 9) o.I("sink_particles", 1).I("create_sinks", 1).I("self_gravity", 1).F("rho_sink", 30).F("sink_radius", 0.2).S("sink_radius_mode", "fixed").I("smooth_accretion", 0).S("nbody", "lfkdk").I("Nsinkmax", 4).I("Nstarmax", 4);
    if (kind == 10) o.S("dust_forces", "test_particle").S("drag_law", "fixed").F("drag_coeff", 10.0);
    if (kind == 13) o.S("supernova_feedback", "random");
    auto X = std::make_shared<sim::Sim<2>>(mfv ? kind == 3 ? "mfvrk" : "mfvmuscl" : "sph", o, N+nd2, ns);
    for (int i=0;i<N+nd2;i++) { int a = i%N%n, b = i%N/n; bool d = i >= N; sim::Body y; double sc = kind == 9 ? 0.3 : 1; y.r[0] = sc*(0.2*(a+0.5)+0.02*sin(3*a+7*b)+(d ? 0.07 : 0)); y.r[1] = sc*(0.2*(b+0.5)+0.02*sin(5*a+2*b+1)+(d ? 0.03 : 0)); y.v[0] = 0.3*sin(a+2*b); y.v[1] = 0.2*cos(3*a+b); y.m = kind == 9 ? 0.2 : 1.0/N; y.h = 0.3*sc; y.u = 1+(a == 2 && b == 2 ? 30 : 0); y.ptype = d ? dust_type : gas_type; X->set(i, y); }
    for (int i=0;i<ns;i++) { sim::Body y; y.r[0] = 0.3+0.5*i; y.r[1] = 0.5; y.v[1] = i ? -0.5 : 0.5; y.m = 0.3; y.h = 0.05; X->setstar(i, y); }
    return wrap<2>(X, mfv); }
  if (kind == 12) { o.S("ic", "sphere").S("particle_distribution", "random").I("Nhydro", 20).F("radius", 1).F("mcloud", 1).S("gas_eos", "energy_eqn").S("neib_search", "kdtree"); for (int k=0;k<3;k++) o.box(k, -50.0, 50.0, "open", "open"); return wrap(std::make_shared<Own>("sph", o, 20, 0)); }
  if (kind == 11) { o.S("ic", "plummer").S("nbody", "hermite4").F("rstar", 1).F("mplummer", 1).F("gasfrac", 0).F("starfrac", 1).F("rplummer", 1).I("nbody_softening", 1); return wrap(std::make_shared<Own>("nbody", o, 0, 6)); }
  static const char* IN[] = {"hermite4", "hermite4ts", "lfdkd", "hermite4"}; o.S("nbody", kind == 15 ? "lfkdk" : kind == 16 ? "hermite6ts" : IN[kind-4]).I("nbody_softening", kind != 7).I("Npec", 2).F("nbody_mult", 0.1); if (kind == 7) o.I("sub_systems", 1).S("sub_system_integration", "hermite4").F("gpesoft", 0.1).F("gpehard", 1e-3).F("subsys_mult", 0.2).F("nbody_mult", 0.01);
  auto X = std::make_shared<sim::Sim<3>>("nbody", o, 0, 4); for (int i=0;i<4;i++) { sim::Body y; y.r[0] = (i < 2 ? 0 : 1)+0.1*(i%2); y.r[1] = 0.3*i; y.r[2] = i == 3 ? 0.4 : 0; if (kind == 7) { y.r[0] = (i < 2 ? -1 : 1); y.r[1] = i%2 ? 0.01 : -0.01; y.r[2] = 0; y.v[1] = i < 2 ? 0.3 : -0.3; y.v[0] = i%2 ? 4 : -4; } else { y.v[0] = 0.2*i-0.3; y.v[1] = i == 2 ? 0.4 : -0.1; } y.m = 1+0.2*i; y.h = 0.05; X->setstar(i, y); } return wrap<3>(X, false);
}
static void start(One& o) { o.base()->SetupSimulation(); }
static std::string differ(const St& a, const St& b) { char x[120]; if (a.size() != b.size()) { snprintf(x, 120, "sizes %zu and %zu", a.size(), b.size()); return x; } for (size_t i=0;i<a.size();i++) if (memcmp(&a[i], &b[i], 8)) { snprintf(x, 120, "entry %zu of %zu: %.17g and %.17g", i, a.size(), a[i], b[i]); return x; } return ""; }
// reference: one call, nothing written
static std::vector<St>& ref(int kind, int lev, int K) { static std::map<std::pair<int,int>,std::vector<St>> R; auto& r = R[{kind, lev}]; if ((int) r.size() <= K) { r.clear(); One o = build(kind, 0, "REF", lev); start(o); r.push_back(o.state()); for (int k=0;k<K;k++) { o.base()->MainLoop(); r.push_back(o.state()); } } return r; }
static void observe(One& o, int what) {
  SimulationBase* s = o.base(); switch (what) {
    case 1: { SphSnapshotBase* p = SphSnapshotBase::SphSnapshotFactory("", s, s->ndims); p->CopyDataFromSimulation(); if (p->GetNTypes() > 0) { float* f = nullptr; int n = 0; float sc = 0; std::string t = p->GetSpecies(0), u = "m", z; (void) f; (void) n; (void) sc; (void) t; } delete p; break; }
    case 2: s->CalculateDiagnostics(); s->OutputDiagnostics(); s->UpdateDiagnostics(); s->WriteSnapshotFile("VIEW.su", "su"); break;
    case 3: s->RestartSnapshot(); s->WriteSnapshotFile("VIEW.column", "column"); s->GetParam("Nhydro"); s->GetIntAndFloatParameterKeys(); break; }
}
static void split(Ctx& c) {
  int kind = c.choose(NKIND, "kind"), K = c.thorough ? 5 : 3, out = c.choose(3, "outputs"), lev = c.pick({3, 1}); if (kind == 13 && out == 2) c.prune(); if (!c.thorough && lev == 1 && out != 1) c.prune(); Quiet q; std::string h = KIND[kind];
  try { std::vector<St>& R = ref(kind, lev, K); One o = build(kind, out, "RUN", lev); start(o); std::string d = differ(R[0], o.state()); c.check(d.empty(), "setup", "%s: setting up again gives another state: %s", h.c_str(), d.c_str()); if (c.failed) return;
    int done = 0; while (done < K && !c.failed) { int n = 1+c.choose(K-done, "steps"); int how = c.choose(2, "run / interactive run"); SimulationBase* s = o.base(); char b[80]; snprintf(b, 80, ", %s(%d)", how ? "InteractiveRun" : "Run", n); h += b; int N0 = s->Nsteps, S0 = s->Noutsnap, L0 = s->Noutlitesnap;
      if (how) { s->dt_python = 1e30; std::list<SphSnapshotBase*> l = s->InteractiveRun(n); c.check((int) l.size() >= s->Noutsnap-S0 && (int) l.size() <= s->Noutsnap-S0+s->Noutlitesnap-L0, "snapshots", "%s: %zu snapshots handed out, %d written", h.c_str(), l.size(), s->Noutsnap-S0); for (auto* p : l) delete p; } else s->Run(n);
      c.check(s->Nsteps == N0+n, "count", "%s: %d steps were made", h.c_str(), s->Nsteps-N0); done += n; d = differ(R[std::min(done, K)], o.state()); c.check(d.empty(), "split", "%s, outputs %d, Nlevels %d: state after step %d differs from one run without output: %s", h.c_str(), out, lev, done, d.c_str()); c.step();
      if (done < K && !c.failed) { int w = c.choose(4, "observation"); observe(o, w); static const char* W[] = {"", ", view", ", diagnostics", ", restart snapshot"}; h += W[w]; d = differ(R[done], o.state()); c.check(d.empty(), "observe", "%s: looking changes the state: %s", h.c_str(), d.c_str()); } }
    c.interesting(); }
  catch (GandalfError& e) { c.fail("error", "%s: %s", h.c_str(), e.msg.c_str()); }
}
SCENARIO(split, 5, "every composition of 3 (5) steps into Run/InteractiveRun calls, with every observation between them, three output settings, every simulation type") { split(c); }
SCENARIO(again, 2, "every order of steps of two simulations in one process: each runs as if alone") {
  int a = c.choose(NKIND, "first"), b = c.choose(NKIND, "second"); int K = c.thorough ? 3 : 2; if (!c.thorough && a != b && a > b) c.prune(); Quiet q; std::string h = std::string(KIND[a])+" and "+KIND[b];
  try { std::vector<St> &A = ref(a, 3, 4); std::vector<St> RA = A; std::vector<St>& RB = ref(b, 3, 4); One o[2] = {build(a, 0, "A"), build(b, 1, "B")}; int n[2] = {-1, -1}; 
    while (n[0] < K || n[1] < K) { int w = n[0] >= K ? 1 : n[1] >= K ? 0 : c.choose(2, "which"); if (n[w] < 0) start(o[w]); else o[w].base()->Run(1); n[w]++; std::string d = differ(w ? RB[n[w]] : RA[n[w]], o[w].state()); c.check(d.empty(), "interleave", "%s: %s after %d steps (%d of the other) differs from the run alone: %s", h.c_str(), w ? "second" : "first", n[w], n[1-w], d.c_str()); c.step(); if (c.failed) return; }
    c.interesting(); }
  catch (GandalfError& e) { c.fail("error", "%s: %s", h.c_str(), e.msg.c_str()); }
}
SCENARIO(seed, 3, "initial conditions drawn at random: the same seed repeats them, another changes them, for both generators") {
  int kind = c.pick({11, 12, 13}); bool x = c.choose(2, "generator"); int s1 = c.pick({1, 2, 12345, 7}), s2 = c.pick({1, 2, 12345, 7}); int between = c.choose(3, "in between"); Quiet q; if (kind == 13 && !x) c.prune();
  auto go = [&](int seed) { One o = build(kind, 0, "S", 3, 1<<30, 1e30, seed, x); start(o); o.base()->Run(2); return o.state(); };
  try { St A = go(s1); if (between == 1) go(99); if (between == 2) { One o = build(12, 0, "T"); start(o); } St B = go(s2); std::string d = differ(A, B); if (s1 == s2) c.check(d.empty(), "repeat", "%s with generator %s: repeating the run with seed %d gives another state: %s", KIND[kind], x ? "xorshift" : "none", s1, d.c_str()); else if (kind != 13) c.check(!d.empty(), "seeds", "%s with generator %s: seeds %d and %d give the same state", KIND[kind], x ? "xorshift" : "none", s1, s2); c.step(); c.interesting(); }
  catch (GandalfError& e) { c.fail("error", "%s", e.msg.c_str()); }
}
SCENARIO(stop, 3, "every end time around every step, every step limit, Run and InteractiveRun: stops at the first step at or after it") {
  int kind = c.choose(NKIND, "kind"), lev = c.pick({3, 1}), K = c.thorough ? 5 : 3; Quiet q; 
  try { std::vector<St>& R = ref(kind, lev, K+1); int k = c.choose(K+1, "end near step"), w = c.choose(5, "where"); double t = R[k][0], dt = k < K ? R[k+1][0]-t : t-R[k-1][0]; double te = w == 0 ? t : w == 1 ? nextafter(t, 1e9) : w == 2 ? t+0.5*dt : w == 3 ? nextafter(t+dt, -1e9) : t*(1-1e-13); int Nmax = c.thorough ? c.pick({1<<30, 0, 3, 5}) : c.pick({1<<30, 2}); if (w == 3 && t+dt <= t) c.prune(); if (w == 4 && t == 0) c.prune(); if (te > R[K+1][0]) c.prune();
    int how = c.choose(3, "Run(-1) / Run(3) until done / InteractiveRun in pieces"); One o = build(kind, (c.thorough || lev == 3) && c.choose(2, "outputs") ? 1 : 0, "STOP", lev, Nmax, te); start(o); int want = 0; while (want < K+1 && R[want][0] < te && want < Nmax) want++; if (want > K) want = K+1; SimulationBase* s = o.base(); s->dt_python = 1e30;
    char h[300]; snprintf(h, 300, "%s, Nlevels %d, tend=%.17g, Nstepsmax=%d, %s", KIND[kind], lev, te, Nmax, how == 0 ? "Run()" : how == 1 ? "Run(3) twice" : "InteractiveRun");
    if (how == 0) s->Run(-1); else if (how == 1) { s->Run(3); s->Run(3); want = 0; while (want < 6 && want <= K && R[want][0] < te) want++; } else { auto l = s->InteractiveRun(2); for (auto* p : l) delete p; int w0 = 0; while (w0 < 2 && R[w0][0] < te) w0++; if (want < w0) want = w0; l = s->InteractiveRun(-1); for (auto* p : l) delete p; }
    c.check(s->Nsteps == want, "stop", "%s: stopped after %d steps at t=%.17g, expected %d", h, s->Nsteps, s->t, want); if (c.failed) return; if (want <= K+1) { std::string d = differ(R[want], o.state()); c.check(d.empty(), "stopstate", "%s: final state differs: %s", h, d.c_str()); } c.step(); c.interesting(); }
  catch (GandalfError& e) { c.fail("error", "%s: %s", KIND[kind], e.msg.c_str()); }
}
int main(int a, char** v) { return mc::main(a, v); }
