// C01 + C23: the real main loops (SPH with both integrators, MFV with both integrators, N-body stars) are run with the neighbour search
// replaced by a script (forces, heating rates, who is whose neighbour) and the requested timesteps chosen exhaustively at every request.
// After every step the schedule is judged from outside, and the trajectories are compared with a reference integrator for that schedule.
#include <dlfcn.h>
#include "sim.hpp"
#include "SphNeighbourSearch.h"
#include "MfvNeighbourSearch.h"
#include "Integration.h"
using namespace mc;
static std::string fmt(const char* f, ...) { char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// A private copy of an object's virtual table with one entry replaced
template<class O, class M, class F> void hook(O* obj, M method, F* repl) {
  long off; memcpy(&off, &method, sizeof off); off -= 1; void**& vt = *(void***) obj; static std::vector<void**> keep;
  void** nt = new void*[130]; keep.push_back(nt); for (int i=-2;i<100;i++) nt[i+2] = vt[i]; nt[2+off/sizeof(void*)] = (void*) repl; vt = nt+2;
}
struct Script {
  Ctx* c = nullptr; bool mfv = false; int budget = 0, nopt = 4, N = 0, edges = 0; long asked = 0; double base = 0.01; std::vector<double> req; std::vector<int> nreq; std::vector<int> ln, lhi; int hi(int i) { return lhi[i]; } std::vector<double> sreq; std::vector<int> nsreq; int heat = 0; double kspring = 0;
  const double* O = nullptr; uint64_t pat = 0;
  int next(const char* what) { asked++; if (budget > 0) { budget--; return c->choose(nopt, what); } pat = pat*6364136223846793005ull + 1442695040888963407ull; return (pat>>60)%nopt; }
  bool nb(int i, int j) { int d = abs(i-j); if (d == 0) return false; if (edges == 0) return false; if (edges == 1) return d == 1; return true; }
  double acc(int i, int k, double t) { double x = sin(12.9898*(i+1)+78.233*(k+1)+377.7*t); return kspring != 0 ? 0 : 3*x; }
  double dudt(int i, double t) { double x = sin(3.3*(i+2)+911.1*t); return heat == 1 ? 20*x : heat == 2 ? -900*(1+x) : 0; }
} G;
static const double OPT[4] = {1.0, 0.5, 0.3, 0.12};
template<int nd> double hydro_timestep(void*, Particle<nd>& p, Hydrodynamics<nd>*) { int o = G.next("requested step"); double x = G.base*G.O[o]; if ((int) G.req.size() > p.iorig && p.iorig >= 0) { G.req[p.iorig] = x; G.nreq[p.iorig]++; } return x; }
template<int nd> double star_timestep(void*, NbodyParticle<nd>* s) { int o = G.next("requested star step"); double x = G.base*G.O[o]; int i = s->istar; if (i >= 0 && i < (int) G.sreq.size()) { G.sreq[i] = x; G.nsreq[i]++; } return x; }
template<int nd, class Get> void levels(Get get, int N) {   // each active particle sees its neighbours' levels and shows them its own
  for (int i=0;i<N;i++) if (get(i).flags.check(active)) { int o = get(i).iorig; get(i).levelneib = 0; G.ln[o] = 0; }
  for (int i=0;i<N;i++) if (get(i).flags.check(active)) for (int j=0;j<N;j++) if (G.nb(get(i).iorig, get(j).iorig)) { Particle<nd>&a = get(i), &b = get(j); a.levelneib = std::max(a.levelneib, b.level); b.levelneib = std::max(b.levelneib, a.level); G.ln[a.iorig] = std::max(G.ln[a.iorig], b.level); G.ln[b.iorig] = std::max(G.ln[b.iorig], a.level); }
  if (!G.mfv) for (int i=0;i<N;i++) G.lhi[i] = std::max(G.lhi[i], G.ln[i]);
}
#define STUBS(nd) \
  void BuildTree(const bool, const int, const int, const int, const FLOAT, Hydrodynamics<nd>*) {} \
  void BuildGhostTree(const bool, const int, const int, const int, const FLOAT, Hydrodynamics<nd>*) {} \
  int GetGatherNeighbourList(FLOAT*, FLOAT, Particle<nd>*, int, int, int*) { return 0; } \
  void SearchBoundaryGhostParticles(FLOAT, const DomainBox<nd>&, Hydrodynamics<nd>*) {} \
  void UpdateActiveParticleCounters(Hydrodynamics<nd>*) {} \
  void UpdateAllStarGasForces(Hydrodynamics<nd>*, Nbody<nd>*, DomainBox<nd>&, Ewald<nd>*) {} \
  double GetMaximumSmoothingLength() const { return 0.01; } \
  TreeBase<nd>* GetTree() const { return nullptr; } \
  TreeBase<nd>* GetGhostTree() const { return nullptr; } \
  void SetTimingObject(CodeTiming*) {} \
  void ToggleNeighbourCheck(bool) {} \
  void UpdateTimestepsLimitsFromDistantParticles(Hydrodynamics<nd>*, const bool) {} \
  MAC_Type GetOpeningCriterion() const { return geometric; } \
  void SetOpeningCriterion(MAC_Type) {}
template<int nd> struct SphStub : SphNeighbourSearch<nd> {
  Simulation<nd>* s; STUBS(nd)
  void UpdateAllSphProperties(Sph<nd>* sph, Nbody<nd>*) { for (int i=0;i<sph->Nhydro;i++) { SphParticle<nd>& p = sph->GetSphParticlePointer(i); p.h = 0.01; p.hrangesqd = 4e-4; p.rho = 1; } }
  void UpdateAllSphHydroForces(Sph<nd>* sph, Nbody<nd>*, DomainBox<nd>&) {
    for (int i=0;i<sph->Nhydro;i++) { SphParticle<nd>& p = sph->GetSphParticlePointer(i); if (!p.flags.check(active)) continue; for (int k=0;k<nd;k++) p.a[k] += G.acc(p.iorig, k, s->t) - G.kspring*(p.r[k]-0.5-0.1*k); p.dudt += G.dudt(p.iorig, s->t); }
    levels<nd>([&](int i) -> Particle<nd>& { return sph->GetSphParticlePointer(i); }, sph->Nhydro); }
  void UpdateAllSphForces(Sph<nd>* sph, Nbody<nd>* n, DomainBox<nd>& b, Ewald<nd>*) { UpdateAllSphHydroForces(sph, n, b); }
};
static double flux(int i, int v) { return 0.3*sin(2.7*(i+1)+1.9*(v+1)); }
template<int nd> struct MfvStub : MeshlessFVNeighbourSearch<nd> {
  Simulation<nd>* s; STUBS(nd)
  using NeighbourSearch<nd>::UpdateAllProperties;
  void UpdateAllProperties(MeshlessFV<nd>* m, Nbody<nd>*) { for (int i=0;i<m->Nhydro;i++) { MeshlessFVParticle<nd>& p = m->GetMeshlessFVParticleArray()[i]; p.h = 0.01; p.hrangesqd = 4e-4; p.rho = p.m; p.ndens = 1; p.invomega = 1; p.zeta = 0; p.hfactor = 1; m->ComputeThermalProperties(p); m->UpdatePrimitiveVector(p); } }
  void UpdateGradientMatrices(MeshlessFV<nd>* m, Nbody<nd>*, DomainBox<nd>&) { MeshlessFVParticle<nd>* d = m->GetMeshlessFVParticleArray(); levels<nd>([&](int i) -> Particle<nd>& { return d[i]; }, m->Nhydro); }
  void UpdateGodunovFluxes(FLOAT ts, MeshlessFV<nd>* m, Nbody<nd>*, DomainBox<nd>&) { MeshlessFVParticle<nd>* d = m->GetMeshlessFVParticleArray(); for (int i=0;i<m->Nhydro;i++) if (d[i].flags.check(active)) for (int v=0;v<nd+2;v++) { d[i].dQdt[v] += flux(d[i].iorig, v); d[i].dQ[v] += flux(d[i].iorig, v)*d[i].nstep*ts; } }
  void UpdateAllGravForces(MeshlessFV<nd>*, Nbody<nd>*, DomainBox<nd>&, Ewald<nd>*) {}
};
// which property this build decides: the schedule (C01) or the trajectories (C23)
#ifndef STEPS
#define STEPS 1
#endif
template<int nd> struct Run {
  template<class... A> bool chk(bool ok, A... a) { return STEPS == 1 ? c.check(ok, a...) : true; }
  Ctx& c; int ty; bool mfv, dkd; int N, M, Nlev, diff, single, heat; sim::Sim<nd> S; Simulation<nd>* s; std::string limiter;
  struct Ref { double r[3], v[3], a0[3], a[3], u, d0, d, t; }; std::vector<Ref> R; std::vector<double> q0[5]; std::vector<double> P0;
  std::vector<int> lpre, npre, nlpre, slpre; std::vector<double> due, len, sdue, slen; double tsum = 0, dtmax = -1;
  static sim::Opts opts(int ty, int zmf, int Nlev, int diff, int single, int heat, const std::string& lim) { sim::Opts o; o.S("neib_search", "kdtree").I("Nlevels", Nlev).I("level_diff_max", diff).I("sph_single_timestep", single).S("gas_eos", heat ? "energy_eqn" : ty >= 4 ? "energy_eqn" : "isothermal").S("sph_integration", ty & 1 ? "lfdkd" : "lfkdk").S("time_step_limiter", lim).I("nbody_softening", 1); if (ty == 2 || ty == 3) o.S("sph", "sm2012"); if (ty >= 4) o.I("zero_mass_flux", zmf); for (int k=0;k<nd;k++) o.box(k, -50.0, 50.0, "open", "open"); return o; }
  static const char* tyname(int ty) { static const char* T[] = {"sph","sph","sm2012sph","sm2012sph","mfvmuscl","mfvrk"}; return T[ty]; }
  Run(Ctx& c, int ty, int N, int M, int Nlev, int diff, int single, int heat, std::string lim, double speed = 1) : c(c), ty(ty), mfv(ty >= 4), dkd(ty < 4 && (ty&1)), N(N), M(M), Nlev(Nlev), diff(diff), single(single), heat(heat), S(tyname(ty), opts(ty, M > 0, Nlev, diff, single, heat, lim), N, M), limiter(lim) {
    s = S.sim; G.c = &c; G.mfv = mfv; G.N = N; G.req.assign(N, 0); G.nreq.assign(N, 0); G.ln.assign(N, 0); G.lhi.assign(N, 0); G.sreq.assign(M, 0); G.nsreq.assign(M, 0); G.heat = heat; G.pat = 12345; G.asked = 0; G.O = OPT; G.nopt = 4;
    s->initial_h_provided = true;
    for (int i=0;i<N;i++) { sim::Body b; for (int k=0;k<nd;k++) { b.r[k] = 0.3+0.11*i+0.05*k; b.v[k] = speed*(0.7-0.4*i+0.3*k); } b.m = 2+0.3*i; b.h = 0.01; b.u = 30+i; S.set(i, b); }
    for (int i=0;i<M;i++) { sim::Body b; for (int k=0;k<nd;k++) { b.r[k] = 7.0*i-3+0.3*k; b.v[k] = 0.1*i; } b.m = 1e-3; b.h = 0.1; S.setstar(i, b); s->nbody->stardata[i].istar = i; }
    if (mfv) { auto* x = new MfvStub<nd>; x->s = s; static_cast<MeshlessFVSimulation<nd>*>(s)->mfvneib = x; } else { auto* x = new SphStub<nd>; x->s = s; static_cast<SphSimulation<nd>*>(s)->sphneib = x; }
    hook(s->hydroint, &TimeIntegration<nd>::Timestep, &hydro_timestep<nd>); if (M) hook(s->nbody, &Nbody<nd>::Timestep, &star_timestep<nd>);
    S.setup(); R.resize(N); lpre.resize(N); nlpre.resize(N); npre.resize(N); due.assign(N, 0); len.assign(N, 0); sdue.assign(M, 0); slen.assign(M, 0); slpre.assign(M, 0);
    for (int v=0;v<5;v++) q0[v].assign(N, 0); 
    for (int i=0;i<N;i++) { Particle<nd>& p = S.part(i); Ref& f = R[i]; for (int k=0;k<nd;k++) { f.r[k] = p.r[k]; f.v[k] = p.v[k]; f.a0[k] = f.a[k] = G.acc(i, k, 0) - G.kspring*(p.r[k]-0.5-0.1*k); } f.u = p.u; f.d0 = f.d = G.dudt(i, 0); f.t = 0;
      if (mfv) { double ke = 0; for (int k=0;k<nd;k++) { q0[k][i] = p.m*p.v[k]; ke += 0.5*p.m*p.v[k]*p.v[k]; } q0[nd][i] = p.m; q0[nd+1][i] = p.m*p.u + ke; } }
    after(true);
  }
  double q(int v, int i, double t) { return q0[v][i] + flux(i, v)*t; }
  int intstep() { return dkd ? 2 : 1; }
  void step() {
    for (int i=0;i<N;i++) { lpre[i] = S.part(i).level; npre[i] = S.part(i).nstep; nlpre[i] = S.part(i).nlast; } for (int i=0;i<M;i++) slpre[i] = S.star(i).level;
    G.nreq.assign(N, 0); G.nsreq.assign(M, 0); G.lhi = mfv ? G.ln : std::vector<int>(N, 0); npr = s->n; double T = s->timestep, t0 = s->t; lspre = s->level_step; S.step(); c.step(); tsum += T;
    if (!chk(s->t > t0 && fabs(s->t - t0 - T) < 1e-14 && fabs(s->t - tsum) < 1e-12, "time", "time went from %.17g to %.17g, step %.17g, sum of steps %.17g", t0, (double) s->t, T, tsum)) return;
    after(false);
  }
  int npr, lspre; int early = 0, changes = 0;
  void after(bool first) {
    if (c.failed) return; double T = s->timestep, t = s->t; int n = s->n; bool sync = first || n == 0; const char* nm = tyname(ty);
    if (!chk(T > 0 && n >= 0 && n < s->nresync && s->nresync == (Nlev > 1 ? 1 << s->level_step : intstep()) && s->level_step == s->level_max + intstep() - 1, "structure", "n %d nresync %d level_step %d level_max %d timestep %g", n, s->nresync, s->level_step, s->level_max, T)) return;
    if (Nlev > 1) { if (sync) dtmax = s->dt_max; if (!chk(s->dt_max == dtmax && fabs(T*s->nresync/dtmax-1) < 1e-12, "dt-max", "dt_max %.17g (was %.17g) timestep %.17g nresync %d", (double) s->dt_max, dtmax, T, s->nresync)) return; }
    double mr = 1e99; int lh = 0; for (int i=0;i<N;i++) { mr = std::min(mr, G.req[i]); lh = std::max(lh, (int) S.part(i).level); } for (int i=0;i<M;i++) mr = std::min(mr, G.sreq[i]);
    if (Nlev == 1) { if (sync && !chk(fabs(T*intstep()/mr - 1) < 1e-12, "global-step", "global step is %.17g long, the smallest request %.17g", T*intstep(), mr)) return; }
    else if (sync && !chk(fabs(dtmax/(mr*(1 << (Nlev-1))) - 1) < 1e-12, "dt-max", "dt_max %.17g, smallest request %.17g, %d levels", dtmax, mr, Nlev)) return;
    std::vector<char> ended(N, 0);
    for (int i=0;i<N;i++) {
      Particle<nd>& p = S.part(i); if (!chk(p.iorig == i, "order", "particle %d is called %d", i, p.iorig)) return; 
      bool end = Nlev == 1 ? n == 0 || first : p.nlast == n; ended[i] = end; double L = p.nstep*T;
      if (Nlev > 1 && !chk(p.level >= 0 && p.level <= s->level_max && p.nstep == (1 << (s->level_step - p.level)) && p.nlast%p.nstep == 0 && p.nlast <= n && n < p.nlast + p.nstep, "level", "%s particle %d: level %d (max %d) nstep %d nlast %d n %d level_step %d", nm, i, p.level, s->level_max, p.nstep, p.nlast, n, s->level_step)) return;
      if (!first) { bool must = t >= due[i]*(1-1e-12), wake = false; int nn = 0;
        if (!must && Nlev > 1 && (!mfv || ty == 4 && limiter == "simple") && G.hi(i) - lpre[i] > diff) { nn = 1 << (lspre - (G.hi(i)-diff)); wake = (npr+1-nlpre[i])%nn == 0; }
        if (mfv && wake) { nn = 1; }
        if (!chk(end == (must || wake), end ? "early-end" : must ? "missed-end" : "not-woken", "%s particle %d (level %d, neighbours' %d): step %s at t=%.10g, it was due at %.10g", nm, i, lpre[i], G.ln[i], end ? "ended" : "not ended", t, due[i])) return;
        if (wake && !must) early++; }
      if (end) {
        if (!first && !chk(G.nreq[i] >= 1, "no-request", "%s particle %d starts a step without asking for its length", nm, i)) return;
        if (!chk(L <= G.req[i]*(1+1e-9), "too-long", "%s particle %d (level %d) takes a step of %.10g, it asked for %.10g (t=%.8g, n %d)", nm, i, p.level, L, G.req[i], t, n)) return;
        if (Nlev > 1 && !sync && !first) { int want = std::max(ComputeTimestepLevelRef(dtmax/G.req[i]), std::max(lpre[i], G.hi(i)-diff)); if (single) want = lh; if (!chk(p.level <= want, "too-short", "%s particle %d is put on level %d; asked for %.10g of %.10g, was on %d, neighbours on %d", nm, i, p.level, G.req[i], dtmax, lpre[i], G.ln[i])) return;
          if (!chk(p.level >= (mfv ? G.lhi : G.ln)[i]-diff, "neighbour-level", "%s particle %d starts a step on level %d next to level %d (allowed difference %d)", nm, i, p.level, G.ln[i], diff)) return; }
        if (Nlev > 1 && sync && !single) { int a = ComputeTimestepLevelRef(dtmax/G.req[i]*(1-1e-9)), b = std::max(1, ComputeTimestepLevelRef(dtmax/G.req[i]*(1+1e-9))); if (!chk(p.level >= std::min(a, s->level_max) && p.level <= std::min(b, s->level_max), "sync-level", "%s particle %d is put on level %d of %d; asked for %.10g of %.10g", nm, i, p.level, s->level_max, G.req[i], dtmax)) return; }
        if (single && Nlev > 1 && !chk(p.level == lh, "single-level", "%s particle %d is on level %d, another on %d", nm, i, p.level, lh)) return;
        if (!first && p.level != lpre[i]) changes++;
        if (!chk(fabs(p.dt/(L*(Nlev == 1 ? 1 : 1)) - 1) < 1e-9, "dt", "%s particle %d: dt %.12g, its step is %.12g", nm, i, (double) p.dt, L)) return;
        if (!chk(p.tlast == (FLOAT) t, "tlast", "%s particle %d: tlast %.17g at t=%.17g", nm, i, (double) p.tlast, t)) return;
        due[i] = t + L; len[i] = L; if (!mfv) G.ln[i] = std::max(0, (int) p.level); if (Nlev == 1) due[i] = t + T*intstep();
        if (mfv || first) ; 
      } else if (!chk(fabs(p.tlast + (Nlev == 1 ? n : n - p.nlast)*T - t) < 1e-12 && fabs(p.dt/len[i]-1) < 1e-9, "mid-step", "%s particle %d: started at %.12g, %d of %d substeps of %.12g, now %.12g; dt %.12g", nm, i, (double) p.tlast, n-p.nlast, p.nstep, T, t, (double) p.dt)) return;
      track(i, p, end, first);
      if (c.failed) return;
    }
    for (int i=0;i<M;i++) { NbodyParticle<nd>& p = *s->nbody->nbodydata[i]; bool end = Nlev == 1 ? n == 0 || first : p.nlast == n; double L = p.nstep*T;
      if (Nlev > 1 && !chk(p.level >= lh && p.level <= s->level_max && p.nstep == (1 << (s->level_step - p.level)) && p.nlast%p.nstep == 0 && p.nlast <= n && n < p.nlast + p.nstep, "star-level", "star %d: level %d (max %d, hydro %d) nstep %d nlast %d n %d level_step %d", i, p.level, s->level_max, lh, p.nstep, p.nlast, n, s->level_step)) return;
      if (!first && !chk(end == (t >= sdue[i]*(1-1e-12)), "star-end", "star %d: step %s at t=%.10g, it was due at %.10g", i, end ? "ended" : "not ended", t, sdue[i])) return;
      if (end) { if (!first && !chk(G.nsreq[i] >= 1, "star-no-request", "star %d starts a step without asking for its length", i)) return;
        if (!chk(L <= G.sreq[i]*(1+1e-9), "star-too-long", "star %d (level %d) takes a step of %.10g, it asked for %.10g", i, p.level, L, G.sreq[i])) return;
        if (!first && Nlev > 1 && !sync) { int want = std::max(ComputeTimestepLevelRef(dtmax/G.sreq[i]), std::max(slpre[i], lh)); if (!chk(p.level <= want, "star-too-short", "star %d is put on level %d; asked for %.10g of %.10g", i, p.level, G.sreq[i], dtmax)) return; }
        if (!chk(fabs(p.dt/L - 1) < 1e-9 && p.tlast == (FLOAT) t, "star-dt", "star %d: dt %.12g, its step is %.12g; tlast %.12g t %.12g", i, (double) p.dt, L, (double) p.tlast, t)) return;
        sdue[i] = t + L; slen[i] = L; if (Nlev == 1) sdue[i] = t + T*intstep(); }
      double rr = 7.0*i-3 + 0.1*i*t; if (!chk(fabs(p.r[0]-rr) < 1e-3, "star-motion", "star %d is at %.10g, expected near %.10g", i, (double) p.r[0], rr)) return; }
    uint64_t h = n*1000003ull + s->level_max; for (int i=0;i<N;i++) h = h*31 + S.part(i).level*64 + n - S.part(i).nlast; c.state(h);
  }
  static int ComputeTimestepLevelRef(double ratio) { int l = 0; while (ratio > (1 << l)*(1-1e-9) && l < 28) l++; return l; }   // smallest l with dt_max/2^l (strictly) below the request
  void track(int i, Particle<nd>& p, bool end, bool first) {
    if (STEPS == 1) return;
    Ref& f = R[i]; double t = s->t, dt = t - f.t; if (first) { f.t = t; return; }
    auto cmp = [&](const char* what, double got, double want, double sc) { if (!(fabs(got-want) <= 1e-11*(sc+fabs(want)))) c.fail(what, "%s particle %d at t=%.10g (%s; step began %.10g, level %d): %s %.15g, the scheme gives %.15g", tyname(ty), i, t, end ? "end of its step" : "inside its step", f.t, p.level, what, got, want); };
    if (mfv) { double m = q(nd, i, t); cmp("mass", p.m, m, 1); double ke = 0;
      for (int k=0;k<nd;k++) { double v = q(k, i, t)/m, vs = q(k, i, f.t)/q(nd, i, f.t); ke += 0.5*m*v*v; cmp("velocity", p.v[k], v, 1); cmp("position", p.r[k], f.r[k] + 0.5*(vs+v)*dt, 1); if (end) f.r[k] = p.r[k]; }
      cmp("energy", p.u*p.m, q(nd+1, i, t) - ke, 10); if (end) f.t = t; return; }
    if (!dkd) { double a[3];
      for (int k=0;k<nd;k++) { double r = f.r[k] + f.v[k]*dt + 0.5*f.a0[k]*dt*dt, v = f.v[k] + f.a0[k]*dt; if (end) { a[k] = G.acc(i, k, t) - G.kspring*(r-0.5-0.1*k); v += 0.5*dt*(a[k]-f.a0[k]); f.a0[k] = a[k]; f.r[k] = r; f.v[k] = v; } cmp("position", p.r[k], r, 1); cmp("velocity", p.v[k], v, 1); }
      if (heat) { double u = f.u + f.d0*dt; if (end) { double d = G.dudt(i, t); double u1 = u + 0.5*(d-f.d0)*dt; u = u1 <= 0 ? u : u1; f.d0 = d; f.u = u; } cmp("energy", p.u, u, 1); }
      if (end) f.t = t; return; }
    // drift-kick-drift: the force is that of the middle of the step (until it is known: the last known one)
    double half = f.t + 0.5*len[i]; if (end) half = f.t + 0.5*flen[i]; if (flen.empty()) return; half = f.t + 0.5*flen[i];
    bool known = t >= half*(1-1e-13), full = t >= f.t + flen[i] - 1e-12;
    bool now = fabs(t-half) < 1e-12;      // the half-step is reached in this step: velocities were predicted with the old force
    for (int k=0;k<nd;k++) { double ah = known && !now ? fa[i][k] : f.a[k]; double v = f.v[k] + ah*dt, r = full ? f.r[k] + 0.5*(f.v[k]+v)*dt : f.r[k] + f.v[k]*dt;
      cmp("position", p.r[k], r, 1); cmp("velocity", p.v[k], v, 1);
      if (now) fa[i][k] = G.acc(i, k, t) - G.kspring*(r-0.5-0.1*k); }
    if (heat) { double d = known && !now ? fd[i] : f.d; cmp("energy", p.u, f.u + d*dt, 1); if (now) fd[i] = G.dudt(i, t); }
    if (end) { for (int k=0;k<nd;k++) { f.r[k] = p.r[k]; f.v[k] = p.v[k]; f.a[k] = full ? fa[i][k] : G.acc(i, k, t) - G.kspring*(p.r[k]-0.5-0.1*k); } f.u = p.u; f.d = full ? fd[i] : G.dudt(i, t); f.t = t; }
  }
  std::vector<double> flen; std::vector<std::array<double,3>> fa; std::vector<double> fd;
  void go() { step_lens(); step(); }
  void step_lens() { flen.resize(N); fa.resize(N); fd.resize(N); for (int i=0;i<N;i++) flen[i] = Nlev == 1 ? s->timestep*intstep() : len[i]; }
};
template<int nd> void blocks(Ctx& c, bool gas3) {
  bool sched = STEPS == 1; int ty = c.pick(std::vector<int>{0,1,4,5}), Nlev = c.pick(sched || c.thorough ? std::vector<int>{1,2,3,5} : std::vector<int>{1,2,4});
  int N = gas3 ? 3 : 2, M = gas3 || !sched ? 0 : c.choose(3, "stars");
  int edges = gas3 ? 1 + (Nlev > 1 ? c.choose(2, "edges") : 0) : Nlev > 1 ? c.choose(2, "edges") : 0, diff = edges ? 1 + c.choose(2, "level difference") : 1;
  int single = sched && Nlev > 1 && !edges ? c.choose(2, "single step") : 0, heat = ty >= 4 ? 1 : sched ? 0 : c.choose(Nlev == 1 ? 3 : 2, "heating");
  std::string lim = ty >= 4 ? (edges && c.flip("limiter") ? "simple" : "none") : "none"; 
  G.edges = edges; G.kspring = 0; G.budget = (Nlev == 1 ? 4 : gas3 ? 6 : M == 2 ? 5 : 6) - (c.thorough ? Nlev == 1 ? 0 : -1 : sched ? 1 : Nlev > 1 && ty < 4 ? 1 : 0) - (gas3 && !c.thorough && edges == 2 ? 1 : 0);
  c.describe(fmt("%dD %s%s: %d particles %d stars, %d levels, neighbours %d, difference %d, single %d, heat %d, limiter %s", nd, Run<nd>::tyname(ty), ty < 4 ? (ty&1 ? " lfdkd" : " lfkdk") : "", N, M, Nlev, edges, diff, single, heat, lim.c_str()));
  Run<nd> r(c, ty, N, M, Nlev, diff, single, heat, lim); int steps = Nlev == 5 ? 40 : 24;
  for (int n=0;n<steps && !c.failed;n++) r.go();
  if (r.changes || Nlev == 1) c.interesting();
}
SCENARIO(blocks1, 5, "two particles and up to two stars: every sequence of requested steps") { blocks<1>(c, false); }
SCENARIO(blocks2, 5, "three particles that are neighbours: every sequence of requested steps") { blocks<2>(c, true); }
