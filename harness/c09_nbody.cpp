// C09 - N-body integrators.  Exhaustive over integrator x softening x system x active set / block-step schedule: the real
// integrator objects are driven through every admissible schedule and compared, after every operation, with an
// independent extended-precision implementation of the published scheme; order, reversibility and conservation are
// measured on complete grids.
#include "sim.hpp"
#include "nbref.hpp"
#include "NbodySystemTree.h"
using namespace mc; using namespace nbref;
namespace {
const char* INTEG[] = {"lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"};
const int ORDER[] = {2, 2, 4, 4, 6};
enum { KDK, DKD, H4, H4TS, H6TS };
const int ND = 3;
// deterministic star systems, general positions
Sys make(int id, int N, double hs) {
  Sys S(N);
  static const double R[5][3] = {{0.1,-0.2,0.3},{1.1,0.25,-0.15},{-0.4,0.9,0.35},{-0.7,-0.6,-0.8},{0.35,-1.2,0.95}};
  static const double V[5][3] = {{0.05,-0.31,0.12},{-0.22,0.41,0.07},{0.33,-0.1,-0.26},{0.17,0.29,0.21},{-0.25,0.15,-0.13}};
  static const double M[5] = {1.0, 0.7, 1.3, 0.25, 0.55};
  double rs = id==0 ? 1.0 : (id==1 ? 0.45 : 1.0);
  for (int i=0;i<N;i++) { S[i].m=M[i]; S[i].h=hs*(1+0.15*i); for (int k=0;k<ND;k++) { S[i].r[k]=rs*R[i][k]; S[i].v[k]=V[i][k]; } }
  if (id == 2) for (int i=0;i<N;i++) for (int k=0;k<ND;k++) { S[i].r[k] = 0.8*i*(k==0) + 0.3*(i==2); S[i].v[k] = V[i][k]*(k!=0); }     // nearly collinear
  if (id == 3) { for (int k=0;k<ND;k++) { S[1].r[k] = S[0].r[k] + 0.12*(k==0) - 0.05*(k==1); } S[N-1].m = 1e-3; }                    // tight pair + light star
  return S;
}
typedef sim::Sim<ND> RealSim;
sim::Opts base(int integ, int soft) {
  sim::Opts o; o.S("nbody", INTEG[integ]).I("nbody_softening", soft).S("kernel", "m4"); return o;
}
void put(RealSim& R, Sys& S) {
  for (size_t i=0;i<S.size();i++) { sim::Body b; b.m=S[i].m; b.h=S[i].h; for (int k=0;k<ND;k++) { b.r[k]=(double)S[i].r[k]; b.v[k]=(double)S[i].v[k]; } R.setstar(i, b); R.nbody().nbodydata[i] = &R.star(i); }
  R.nbody().Nnbody = S.size(); R.nbody().Nstar = S.size();
}
void zero(NbodyParticle<ND>& s) { for (int k=0;k<ND;k++) s.a[k]=s.adot[k]=s.a2dot[k]=s.a3dot[k]=0; s.gpot=0; }
void forces(RealSim& R, int soft) {
  Nbody<ND>& nb = R.nbody();
  for (int i=0;i<nb.Nnbody;i++) if (nb.nbodydata[i]->flags.check(active)) zero(*nb.nbodydata[i]);
  if (soft) nb.CalculateDirectSmoothedGravForces(nb.Nnbody, nb.nbodydata, R.sim->simbox, R.sim->ewald);
  else nb.CalculateDirectGravForces(nb.Nnbody, nb.nbodydata, R.sim->simbox, R.sim->ewald);
}
bool cmp(Ctx& c, const char* key, const char* what, int i, const double* x, const ld* y, double tol, double scale) {
  for (int k=0;k<ND;k++) { double s = std::max(scale, (double) fabsl(y[k])); if (!(fabsl((ld)x[k]-y[k]) <= tol*s)) { c.fail(key, "%s of star %d component %d: got %.17g expected %.17Lg", what, i, k, x[k], y[k]); return false; } }
  return true;
}
ld mag(const ld* x) { return sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); }
}

SCENARIO(forces, 2, "direct sums of all integrators: every system, every active subset") {
  int integ = c.choose(5,"integrator"), soft = c.choose(2,"softened"), N = 2 + c.choose(c.thorough ? 4 : 3, "stars"), id = c.choose(N > 2 ? 4 : 2, "system"); double hs = c.pick(std::vector<double>{0.02, 0.4, 1.5});
  int mask = c.choose(1<<N, "active set");
  RealSim R("nbody", base(integ, soft), 0, N); Sys S = make(id, N, hs); put(R, S); Nbody<ND>& nb = R.nbody();
  // inactive stars hold sentinel values
  for (int i=0;i<N;i++) { if (mask>>i&1) R.star(i).flags.set(active); else R.star(i).flags.unset(active); for (int k=0;k<ND;k++) { R.star(i).a[k]=0.3*k-0.1*i; R.star(i).adot[k]=7+k; } R.star(i).gpot = -5; if (mask>>i&1) R.star(i).gpot = 0; }
  for (int i=0;i<N;i++) for (int k=0;k<ND;k++) S[i].a[k] = 0.3*k-0.1*i;
  forces(R, soft); c.step();
  ld mom[3]={0,0,0};
  for (int i=0;i<N;i++) if (mask>>i&1) { force(S, i, ND, soft, S[i].a, S[i].j, S[i].pot); }
  for (int i=0;i<N;i++) {
    StarParticle<ND>& s = R.star(i);
    if (mask>>i&1) {
      double sc = (double) mag(S[i].a), sj = (double) mag(S[i].j) + sc;
      cmp(c, "force", "acceleration", i, s.a, S[i].a, 1e-11, sc); cmp(c, "jerk", "jerk", i, s.adot, S[i].j, 2e-6, sj); c.near("potential", "potential", s.gpot, (double)S[i].pot, 1e-11);
      if (!soft) cmp(c, "jerk", "jerk (point masses)", i, s.adot, S[i].j, 1e-11, sj);
      if (integ == H6TS && !soft) { ld sn[3]; snap(S, i, ND, sn); cmp(c, "snap", "second derivative of the acceleration", i, s.a2dot, sn, 1e-10, (double)mag(sn)); }
      for (int k=0;k<ND;k++) mom[k] += (ld)s.m*s.a[k];
      c.state(Hash().i(integ).i(soft).d(s.a[0]).d(s.adot[1]).d(s.gpot).h);
    } else { bool same = s.gpot == -5; for (int k=0;k<ND;k++) same = same && s.a[k] == 0.3*k-0.1*i && s.adot[k] == 7+k; c.check(same, "inactive-changed", "forces of inactive star %d were changed", i); }
  }
  if (mask == (1<<N)-1) { ld s=0; for (int i=0;i<N;i++) s += S[i].m*mag(S[i].a); for (int k=0;k<ND;k++) c.check(fabsl(mom[k]) <= 1e-13L*s, "momentum", "sum of m*a is %Lg (scale %Lg)", mom[k], s); c.interesting(); }
}

SCENARIO(startup, 2, "initial derivatives against the Taylor series of the N-body problem") {
  int integ = c.choose(5), N = 2 + c.choose(4), id = c.choose(N > 2 ? 4 : 2);
  if (integ == KDK || integ == DKD) c.prune();
  RealSim R("nbody", base(integ, 0), 0, N); Sys S = make(id, N, 0.1); put(R, S); Nbody<ND>& nb = R.nbody();
  for (int i=0;i<N;i++) R.star(i).flags.set(active);
  forces(R, 0); nb.CalculateAllStartupQuantities(nb.Nnbody, nb.nbodydata, R.sim->simbox, R.sim->ewald); c.step(2);
  taylor(S, ND); c.interesting();
  for (int i=0;i<N;i++) { cmp(c, "startup-a", "acceleration", i, R.star(i).a, S[i].a, 1e-11, (double)mag(S[i].a)); cmp(c, "startup-j", "jerk", i, R.star(i).adot, S[i].j, 1e-10, (double)mag(S[i].j)); cmp(c, "startup-s", "second derivative", i, R.star(i).a2dot, S[i].s, 1e-9, (double)mag(S[i].s)); cmp(c, "startup-c", "third derivative", i, R.star(i).a3dot, S[i].c, 1e-8, (double)mag(S[i].c)); c.state(Hash().d(R.star(i).a3dot[0]).i(integ).h); }
}

// ---- the published schemes, independent implementation ---------------------------------------------------------------
namespace {
struct Scheme {
  int id, soft, npec; Sys S; std::vector<std::array<ld,3>> ext;
  ld g[3] = {0,0,0};                                        // uniform external acceleration
  void predict(ld t, const std::vector<int>& ends) {
    for (size_t i=0;i<S.size();i++) { Star& s = S[i]; ld d = t - s.tlast;
      for (int k=0;k<ND;k++) switch (id) {
        case KDK: s.r[k] = s.r0[k] + s.v0[k]*d + s.a0[k]*d*d/2; s.v[k] = s.v0[k] + s.a0[k]*d; break;
        case DKD: s.v[k] = s.v0[k] + s.a[k]*d; s.r[k] = ends[i] ? s.r0[k] + (s.v0[k]+s.v[k])/2*d : s.r0[k] + s.v0[k]*d; break;
        case H4: case H4TS: s.r[k] = s.r0[k] + s.v0[k]*d + s.a0[k]*d*d/2 + s.j0[k]*d*d*d/6; s.v[k] = s.v0[k] + s.a0[k]*d + s.j0[k]*d*d/2; break;
        case H6TS: s.r[k] = s.r0[k] + s.v0[k]*d + s.a0[k]*d*d/2 + s.j0[k]*d*d*d/6 + s.s0[k]*d*d*d*d/24; s.v[k] = s.v0[k] + s.a0[k]*d + s.j0[k]*d*d/2 + s.s0[k]*d*d*d/6; break;
      } }
  }
  void eval(const std::vector<int>& act) {
    for (size_t i=0;i<S.size();i++) if (act[i]) { force(S, i, ND, soft, S[i].a, S[i].j, S[i].pot); for (int k=0;k<ND;k++) S[i].a[k] += g[k]; }
    if (id == H6TS) for (size_t i=0;i<S.size();i++) if (act[i]) { if (soft) for (int k=0;k<ND;k++) S[i].s[k]=0; else snap(S, i, ND, S[i].s); }
  }
  void correct(ld t, const std::vector<int>& ends) {
    for (size_t i=0;i<S.size();i++) if (ends[i]) { Star& s = S[i]; ld d = t - s.tlast;
      for (int k=0;k<ND;k++) {
        if (id == KDK) s.v[k] = s.v0[k] + (s.a0[k]+s.a[k])*d/2;
        if (id == H4) { ld A = (-6*(s.a0[k]-s.a[k]) - d*(4*s.j0[k]+2*s.j[k]))/(d*d), B = (12*(s.a0[k]-s.a[k]) + 6*d*(s.j0[k]+s.j[k]))/(d*d*d); s.r[k] += A*d*d*d*d/24 + B*d*d*d*d*d/120; s.v[k] += A*d*d*d/6 + B*d*d*d*d/24; }
        if (id == H4TS) { s.v[k] = s.v0[k] + (s.a0[k]+s.a[k])*d/2 - (s.j[k]-s.j0[k])*d*d/12; s.r[k] = s.r0[k] + (s.v0[k]+s.v[k])*d/2 - (s.a[k]-s.a0[k])*d*d/12; }
        if (id == H6TS) { s.v[k] = s.v0[k] + (s.a0[k]+s.a[k])*d/2 - (s.j[k]-s.j0[k])*d*d/10 + (s.s[k]+s.s0[k])*d*d*d/120; s.r[k] = s.r0[k] + (s.v0[k]+s.v[k])*d/2 - (s.a[k]-s.a0[k])*d*d/10 + (s.j[k]+s.j0[k])*d*d*d/120; }
      } }
  }
  void end(ld t, const std::vector<int>& ends) { for (size_t i=0;i<S.size();i++) if (ends[i]) { Star& s = S[i]; s.tlast = t; for (int k=0;k<ND;k++) { s.r0[k]=s.r[k]; s.v0[k]=s.v[k]; s.a0[k]=s.a[k]; s.j0[k]=s.j[k]; s.s0[k]=s.s[k]; } } }
  std::vector<double> sc;      // size of the largest term of each star's update: rounding (some factors are single precision) is relative to it
  void step(ld t, const std::vector<int>& act, const std::vector<int>& ends) {
    predict(t, ends); sc.assign(S.size(), 1.0);
    for (int it=0; it<npec; it++) { eval(act); if (id != DKD) correct(t, ends);
      if (id >= H4) for (size_t i=0;i<S.size();i++) { Star& s = S[i]; ld d = t - s.tlast; auto m = [](const ld* x) { return fabsl(x[0])+fabsl(x[1])+fabsl(x[2]); }; ld w = m(s.v) + (m(s.a0)+m(s.a))*d + (m(s.j0)+m(s.j))*d*d + (id == H6TS ? (m(s.s0)+m(s.s))*d*d*d : 0); sc[i] = std::max(sc[i], (double) w); } }
    end(t, ends);
  }
};
void compare(Ctx& c, RealSim& R, Scheme& Q, const char* when, double tol) {
  for (size_t i=0;i<Q.S.size();i++) {
    StarParticle<ND>& s = R.star(i); char key[64];
    snprintf(key, 64, "%s-position", when); if (!cmp(c, key, "position", i, s.r, Q.S[i].r, tol, Q.sc[i])) return;
    snprintf(key, 64, "%s-velocity", when); if (!cmp(c, key, "velocity", i, s.v, Q.S[i].v, tol, Q.sc[i])) return;
    snprintf(key, 64, "%s-start-position", when); if (!cmp(c, key, "stored start position", i, s.r0, Q.S[i].r0, tol, Q.sc[i])) return;
    snprintf(key, 64, "%s-start-velocity", when); if (!cmp(c, key, "stored start velocity", i, s.v0, Q.S[i].v0, tol, Q.sc[i])) return;
    snprintf(key, 64, "%s-start-acceleration", when); if (!cmp(c, key, "stored start acceleration", i, s.a0, Q.S[i].a0, 100*tol, std::max((double)1, (double)mag(Q.S[i].a0)))) return;
    c.state(Hash().i(Q.id).d(s.r[0]).d(s.v[1]).h);
  }
  // rounding differences must not grow along the run: continue from the state just found to agree
  for (size_t i=0;i<Q.S.size();i++) { StarParticle<ND>& s = R.star(i); Star& q = Q.S[i];
    for (int k=0;k<ND;k++) { q.r[k]=s.r[k]; q.v[k]=s.v[k]; q.a[k]=s.a[k]; q.r0[k]=s.r0[k]; q.v0[k]=s.v0[k]; q.a0[k]=s.a0[k]; if (Q.id >= H4) { q.j[k]=s.adot[k]; q.j0[k]=s.adot0[k]; } if (Q.id == H6TS) { q.s[k]=s.a2dot[k]; q.s0[k]=s.a2dot0[k]; } } }
}
// puts real and reference in the same initial state, evaluated at t=0
void start(RealSim& R, Scheme& Q, int soft) {
  Nbody<ND>& nb = R.nbody(); int N = Q.S.size(); put(R, Q.S);
  for (int i=0;i<N;i++) R.star(i).flags.set(active);
  forces(R, soft); nb.CalculateAllStartupQuantities(nb.Nnbody, nb.nbodydata, R.sim->simbox, R.sim->ewald);
  for (int i=0;i<N;i++) { R.star(i).flags.set(end_timestep); R.star(i).level = 0; }
  nb.EndTimestep(0, N, 0, 0, nb.nbodydata);
  Sys T = Q.S; taylor(T, ND);
  for (int i=0;i<N;i++) { force(Q.S, i, ND, soft, Q.S[i].a, Q.S[i].j, Q.S[i].pot); for (int k=0;k<ND;k++) Q.S[i].s[k] = soft ? (ld)R.star(i).a2dot[k] : T[i].s[k]; }
  std::vector<int> all(N, 1); Q.end(0, all);
}
// one integer step of the real integrator; nst: step lengths of each star
void realstep(RealSim& R, int id, int soft, int npec, int n, double t, double dt, std::vector<int>& ends) {
  Nbody<ND>& nb = R.nbody(); int N = nb.Nnbody;
  nb.AdvanceParticles(n, N, t, dt, nb.nbodydata);
  for (int it=0; it<npec; it++) { forces(R, soft); nb.CorrectionTerms(n, N, t, dt, nb.nbodydata); }
  for (int i=0;i<N;i++) if (ends[i]) R.star(i).flags.set(end_timestep);
  nb.EndTimestep(n, N, t, dt, nb.nbodydata);
}
}

SCENARIO(schedule, 3, "every admissible block-step schedule through the integrator, compared with the published scheme after every operation") {
  int id = c.choose(5,"integrator"), soft = c.choose(2,"softened"), N = 2 + c.choose(2,"stars"), sysid = c.choose(N == 2 ? 2 : (c.thorough ? 4 : 3), "system"), npec = (id >= H4TS) ? 1 + c.choose(c.thorough ? 3 : 2, "Npec") : 1;
  if (N == 3 && !c.thorough && sysid == 1) c.prune();
  int nmax = c.thorough ? 8 : (N == 2 ? 8 : 4); double dt = 0.023;
  sim::Opts o = base(id, soft); o.I("Npec", npec);
  RealSim R("nbody", o, 0, N); Nbody<ND>& nb = R.nbody();
  Scheme Q; Q.id = id; Q.soft = soft; Q.npec = npec; Q.S = make(sysid, N, 0.35);
  start(R, Q, soft);
  std::vector<int> nst(N), last(N, 0); int u = id == DKD ? 2 : 1;       // smallest step in integer units
  auto choose_step = [&](int i, int n) {
    std::vector<int> ok; for (int L=u; L<=4*u && L<=nmax; L*=2) if (n % L == 0 && n + L <= nmax) ok.push_back(L);
    nst[i] = c.pick(ok, "step length"); last[i] = n; R.star(i).nstep = nst[i]; R.star(i).nlast = n;
  };
  for (int i=0;i<N;i++) choose_step(i, 0);
  double t = 0; bool mixed = false;
  for (int n=1; n<=nmax; n++) {
    t += dt; std::vector<int> act(N), ends(N);
    for (int i=0;i<N;i++) { ends[i] = (n - last[i] == nst[i]); act[i] = id == DKD ? (n - last[i] == nst[i]/2) : ends[i]; if (nst[i] != nst[0]) mixed = true; }
    realstep(R, id, soft, npec, n, t, dt, ends); c.step();
    Q.step(t, act, ends);
    compare(c, R, Q, "schedule", id >= H4 ? (soft ? 1e-7 : 1e-8) : 1e-10); if (c.failed) return;
    for (int i=0;i<N;i++) if (ends[i] && n < nmax) choose_step(i, n);
  }
  if (mixed) c.interesting();
  c.describe("integrator " + std::string(INTEG[id]) + " N=" + std::to_string(N));
}

SCENARIO(mainloop, 3, "NbodySimulation::MainLoop against the scheme replayed on the observed step schedule") {
  int id = c.choose(5,"integrator"), soft = c.choose(2,"softened"), lev = c.choose(4,"levels"), N = 2 + c.choose(2), sysid = c.choose(N == 2 ? 2 : 4), npec = id >= H4TS ? 1 + c.choose(3) : 1; double mult = c.pick(std::vector<double>{0.05, 0.1, 0.2});
  sim::Opts o = base(id, soft); o.I("Npec", npec).I("Nlevels", 1 + lev).F("nbody_mult", mult);
  RealSim R("nbody", o, 0, N); Scheme Q; Q.id = id; Q.soft = soft; Q.npec = npec; Q.S = make(sysid, N, 0.2);
  if (sysid == 0 && N == 3) { Q.S[2].r[0] = 6; Q.S[2].r[1] = 2; }      // well separated: different levels
  put(R, Q.S); R.setup();
  Sys T = Q.S; taylor(T, ND); std::vector<int> all(N, 1);
  for (int i=0;i<N;i++) { force(Q.S, i, ND, soft, Q.S[i].a, Q.S[i].j, Q.S[i].pot); for (int k=0;k<ND;k++) Q.S[i].s[k] = soft ? (ld)R.star(i).a2dot0[k] : T[i].s[k]; }
  Q.end(0, all);
  int steps = c.thorough ? 40 : 16; double tol = id >= H4 ? (soft ? 1e-6 : 1e-8) : 1e-10; bool mixed = false;
  for (int s=0; s<steps; s++) {
    std::vector<int> act(N), ends(N);
    for (int i=0;i<N;i++) { StarParticle<ND>& p = R.star(i); int dn = R.sim->n + 1 - p.nlast; ends[i] = dn == p.nstep; act[i] = id == DKD ? dn == p.nstep/2 : ends[i]; c.check(dn >= 1 && dn <= p.nstep, "schedule", "star %d is beyond the end of its step (dn=%d nstep=%d)", i, dn, p.nstep); if (p.nstep != R.star(0).nstep) mixed = true; }
    R.step(); c.step(); double t = R.sim->t;
    Q.step(t, act, ends); for (auto& x : Q.S) x.pot = 0;
    for (int i=0;i<N;i++) c.check((R.star(i).tlast == t) == (ends[i] != 0), "step-end", "star %d: step %s at t=%g but its start time is %g", i, ends[i] ? "ended" : "did not end", t, R.star(i).tlast);
    { ld big = 0; for (auto& x : Q.S) for (int k=0;k<ND;k++) big = std::max(big, std::max(fabsl(x.r[k]), fabsl(x.v[k]))); if (!(big < 1e3L)) break; }   // the step is far too long for this encounter
    compare(c, R, Q, "mainloop", tol); if (c.failed) return;
  }
  if (mixed) c.interesting();
}

SCENARIO(order, 2, "error against a converged reference falls with the design order") {
  int id = c.choose(5,"integrator"), soft = c.choose(2,"softened"), N = 2 + c.choose(2), sysid = N == 2 ? 0 : c.pick(std::vector<int>{0, 2});
  double T = 0.5; double err[3]; int base_n = ORDER[id] == 2 ? 32 : (ORDER[id] == 4 ? 20 : 10); int npec = id >= H4TS ? 5 : 1;
  Sys S0 = make(sysid, N, 0.02), Rf = S0; rk4(Rf, ND, soft, T, 1500); c.interesting();
  for (int l=0;l<3;l++) {
    int n = base_n << l; double dt = T/n; sim::Opts o = base(id, soft); o.I("Npec", npec); RealSim R("nbody", o, 0, N); Scheme Q; Q.id=id; Q.soft=soft; Q.npec=npec; Q.S=S0; start(R, Q, soft);
    int u = id == DKD ? 2 : 1; std::vector<int> no(N, 0), yes(N, 1); double h = dt/u;
    for (int s=1;s<=n*u;s++) { if ((s-1)%u == 0) for (int i=0;i<N;i++) { R.star(i).nlast = s-1; R.star(i).nstep = u; } double t = (s == n*u) ? T : h*s; realstep(R, id, soft, npec, s, t, h, s%u == 0 ? yes : no); c.step(); }
    ld e = 0; for (int i=0;i<N;i++) for (int k=0;k<ND;k++) e = std::max(e, std::max(fabsl(R.star(i).r[k]-Rf[i].r[k]), fabsl(R.star(i).v[k]-Rf[i].v[k]))); err[l] = (double) e;
  }
  double p1 = log2(err[0]/err[1]), p2 = log2(err[1]/err[2]);
  char b[200]; snprintf(b, 200, "%s soft=%d N=%d errors %.3g %.3g %.3g orders %.2f %.2f", INTEG[id], soft, N, err[0], err[1], err[2], p1, p2); c.describe(b); c.state(Hash().i(id).i(soft).d(p1).h);
  bool floor2 = err[2] < 2e-11, floor1 = err[1] < 2e-11;
  char key[64]; snprintf(key, 64, "order-%s-%s", INTEG[id], soft ? "softened" : "newton");
  c.check((p1 > ORDER[id]-0.5 || floor1) && (p2 > ORDER[id]-0.5 || floor2), key, "%s", b);
}

SCENARIO(reversible, 2, "symmetric schemes retrace their path; common steps conserve momentum") {
  int id = c.choose(5,"integrator"), soft = c.choose(2), N = 2 + c.choose(3), sysid = c.choose(N == 2 ? 2 : 3); double dt = c.pick(std::vector<double>{0.004, 0.012}); int n = c.thorough ? 20 : 16;
  bool rev = id != H4; int npec = id >= H4TS ? 20 : 1;
  sim::Opts o = base(id, soft); o.I("Npec", npec); RealSim R("nbody", o, 0, N); Scheme Q; Q.id=id; Q.soft=soft; Q.npec=npec; Q.S=make(sysid, N, 0.3); Sys S0 = Q.S; start(R, Q, soft);
  ld P0[3] = {0,0,0}, sc = 0; for (auto& s : Q.S) for (int k=0;k<ND;k++) { P0[k] += s.m*s.v[k]; sc += s.m*fabsl(s.v[k]); }
  int u = id == DKD ? 2 : 1; std::vector<int> no(N, 0), yes(N, 1); int s = 0; double t = 0;
  for (int pass=0; pass<2; pass++) {
    for (int q=0;q<n*u;q++) { s++; if ((s-1)%u == 0) for (int i=0;i<N;i++) { R.star(i).nlast = s-1; R.star(i).nstep = u; } t += dt/u; realstep(R, id, soft, npec, s, t, dt/u, s%u == 0 ? yes : no); c.step(); }
    ld P[3] = {0,0,0}; for (int i=0;i<N;i++) for (int k=0;k<ND;k++) P[k] += (ld)R.star(i).m*R.star(i).v[k];
    for (int k=0;k<ND;k++) c.check(fabsl(P[k]-(pass ? -P0[k] : P0[k])) <= 1e-11L*sc, "momentum", "total momentum component %d changed from %Lg to %Lg (%s)", k, P0[k], P[k], INTEG[id]);
    if (pass == 0) for (int i=0;i<N;i++) for (int k=0;k<ND;k++) { StarParticle<ND>& p = R.star(i); p.v[k] = -p.v[k]; p.v0[k] = -p.v0[k]; p.adot[k] = -p.adot[k]; p.adot0[k] = -p.adot0[k]; }
  }
  if (rev) { c.interesting(); ld e = 0; for (int i=0;i<N;i++) for (int k=0;k<ND;k++) { e = std::max(e, fabsl(R.star(i).r[k]-S0[i].r[k])); e = std::max(e, fabsl(R.star(i).v[k]+S0[i].v[k])); }
    c.check(e < (id == H6TS ? (soft ? 1e-4L : 1e-6L) : 1e-6L), "reversible", "%s does not retrace its path: error %Lg", INTEG[id], e); c.state(Hash().i(id).i(soft).i(N).i(sysid).d(dt).h); }
}

SCENARIO(uniform, 2, "free and uniformly accelerated motion is exact through the main loop for every level structure") {
  int id = c.choose(5), lev = c.choose(4), pot = c.choose(2,"external field"), N = 1 + c.choose(2);
  if (N == 1 && lev) c.prune();
  sim::Opts o = base(id, 0); o.I("Nlevels", 1+lev).S("external_potential", pot ? "vertical" : "none").F("avert", -0.7).I("kgrav", 2).F("nbody_mult", 0.3).I("Npec", 2);
  RealSim R("nbody", o, 0, N); Sys S = make(0, N, 0.2); for (auto& s : S) s.m = 1e-200; if (N > 1) { S[1].h = 0.05; S[1].r[0] = 50; } put(R, S);
  if (!pot && (id >= H4)) { /* no force at all: the integrator has no time scale of its own */ for (int i=0;i<N;i++) R.star(i).dt_internal = i ? 0.013 : 0.05; }
  for (int i=0;i<N;i++) R.star(i).dt_internal = i ? 0.013 : 0.05;
  R.setup(); int ax = -1; for (int s=0;s<12;s++) { R.step(); c.step(); double t = R.sim->t;
    for (int i=0;i<N;i++) { StarParticle<ND>& p = R.star(i); bool ended = p.tlast == t;
      for (int k=0;k<ND;k++) { ld g = (pot && k == 2) ? -0.7L : 0; if (pot && ND == 3 && k == 2) ax = 2; 
        c.near("uniform-velocity", "velocity", p.v[k], (double)(S[i].v[k] + g*t), 1e-12, 1.0);
        if (ended || id != DKD) c.near("uniform-position", "position", p.r[k], (double)(S[i].r[k] + S[i].v[k]*t + g*t*t/2), 1e-12, 1.0); } }
    if (c.failed) return; }
  (void) ax; c.interesting(); c.state(Hash().i(id).i(lev).i(pot).d(R.sim->t).h);
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
