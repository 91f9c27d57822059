// C20 - dust: every drag calculation of the real main loops is intercepted, and its effect compared with an exact solution and with the
// conservation laws, for every arrangement, law, coefficient, mass ratio, integrator and boundary of the menus; whole runs of a settling
// test particle and of a coupled mixture are compared with their analytic solution and their conserved totals.
#include "sim.hpp"
#include "Dust.h"
using namespace mc;
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
template<class O, class M, class F> void hook(O* obj, M method, F* repl, void** old) {
  long off; memcpy(&off, &method, sizeof off); off -= 1; void**& vt = *(void***) obj; *old = vt[off/sizeof(void*)]; static std::vector<void**> keep;
  void** nt = new void*[34]; keep.push_back(nt); for (int i=-2;i<8;i++) nt[i+2] = vt[i]; nt[2+off/sizeof(void*)] = repl ? (void*) repl : *old; vt = nt+2;
}
static const char* LAW[] = {"fixed", "density", "epstein", "LP2012"};
static const char* TY[] = {"sph", "sph", "mfvmuscl"};
static const double HF = 1.1;
struct Rec { int ptype; bool act; double r[3], v[3], a[3], v0[3], a0[3], r0[3], m, h, rho, u, sound, div_v, dudt, dt, dtn, hd, Q0, dQ[5], dQdt[5]; };
struct Cfg { int nd, ty, law, eos, kern, bound, dim; bool full; double K; int levels; };
static double stop(const Cfg& g, double rg, double rd, double cs) { switch (g.law) { case 0: return 1/g.K; case 1: return 1/((rg+rd)*g.K); case 2: return 0.75*sqrt(M_PI/8)/((rg+rd)*cs*g.K); default: return rg*rd/((rg+rd)*g.K); } }
// change of a relative velocity dv, of rate da without drag, caused by drag during dt (exact solution)
static double impulse(double dv, double da, double dt, double ts) { if (std::isinf(ts)) return 0; double x = dt/ts, e = -expm1(-x), g = x < 1e-2 ? dt*(-x/2+x*x/6-x*x*x/24+x*x*x*x/120) : ts*e-dt; return -dv*e + da*g; }
template<int nd> struct Run;
template<int nd> struct Cap { static Run<nd>* R; static void* old; static void call(DustBase<nd>* d, Hydrodynamics<nd>* h); };
template<int nd> Run<nd>* Cap<nd>::R = nullptr; template<int nd> void* Cap<nd>::old = nullptr;
template<int nd> struct Run {
  Ctx& c; Cfg g; sim::Sim<nd> X; Simulation<nd>* s; int N; double L[3]; int calls = 0; bool cold = false, moved = false; std::vector<Rec> B, A, first; std::vector<double> lastheat; std::vector<std::array<double,3>> lastdrag; double heat = 0, lost = 0, lastscale = 0;
  bool mfv() const { return g.ty == 2; }
  static sim::Opts opts(const Cfg& g, const double* L, sim::Opts o) {
    o.S("dust_forces", g.full ? "full_twofluid" : "test_particle").S("drag_law", LAW[g.law]).F("drag_coeff", g.K).S("neib_search", "kdtree").I("Nleafmax", 4).S("gas_eos", g.eos ? "energy_eqn" : "isothermal").F("temp0", 1).F("mu_bar", 1).I("Nlevels", g.levels).S("sph_integration", g.ty == 1 ? "lfdkd" : "lfkdk");
    o.S("kernel", g.kern == 1 ? "quintic" : g.kern == 2 ? "gaussian" : "m4").I("tabulated_kernel", g.kern == 3).F("h_fac", HF).F("h_converge", g.kern == 3 ? 1e-3 : 1e-9); if (g.ty == 2) o.I("zero_mass_flux", 1);
    for (int k=0;k<nd;k++) { const char* b = g.bound == 0 ? "periodic" : g.bound == 1 ? "open" : k == 0 ? "mirror" : "periodic"; o.box(k, g.bound == 1 ? -50.0 : 0.0, g.bound == 1 ? 50.0 : L[k], b, b); }
    return o; }
  Run(Ctx& c, const Cfg& g, const double* l, const std::vector<sim::Body>& b, sim::Opts o = {}) : c(c), g(g), X(TY[g.ty], opts(g, l, o), b.size(), 0), N(b.size()) {
    s = X.sim; for (int k=0;k<nd;k++) L[k] = l[k]; for (int i=0;i<N;i++) { X.set(i, b[i]); X.part(i).h_dust = 0; } }
  DustBase<nd>* dust() { return mfv() ? static_cast<MeshlessFVSimulation<nd>*>(s)->mfvdust : static_cast<SphSimulation<nd>*>(s)->sphdust; }
  void watch() { Cap<nd>::R = this; hook(dust(), &DustBase<nd>::UpdateAllDragForces, &Cap<nd>::call, &Cap<nd>::old); }
  void take(std::vector<Rec>& V) { V.resize(N); for (int i=0;i<N;i++) { Rec x; memset(&x, 0, sizeof x); Particle<nd>& p = X.part(i); x.ptype = p.ptype; x.act = p.flags.check(active); for (int k=0;k<nd;k++) { x.r[k] = p.r[k]; x.v[k] = p.v[k]; x.a[k] = p.a[k]; x.v0[k] = p.v0[k]; x.a0[k] = p.a0[k]; x.r0[k] = p.r0[k]; }
      x.m = p.m; x.h = p.h; x.rho = p.rho; x.u = p.u; x.sound = p.sound; x.dudt = p.dudt; x.dt = p.dt; x.dtn = p.dt_next; x.hd = p.h_dust;
      if (mfv()) { auto& q = static_cast<MeshlessFVParticle<nd>&>(p); x.div_v = q.div_v; x.Q0 = q.Qcons0[MeshlessFV<nd>::irho]; for (int v=0;v<nd+2;v++) { x.dQ[v] = q.dQ[v]; x.dQdt[v] = q.dQdt[v]; } } else x.div_v = static_cast<SphParticle<nd>&>(p).div_v;
      V[i] = x; } }
  double step_of(const Rec& x) { return mfv() || g.ty == 1 ? x.dt : 0.5*(x.dt+x.dtn); }
  double vs(const Rec& x, int k) { return vs(x, k, x.dt); }
  double vs(const Rec& x, int k, double dt) { return mfv() ? x.v0[k] : x.v[k]-0.5*dt*x.a0[k]; }   // at the start of a kick of length dt
  double acc(const Rec& x, int k) { if (!mfv()) return x.a[k]; double a = 0.5*(x.a[k]+x.a0[k]*x.Q0/x.m); if (x.dt > 0) a += x.dQ[k]/(x.m*x.dt); return a; }
  std::string where(const char* w) { char b[300]; snprintf(b, sizeof b, "%dD %s%s %s %s K=%g %s %s kernel %d, drag calculation %d: %s", nd, TY[g.ty], g.ty == 1 ? " lfdkd" : "", g.full ? "two-fluid" : "test particle", LAW[g.law], g.K, g.eos ? "adiabatic" : "isothermal", g.bound == 0 ? "periodic" : g.bound == 1 ? "open" : "mirror", g.kern, calls, w); return b; }
  void settled();
  // all images of j seen from i: f(separation vector, sign per dimension)
  template<class F> void images(const Rec& i, const Rec& j, double reach, F f) { int n[3] = {1,1,1}; for (int k=0;k<nd;k++) n[k] = g.bound == 1 ? 1 : 3; double d[3], sg[3];
    for (int a=0;a<n[0];a++) { d[0] = im(i, j, 0, a, sg); if (fabs(d[0]) > reach) continue; if (nd == 1) { f(d, sg); continue; } for (int b=0;b<n[1];b++) { d[1] = im(i, j, 1, b, sg); if (fabs(d[1]) > reach) continue; if (nd == 2) { f(d, sg); continue; } for (int e=0;e<n[2];e++) { d[2] = im(i, j, 2, e, sg); if (fabs(d[2]) <= reach) f(d, sg); } } } }
  double im(const Rec& i, const Rec& j, int k, int a, double* sg) { bool mir = g.bound == 2 && k == 0; sg[k] = mir && a ? -1 : 1; double x = a == 0 ? j.r[k] : mir ? (a == 1 ? -j.r[k] : 2*L[k]-j.r[k]) : j.r[k]+(a == 1 ? L[k] : -L[k]); return i.r[k]-x; }
  void judge() {
    SmoothingKernel<nd>& K = *X.hydro().kernp; double kr = K.kernrange; double hf = HF; std::vector<std::array<double,3>> da(N); std::vector<double> dud(N, 0), drag_h(N, 0); bool drop = false;
    for (auto& x : da) x = {{0,0,0}}; double scale = 0, vscale = 0.3, hc = g.kern == 3 ? 1e-3 : 1e-9; for (auto& x : B) for (int k=0;k<nd;k++) { vscale = std::max(vscale, fabs(x.v[k])+fabs(x.dt*acc(x, k))); }
    double quiet = 0; for (auto& x : B) for (int k=0;k<nd;k++) quiet = std::max(quiet, fabs(acc(x, k))*std::max(x.dt, x.dtn)); std::vector<double> weight(N, 0);
    // dust has its own density and feels nothing but gravity and drag
    for (int i=0;i<N;i++) { const Rec& x = B[i]; if (x.ptype != dust_type || !x.act) continue;
      double n = 0; for (int j=0;j<N;j++) if (B[j].ptype == dust_type) images(x, B[j], kr*x.h, [&](double* d, double*) { double w = K.w0_s2(DotProduct(d, d, nd)/(x.h*x.h)); n += mfv() ? w : B[j].m/x.m*w; });
      n *= pow(x.h, -nd); { c.near("rho", where("density of dust from dust").c_str(), x.rho, x.m*n, g.kern == 3 ? 1e-2 : 1e-8); c.check(fabs(x.h-hf*pow(n, -1.0/nd)) <= 2*hc, "h", "%s", where("smoothing length of dust is not that of its own neighbours").c_str()); }
      for (int k=0;k<nd;k++) c.check(x.a[k] == 0 && (!mfv() || x.dQ[k] == 0), "pressure", "%s: dust %d has acceleration %g before drag", where("").c_str(), i, mfv() ? x.dQ[k] : x.a[k]); if (c.failed) return; }
    if (!g.full) {
      for (int i=0;i<N;i++) { const Rec& x = B[i]; const Rec& y = A[i];
        if (x.ptype != dust_type || !x.act) { if (memcmp(&x, &y, sizeof x)) { c.fail("untouched", "%s: %s %d was changed", where("").c_str(), x.ptype == gas_type ? "gas particle" : "inactive dust", i); return; } continue; }
        double h = y.hd, n = 0, rho = 0, cs = 0, dv[3] = {0,0,0}, dac[3] = {0,0,0}; c.check(h > 0 && std::isfinite(h), "finite", "%s: h_dust=%g", where("").c_str(), h);
        for (int j=0;j<N;j++) if (B[j].ptype == gas_type) images(x, B[j], kr*h, [&](double* d, double* sg) { double w = K.w0_s2((DotProduct(d, d, nd)+1e-20)/(h*h)); n += w; rho += B[j].m*w; cs += B[j].m*w*B[j].sound; for (int k=0;k<nd;k++) { dv[k] += B[j].m*w*(vs(x,k)-sg[k]*vs(B[j],k,x.dt)); dac[k] += B[j].m*w*(acc(x,k)-sg[k]*acc(B[j],k)); } });
        cs /= rho; for (int k=0;k<nd;k++) { dv[k] /= rho; dac[k] /= rho; } n *= pow(h, -nd); rho *= pow(h, -nd); double dt = step_of(x), ts = stop(g, rho, 0, cs), dvm = 0;
        c.check(fabs(h-hf*pow(n, -1.0/nd)) < 2*hc, "h_dust", "%s: h_dust=%.10g, the gas around it gives %.10g", where("").c_str(), h, hf*pow(n, -1.0/nd));
        for (int k=0;k<nd;k++) { double want = impulse(dv[k], dac[k], dt, ts), sc = fabs(dv[k])+fabs(dac[k]*dt)+1e-6*vscale, got = mfv() ? (y.dQ[k]-x.dQ[k])/x.m : (y.a[k]-x.a[k])*dt; dvm += dv[k]*dv[k];
          if (!mfv() && dt == 0) { want = std::isinf(ts) ? 0 : -dv[k]/ts; got = y.a[k]-x.a[k]; sc = fabs(dv[k])/ts+1e-6*vscale/ts; }
          c.check(std::isfinite(got), "finite", "%s: drag on dust %d is %g", where("").c_str(), i, got); c.near("drag", (where("velocity change of dust by drag")).c_str(), got, want, 1e-8, sc+1e-300);
          if (dt > 0 && dac[k] == 0) { double e = 1e-9*sc; c.check((dv[k]+got)*(dv[k] < 0 ? -1 : 1) >= -e && fabs(dv[k]+got) <= fabs(dv[k])+e, "reverse", "%s: relative velocity %g became %g", where("").c_str(), dv[k], dv[k]+got); }
          if (mfv()) { c.near("dQdt", where("momentum rate of dust").c_str(), (y.dQdt[k]-x.dQdt[k])*dt, y.dQ[k]-x.dQ[k], 1e-9, x.m*sc+1e-300); c.near("position", where("position of dust after drag").c_str(), y.r[k], x.r0[k]+0.5*dt*(2*x.v0[k]+y.dQ[k]/x.m+x.a0[k]*dt), 1e-9, 1e-3*L[k]); } }
        c.near("vsig", where("gas sound speed at the dust").c_str(), y.sound, cs*x.h/h, 1e-8); c.near("dvel", where("relative speed at the dust").c_str(), y.div_v, sqrt(dvm)/h, 1e-7, (sqrt(dvm)+1e-6*vscale)/h+1e-300);
        c.check(y.m == x.m && y.u == x.u && y.rho == x.rho && y.h == x.h && y.dudt == x.dudt, "other", "%s: drag changed another quantity of the dust", where("").c_str()); c.interesting(); if (c.failed) return; }
      return; }
    // two fluids: every pair exchanges the exact impulse of its line-of-sight relative velocity
    std::vector<std::vector<std::pair<int,double>>> W(N); std::vector<double> norm(N, 0), dek(N, 0);
    for (int i=0;i<N;i++) { const Rec& x = B[i]; if (x.ptype != dust_type || !x.act) continue;
      for (int j=0;j<N;j++) { const Rec& y = B[j]; if (y.ptype != gas_type) continue; images(x, y, kr*y.h, [&](double* d, double* sg) { double q = sqrt(DotProduct(d, d, nd)), w = pow(y.h, -nd)*K.wdrag(q/y.h); if (w == 0) return; norm[i] += w*y.m/y.rho; double dv = 0, dac = 0, ts = stop(g, y.rho, x.rho, y.sound), dt = step_of(x);
          W[i].push_back({j, w}); if (q == 0) return; for (int k=0;k<nd;k++) { dv += d[k]/q*(vs(x,k)-sg[k]*vs(y,k)); dac += d[k]/q*(acc(x,k)-sg[k]*acc(y,k)); }
          double I = dt > 0 ? impulse(dv, dac, dt, ts)/dt : std::isinf(ts) ? 0 : -dv/ts; double f = nd*w/(x.rho+y.rho)*I; weight[i] += nd*w*y.m/(x.rho+y.rho); weight[j] += nd*w*x.m/(x.rho+y.rho);
          for (int k=0;k<nd;k++) { da[i][k] += f*y.m*d[k]/q; da[j][k] -= sg[k]*f*x.m*d[k]/q; scale = std::max(scale, std::max(fabs(f*y.m), fabs(f*x.m))*(1+1e-3)); } }); } }
    double amax = 0; for (auto& x : B) for (int k=0;k<nd;k++) amax = std::max(amax, fabs(acc(x, k))); double sumE = 0, P[3] = {0,0,0}, PM = 0, gotE = 0, EM = 0, ER = 0;
    for (int i=0;i<N;i++) { const Rec& x = B[i]; double dt = step_of(x); for (int k=0;k<nd;k++) dek[i] += da[i][k]*(vs(x,k)+acc(x,k)*dt+da[i][k]*dt/2); if (x.ptype == gas_type) dud[i] -= dek[i]; else for (auto& z : W[i]) dud[z.first] -= x.m*z.second/(norm[i]*B[z.first].rho)*dek[i]; if (x.ptype != dust_type || norm[i] > 0) sumE += x.m*dek[i]; EM += fabs(x.m*dek[i]); }
    for (int i=0;i<N;i++) { const Rec& x = B[i]; const Rec& y = A[i]; double dt = step_of(x); if (!x.act) { c.check(mfv() || !memcmp(&x, &y, sizeof x), "untouched", "%s: inactive particle %d was changed", where("").c_str(), i); if (c.failed) return; continue; }
      double eg = 0;
      for (int k=0;k<nd;k++) { double got = mfv() ? (dt > 0 ? (y.dQ[k]-x.dQ[k])/(x.m*dt) : (y.dQdt[k]-x.dQdt[k])/x.m) : y.a[k]-x.a[k]; c.check(std::isfinite(got), "finite", "%s: drag on %d is %g", where("").c_str(), i, got); double res = (mfv() ? fabs(x.dQ[k])*1e-15/(x.m*(dt > 0 ? dt : 1)) : fabs(x.a[k])*1e-15)+2e-15*amax+(dt > 0 ? 1e-15*vscale/dt : 0);
        c.near("drag", where(x.ptype == gas_type ? "drag on gas" : "drag on dust").c_str(), got, da[i][k], 1e-8, scale+res*1e8+1e-300); P[k] += x.m*got; PM += fabs(x.m*got)+1e10*fabs(x.m*res);
        eg += got*(vs(x,k)+acc(x,k)*dt+got*dt/2);
        if (mfv()) { c.near("dQdt", where("momentum rate").c_str(), (y.dQdt[k]-x.dQdt[k])*dt, y.dQ[k]-x.dQ[k], 1e-9, x.m*scale*dt+1e-14*fabs(x.dQ[k])*1e9+1e-300);
          c.near("position", where(x.ptype == gas_type ? "position of gas after drag" : "position of dust after drag").c_str(), y.r[k], x.r0[k]+0.5*dt*(2*x.v0[k]+y.dQ[k]/x.m+x.a0[k]*dt), 1e-9, 1e-3*L[k]); } }
      if (x.ptype == gas_type) { double got = mfv() ? dt > 0 ? (y.dQ[nd+1]-x.dQ[nd+1])/(x.m*dt)-eg : (y.dQdt[nd+1]-x.dQdt[nd+1])/x.m-eg : y.dudt-x.dudt, want = dud[i], res = mfv() ? (dt > 0 ? 1e-14*(fabs(x.dQ[nd+1])/(x.m*dt)+fabs(eg)) : 1e-14*fabs(x.dQdt[nd+1])/x.m+1e-14*fabs(eg)) : 1e-15*fabs(x.dudt);
        if (g.eos || !mfv()) c.near("heat", where("heating of the gas by drag").c_str(), got, want, 1e-7, fabs(want)+EM/x.m+res*1e7+1e-8*amax*vscale+1e-300); gotE += x.m*got; ER += x.m*(res+1e-15*amax*vscale); c.check(x.sound == y.sound && x.div_v == y.div_v, "other", "%s: drag changed the sound speed or velocity divergence of the gas", where("").c_str()); }
      c.check(y.m == x.m && y.u == x.u && y.rho == x.rho && y.h == x.h, "other", "%s: drag changed another quantity of particle %d", where("").c_str(), i); c.interesting(); if (c.failed) return; }
    if (g.bound != 2) for (int k=0;k<nd;k++) c.near("momentum", where("total momentum given by drag").c_str(), P[k], 0, 1e-10, PM+1e-300);
    c.near("energy", where("heat produced and kinetic energy lost").c_str(), gotE, -sumE, 1e-7, EM+1e7*ER+1e-300);
    double wmax = 0; for (int i=0;i<N;i++) { double dt = step_of(B[i]), ts = stop(g, B[i].rho, B[i].rho, 1); (void) ts; (void) dt; wmax = std::max(wmax, weight[i]); } if (quiet <= 1e-12*vscale && wmax <= 1) { c.check(-sumE >= -1e-12*EM, "heatsign", "%s: drag cools (%g)", where("").c_str(), -sumE); }
    lastheat = dud; lastdrag = da; lastscale = scale;
  }
};
template<int nd> void Run<nd>::settled() {   // the state the first step starts from holds the drag of its first kick once
  if (mfv()) { for (int i=0;i<N;i++) { auto& q = static_cast<MeshlessFVParticle<nd>&>(X.part(i)); for (int v=0;v<nd+2;v++) c.check(q.dQ[v] == 0, "start", "%s", where("momentum or energy is pending before the first step").c_str()); } return; }
  for (int i=0;i<N;i++) { Particle<nd>& p = X.part(i); const Rec& x = first[i]; if (g.full) { double e = lastscale; for (int k=0;k<nd;k++) c.near("start", where("acceleration at the start").c_str(), p.a[k], x.a[k]+lastdrag[i][k], 1e-7, e+fabs(x.a[k])+1e-5);
      if (p.ptype == gas_type) c.near("start", where("heating rate of the gas at the start").c_str(), p.dudt, x.dudt+lastheat[i], 1e-7, fabs(x.dudt)+fabs(lastheat[i])+1e-7); }
    else if (p.ptype == gas_type) { for (int k=0;k<nd;k++) c.check(p.a[k] == x.a[k], "start", "%s: gas feels test particles", where("").c_str()); c.check(p.dudt == x.dudt, "start", "%s: gas is heated by test particles", where("").c_str()); }
    if (c.failed) return; }
}
template<int nd> void Cap<nd>::call(DustBase<nd>* d, Hydrodynamics<nd>* h) {
  Run<nd>& r = *R; r.take(r.B); if (r.calls == 0) r.first = r.B; ((void(*)(DustBase<nd>*, Hydrodynamics<nd>*)) old)(d, h); r.take(r.A); if (!r.c.failed) r.judge(); r.calls++; r.c.step();
}
// gas on a lattice (perturbed), dust on a shifted one
struct Mix { std::vector<sim::Body> b; double L[3] = {1,1,1}; };
static int NG(int nd, int kern) { return nd == 1 ? (kern ? 20 : 14) : nd == 2 ? (kern ? 14 : 10) : 6; }
template<int nd> Mix mix(int kern, double shift, int pattern, int vel, double ratio, double amp, double u = 1.5) {
  Mix M; int n = NG(nd, kern); int ny = nd > 1 ? n : 1, nz = nd > 2 ? n : 1; for (int ty=0;ty<2;ty++) for (int a=0;a<n;a++) for (int b=0;b<ny;b++) for (int e=0;e<nz;e++) {
    sim::Body y; int id[3] = {a,b,e}; for (int k=0;k<nd;k++) { double x = (id[k]+0.5+(ty ? shift*(k+1)/nd : 0))/n; double w = 2*M_PI; if (pattern == 1) x += 0.02*sin(w*x+0.3*k+ty); if (pattern == 2) x += 0.25/n*sin(12.9898*(a+1)+78.233*(b+1)+37.7*(e+1)+5*k+11*ty); if (pattern == 3 && ty) x = 0.5+(x-0.5)*0.7; x -= floor(x); y.r[k] = x;
      double v = vel == 0 ? (ty ? 1 : 0)*(k == 0 ? 1 : -0.5) : vel == 1 ? (ty ? 1 : -1)*sin(w*x+k) : vel == 2 ? (ty ? 0.5-x : x-0.5) : sin(3.3*a+7.7*b+1.9*e+2*k+5*ty); y.v[k] = amp*v; }
    y.m = (ty ? ratio : 1)/pow(n, nd)*(pattern == 2 ? 1+0.3*sin(a+2*b+3*e) : 1); y.ptype = ty ? dust_type : gas_type; y.u = u; y.h = 1.5/n; M.b.push_back(y); }
  return M; }
template<int nd> void drag(Ctx& c, bool full) {
  Cfg g; g.nd = nd; g.full = full; g.ty = c.choose(3, "sph lfkdk / lfdkd / mfv"); g.law = c.choose(full ? 4 : 3, "law"); g.K = c.pick({3.0, 0.0, 1e-7, 60.0, 1e9}); if (full && g.law == 3 && g.K == 0) c.prune(); g.eos = c.choose(2, "energy equation"); int shape = c.choose(c.thorough ? 8 : 6, "arrangement and velocities");
  double ratio = c.pick({0.5, 0.01, 20.0}); int conf = c.choose(nd == 3 ? (c.thorough ? 4 : 2) : 5, "kernel, boundary, levels");
  if (!c.thorough && conf > 0 && (shape > 2 || ratio != 0.5)) c.prune();
  if (nd == 2 && !c.thorough && ((shape > 3 && ratio != 0.5) || (ratio == 20 && shape > 1) || (g.eos == 0 && g.K == 1e-7))) c.prune();
  if (nd == 3 && !c.thorough && (shape > 3 || (ratio != 0.5 && shape > 0) || (g.eos == 0 && g.K != 3))) c.prune();
  g.kern = conf == 2 ? 1 : conf == 3 ? 3 : conf == 5 ? 2 : 0; g.bound = conf == 1 || (nd == 3 && conf == 2) ? 1 : 0; g.levels = conf == 4 && !full ? 4 : 1; if (conf == 4 && full) c.prune();
  static const double sh[] = {0.25, 0.5, 0.31, 0.0, 0.25, 0.12, 0.4, 0.07}; static const int pa[] = {0, 0, 2, 0, 3, 1, 2, 1}, ve[] = {0, 1, 3, 2, 1, 3, 2, 0}; if (pa[shape] == 3 && g.bound == 0) g.bound = 1;
  Mix M = mix<nd>(g.kern, sh[shape], pa[shape], ve[shape], ratio, 0.3); Quiet q;
  try { Run<nd> R(c, g, M.L, M.b); R.watch(); R.X.setup(); if (!c.failed) R.settled(); int ns = nd == 3 ? 1 : 2; for (int i=0;i<ns && !c.failed;i++) R.X.step(); if (!c.failed) c.check(R.calls >= (g.ty == 2 ? 1 : 2)+1 , "called", "%s", R.where("no drag calculation").c_str()); }
  catch (GandalfError& e) { if (e.msg.find("too large") != std::string::npos) return; c.fail("error", "%s", e.msg.c_str()); }
}
SCENARIO(test1, 3, "1D test particles: every drag calculation of setup and two steps") { drag<1>(c, false); }
SCENARIO(test2, 3, "2D") { drag<2>(c, false); }
SCENARIO(test3, 3, "3D") { drag<3>(c, false); }
SCENARIO(full1, 3, "1D two fluids: every drag calculation of setup and two steps") { drag<1>(c, true); }
SCENARIO(full2, 3, "2D") { drag<2>(c, true); }
SCENARIO(full3, 3, "3D") { drag<3>(c, true); }
// a test particle in uniform gas at rest: its velocity decays exactly, for any stopping time and any schedule of steps
template<int nd> void settle(Ctx& c) {
  Cfg g; memset(&g, 0, sizeof g); g.nd = nd; g.ty = c.choose(3, "sph lfkdk / lfdkd / mfv"); g.law = c.choose(3, "law"); g.K = c.pick({3.0, 0.0, 1e-7, 0.3, 60.0, 1e4, 1e9}); g.eos = c.choose(2, "energy equation"); g.levels = c.pick({1, 3}); double amp = c.pick({0.3, 3.0, 30.0}), ratio = c.pick({0.01, 20.0}), cour = c.pick({1.0, 0.3}); if (nd == 2 && !c.thorough && (ratio == 20 || cour == 1.0) && (g.eos || amp != 0.3)) c.prune(); int ns = c.thorough ? 24 : nd == 3 ? 2 : 8;
  Mix M = mix<nd>(0, 0.25, 0, 0, ratio, amp); if (nd == 1 && amp < 30) for (size_t i=0;i<M.b.size();i++) if (M.b[i].ptype == dust_type) for (int k=0;k<nd;k++) M.b[i].v[k] *= 1+0.001*sin(3.0*i); Quiet q; int n = NG(nd, 0);
  try { Run<nd> R(c, g, M.L, M.b, sim::Opts().F("courant_mult", 0.15*cour).F("accel_mult", 0.3*cour)); R.X.setup(); std::vector<std::array<double,3>> V(R.N); std::vector<double> cs(R.N); double csg = 0, rg = 1; for (int i=0;i<R.N;i++) { for (int k=0;k<nd;k++) V[i][k] = M.b[i].v[k]; if (M.b[i].ptype == gas_type) { csg = R.X.part(i).sound; rg = R.X.part(i).rho; } }
    for (int s=0;s<=ns && !c.failed;s++) { if (s) R.X.step(); double t = R.s->t;
      for (int i=0;i<R.N;i++) { Particle<nd>& p = R.X.part(i); if (p.ptype != dust_type) { for (int k=0;k<nd;k++) c.check(fabs(p.v[k]) < 1e-9, "gas", "%s: gas moves with %g", R.where("").c_str(), p.v[k]); continue; }
        if (p.nlast != R.s->n && s) continue; double ts = stop(g, rg, 0, csg), half = g.ty == 0 ? 0.5*p.dt : 0, tol = g.law ? 3e-2 : 1e-9;
        for (int k=0;k<nd;k++) { double v = p.v0[k]+half*p.a0[k], want = V[i][k]*exp(-(t+half)/ts); c.near("decay", R.where("velocity of dust settling in gas at rest").c_str(), v, want, tol, fabs(V[i][k])*(g.law ? (t+half)/ts*exp(-(t+half)/ts)+1e-6 : 1)); if (c.failed) return; } c.interesting(); }
      c.step(); }
    (void) n; }
  catch (GandalfError& e) { if (nd > 1 && e.msg.find("too large") != std::string::npos) return; c.fail("error", "%s", e.msg.c_str()); }
}
SCENARIO(settle1, 3, "1D test particle in uniform gas: exact decay for every stopping time, integrator, schedule") { settle<1>(c); }
SCENARIO(settle2, 3, "2D") { settle<2>(c); }
// a coupled mixture keeps its momentum, and its energy where the scheme conserves it
template<int nd> void totals(Ctx& c) {
  Cfg g; memset(&g, 0, sizeof g); g.nd = nd; g.full = true; g.ty = c.choose(3, "sph lfkdk / lfdkd / mfv"); g.law = c.choose(4, "law"); g.K = c.pick({3.0, 1e-7, 60.0, 1e9}); g.eos = c.choose(2, "energy equation"); g.levels = 1; int shape = c.choose(4, "arrangement"), amp = c.choose(2, "speed"); double ratio = c.pick({0.5, 0.01, 20.0}); int ns = nd == 1 ? 8 : 2;
  static const double sh[] = {0.25, 0.5, 0.31, 0.4}; static const int pa[] = {0, 0, 2, 1}, ve[] = {0, 1, 3, 2}; Mix M = mix<nd>(0, sh[shape], pa[shape], ve[shape], ratio, amp ? 0.5 : 0.1); Quiet q;
  try { Run<nd> R(c, g, M.L, M.b); double P0[3] = {0,0,0}, PM = 0, E0 = 0; auto sum = [&](double* P, double& E) { E = 0; for (int k=0;k<nd;k++) P[k] = 0; for (int i=0;i<R.N;i++) { Particle<nd>& p = R.X.part(i); double m = p.m, ke = 0; for (int k=0;k<nd;k++) { P[k] += m*p.v[k]; PM += fabs(m*p.v[k])/(ns+1); ke += 0.5*m*p.v[k]*p.v[k]; } E += ke+(p.ptype == gas_type ? m*p.u : 0); } };
    R.X.setup(); sum(P0, E0);
    for (int s=0;s<ns;s++) { R.X.step(); double P[3], E; sum(P, E); for (int k=0;k<nd;k++) c.near("totalmomentum", R.where("total momentum of gas and dust").c_str(), P[k], P0[k], 1e-10, PM); if (g.ty == 2 && g.eos) c.near("totalenergy", R.where("total energy of gas and dust").c_str(), E, E0, 1e-10); c.interesting(); c.step(); if (c.failed) return; } }
  catch (GandalfError& e) { if (nd > 1 && e.msg.find("too large") != std::string::npos) return; c.fail("error", "%s", e.msg.c_str()); }
}
SCENARIO(totals1, 3, "1D two fluids: momentum and energy of whole runs") { totals<1>(c); }
SCENARIO(totals2, 3, "2D") { totals<2>(c); }
// test-particle dust and its absence are the same to the gas
template<int nd> void ghostly(Ctx& c) {
  Cfg g; memset(&g, 0, sizeof g); g.nd = nd; g.ty = c.choose(3, "sph lfkdk / lfdkd / mfv"); g.law = c.choose(2, "law"); g.K = c.pick({3.0, 1e9}); g.eos = c.choose(2, "energy equation"); g.levels = 1; int shape = c.choose(4, "arrangement"); double ratio = c.pick({0.5, 20.0}); g.bound = c.choose(2, "boundary");
  static const double sh[] = {0.25, 0.5, 0.31, 0.0}; static const int pa[] = {0, 0, 2, 1}, ve[] = {0, 1, 3, 2}; Mix M = mix<nd>(0, sh[shape], pa[shape], ve[shape], ratio, 0.3), G; std::vector<int> at; for (size_t i=0;i<M.b.size();i++) if (M.b[i].ptype == gas_type) { at.push_back(i); G.b.push_back(M.b[i]); } Quiet q;
  try { Run<nd> A(c, g, M.L, M.b), B(c, g, M.L, G.b); A.X.setup(); B.X.setup(); for (int s=0;s<3;s++) { if (s) { if (fabs(A.s->timestep-B.s->timestep) > 1e-12*B.s->timestep) break; A.X.step(); B.X.step(); c.interesting(); }
      for (size_t j=0;j<at.size();j++) { Particle<nd>& p = A.X.part(at[j]), &r = B.X.part(j); c.near("gasrho", A.where("gas density with and without dust").c_str(), p.rho, r.rho, 1e-7); c.near("gash", A.where("gas smoothing length with and without dust").c_str(), p.h, r.h, 1e-7); c.near("gasu", A.where("gas energy with and without dust").c_str(), p.u, r.u, 1e-7);
        for (int k=0;k<nd;k++) { c.near("gasr", A.where("gas position with and without dust").c_str(), p.r[k], r.r[k], 1e-8, 1); c.near("gasv", A.where("gas velocity with and without dust").c_str(), p.v[k], r.v[k], 1e-7, 1); c.near("gasa", A.where("gas acceleration with and without dust").c_str(), p.a[k], r.a[k], 1e-6, 10); } if (c.failed) return; } c.step(); } }
  catch (GandalfError& e) { if (nd > 1 && e.msg.find("too large") != std::string::npos) return; c.fail("error", "%s", e.msg.c_str()); }
}
SCENARIO(ghostly1, 3, "1D: the gas of a run with test-particle dust is the gas of a run without") { ghostly<1>(c); }
SCENARIO(ghostly2, 3, "2D") { ghostly<2>(c); }
int main(int a, char** v) { return mc::main(a, v); }
