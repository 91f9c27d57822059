// C08: Riemann solvers - exhaustive grid of state pairs, normals, gas constants, frames.
// NEEDS: RiemannSolver Exception
#include "Exception.h"
#include "Constants.h"
#include "RiemannSolver.h"
#include "mc.hpp"
using namespace std;
typedef long double LD;

static void once() { static bool d = false; if (!d) { ExceptionHandler::makeExceptionHandler(python); d = true; } }

// ---------------------------------------------------------------- independent exact solver
struct Ref { LD ps, us; bool vac; LD p, d, u; };
static LD fK(LD p, LD pk, LD dk, LD ck, LD g) {
  if (p > pk) return (p - pk)*sqrtl((2/((g+1)*dk))/(p + pk*(g-1)/(g+1)));
  return 2*ck/(g-1)*(powl(p/pk, (g-1)/(2*g)) - 1);
}
static Ref refsolve(LD dl, LD ul, LD pl, LD dr, LD ur, LD pr, LD g) {
  Ref r; LD cl = sqrtl(g*pl/dl), cr = sqrtl(g*pr/dr);
  r.vac = 2*(cl+cr)/(g-1) <= ur - ul;
  if (r.vac) { r.ps = r.us = 0; return r; }
  LD lo = -90*logl(10.0L), hi = 90*logl(10.0L);   // bisection in log p
  for (int i=0; i<200; i++) { LD m = 0.5L*(lo+hi), p = expl(m); LD f = fK(p,pl,dl,cl,g) + fK(p,pr,dr,cr,g) + ur - ul; if (f > 0) hi = m; else lo = m; }
  r.ps = expl(0.5L*(lo+hi));
  r.us = 0.5L*(ul+ur) + 0.5L*(fK(r.ps,pr,dr,cr,g) - fK(r.ps,pl,dl,cl,g));
  return r;
}
// sample at speed s; margin returns relative distance to nearest wave
static void sample(Ref& r, LD s, LD dl, LD ul, LD pl, LD dr, LD ur, LD pr, LD g, LD& margin) {
  LD cl = sqrtl(g*pl/dl), cr = sqrtl(g*pr/dr), vs = cl + cr + fabsl(ul) + fabsl(ur);
  margin = fabsl(s - r.us)/vs;
  int sg = (s <= r.us) ? 1 : -1;         // treat the right side as mirrored left side
  LD d = sg>0?dl:dr, u = sg*(sg>0?ul:ur), p = sg>0?pl:pr, c = sg>0?cl:cr, S = sg*s, us = sg*r.us;
  if (r.ps > p) {
    LD sh = u - c*sqrtl((g+1)/(2*g)*r.ps/p + (g-1)/(2*g));
    margin = min(margin, fabsl(S - sh)/vs);
    if (S <= sh) { r.d = d; r.u = u; r.p = p; }
    else { LD q = r.ps/p, a = (g-1)/(g+1); r.d = d*(q + a)/(a*q + 1); r.u = us; r.p = r.ps; }
  } else {
    LD head = u - c, cs = c*powl(r.ps/p, (g-1)/(2*g)), tail = us - cs;
    if (S <= head) { r.d = d; r.u = u; r.p = p; }
    else if (S >= tail) { r.d = d*powl(r.ps/p, 1/g); r.u = us; r.p = r.ps; }
    else { r.u = 2/(g+1)*(c + (g-1)/2*u + S); LD cc = 2/(g+1)*(c + (g-1)/2*(u - S)); r.d = d*powl(cc/c, 2/(g-1)); r.p = p*powl(cc/c, 2*g/(g-1)); }
  }
  r.u *= sg;
}

// physical flux through a face with normal n moving at vf; w = velocity in the face frame
template<int nd> static void physflux(LD rho, const double* w, LD p, LD g, bool iso, const double* n, const double* vf, LD* F, LD* scale) {
  LD wn = 0, v2 = 0, vn = 0, va = 0; for (int k=0; k<nd; k++) { wn += (LD)w[k]*n[k]; LD v = (LD)w[k] + vf[k]; v2 += v*v; vn += v*n[k]; va += fabsl(w[k]) + fabsl(vf[k]); }
  LD u = iso ? p/rho : p/((g-1)*rho);
  F[nd] = rho*wn; for (int k=0; k<nd; k++) F[k] = rho*wn*((LD)w[k]+vf[k]) + p*n[k];
  F[nd+1] = rho*wn*(0.5L*v2 + u) + p*vn;
  LD cs = sqrtl(g*p/rho); va += cs;
  scale[nd] = rho*va; for (int k=0; k<nd; k++) scale[k] = rho*va*va + p; scale[nd+1] = (rho*va*va + p)*va*(1 + 1/(iso?1:(g-1)));
}

struct Menu { vector<double> rho, p, vn, vt; };
static Menu menu(bool th) {
  Menu m;
  if (!th) { m.rho = {1e-6, 0.125, 1.0, 12.0}; m.p = {1e-5, 0.1, 1.0, 300.0}; m.vn = {-6.0, -0.8, 0.0, 0.8, 6.0}; m.vt = {0.0, 1.3}; }
  else { m.rho = {1e-8, 1e-3, 0.125, 0.7, 1.0, 12.0, 1e4}; m.p = {1e-8, 1e-3, 0.1, 0.4, 1.0, 20.0, 1e5}; m.vn = {-40.0, -6.0, -0.8, -0.13, 0.0, 0.13, 0.8, 6.0, 40.0}; m.vt = {0.0, 1.3, -2.1}; }
  return m;
}
template<int nd> static vector<vector<double>> normals() {
  vector<vector<double>> r;
  if (nd == 1) { r = {{1}, {-1}}; }
  else if (nd == 2) { for (int i=0; i<12; i++) { double a = 2*M_PI*i/12.0; if (i%3==0) r.push_back({round(cos(a)), round(sin(a))}); else r.push_back({cos(a+0.03), sin(a+0.03)}); } }
  else { for (int x=-1; x<=1; x++) for (int y=-1; y<=1; y++) for (int z=-1; z<=1; z++) { if (!x && !y && !z) continue; double X=x*1.0,Y=y*1.2,Z=z*0.9, m=sqrt(X*X+Y*Y+Z*Z); r.push_back({X/m,Y/m,Z/m}); } }
  return r;
}
// orthonormal tangents
template<int nd> static void tangent(const vector<double>& n, double* t) {
  for (int k=0; k<nd; k++) t[k] = 0;
  if (nd == 2) { t[0] = -n[1]; t[1] = n[0]; }
  if (nd == 3) { int a = fabs(n[0]) < 0.6 ? 0 : 1; double d = n[a], m = 0; for (int k=0; k<3; k++) { t[k] = (k==a) - d*n[k]; m += t[k]*t[k]; } double b[3]; m = sqrt(m); for (int k=0; k<3; k++) t[k] /= m;
    b[0]=n[1]*t[2]-n[2]*t[1]; b[1]=n[2]*t[0]-n[0]*t[2]; b[2]=n[0]*t[1]-n[1]*t[0]; for (int k=0; k<3; k++) t[k] = 0.8*t[k] + 0.6*b[k]; }
}

enum Kind { EXACT, HLLC, HLLCISO };
template<int nd> struct Solver {
  Kind kind; double g; bool zmf; ExactRiemannSolver<nd> ex; HllcRiemannSolver<nd> hl;
  Solver(Kind k, double gg, bool z) : kind(k), g(gg), zmf(z), ex(gg, z), hl(gg, z, k==HLLCISO) {}
  // flux through the face along n; vf is updated by zmf solvers
  void flux(const double* Wl, const double* Wr, const double* n, double* vf, double* F, bool viaState = false) {
    double M[nd+2][nd]; for (int i=0;i<nd+2;i++) for (int k=0;k<nd;k++) M[i][k] = 1e300;
    if (kind == EXACT) ex.ComputeFluxes(Wl, Wr, n, vf, M);
    else if (!viaState) hl.ComputeFluxes(Wl, Wr, n, vf, M);
    else { StateVector<nd> S[2]; const double* W[2] = {Wl, Wr};
      for (int s=0; s<2; s++) { double v2=0; for (int k=0;k<nd;k++) { S[s].Wprim.velocity[k]=W[s][k]; S[s].Ucons.momentum[k]=W[s][nd]*W[s][k]; v2+=W[s][k]*W[s][k]; }
        S[s].Wprim.density=S[s].Ucons.density=W[s][nd]; S[s].Wprim.pressure=W[s][nd+1]; S[s].Ucons.energy = 0.5*W[s][nd]*v2 + (kind==HLLCISO ? W[s][nd+1] : W[s][nd+1]/(g-1)); S[s].sound_speed = sqrt((kind==HLLCISO?1:g)*W[s][nd+1]/W[s][nd]); }
      hl.ComputeFluxes(S[0], S[1], n, vf, M); }
    for (int i=0;i<nd+2;i++) { F[i]=0; for (int k=0;k<nd;k++) F[i] += M[i][k]*n[k]; }
  }
};

template<int nd> static bool cmp(mc::Ctx& c, const char* key, const char* what, const double* F, const LD* R, const LD* sc, double tol) {
  for (int i=0; i<nd+2; i++) if (!(fabsl((LD)F[i] - R[i]) <= tol*sc[i])) { c.fail(key, "%s: %s flux component %d = %.12g, expected %.12g (scale %.3g)", key, what, i, F[i], (double)R[i], (double)sc[i]); return false; }
  return true;
}

template<int nd> static void run(mc::Ctx& c) {
  once();
  Menu m = menu(c.thorough);
  if (nd > 1 && c.thorough) { m = menu(false); m.vt = {0.0, 1.3, -2.1}; }
  Kind kind = (Kind) c.choose(3, "solver"); bool zmf = c.flip("zmf");
  double g = kind == HLLCISO ? 1.0001 : c.pick(vector<double>{1.4, 5.0/3.0, 1.1}, "gamma");
  auto N = normals<nd>(); const vector<double>& n = c.pick(N, "normal");
  double rl = c.pick(m.rho), pl = c.pick(m.p), vl = c.pick(m.vn); double rr = c.pick(m.rho), pr = c.pick(m.p), vr = c.pick(m.vn);
  double tl = nd>1 ? c.pick(m.vt) : 0, tr = (nd>2 && !c.thorough) ? 0.7 - tl : nd>1 ? c.pick(m.vt) : 0;
  if (kind == HLLCISO) { pr = pl*rr/rl; }                      // one temperature
  // quick tier: normals of every octant/axis, but not all of them with every state pair
  if (!c.thorough && nd == 2 && (&n - &N[0])%2 == 1 && rl < 1e-3) c.prune();
  if (!c.thorough && nd == 3 && ((&n - &N[0])%3 != (rl > 0.5) + (pl > 0.5)) ) c.prune();
  if (!c.thorough && nd > 1 && g < 1.2 && kind != HLLCISO) c.prune();
  Solver<nd> S(kind, g, zmf); const bool iso = kind == HLLCISO;
  double t[nd]; tangent<nd>(n, t);
  double Wl[nd+2], Wr[nd+2], zero[3] = {0,0,0};
  for (int k=0; k<nd; k++) { Wl[k] = vl*n[k] + tl*t[k]; Wr[k] = vr*n[k] + tr*t[k]; }
  Wl[nd]=rl; Wl[nd+1]=pl; Wr[nd]=rr; Wr[nd+1]=pr;
  c.step(); 
  double F[nd+2], vf[nd]; for (int k=0;k<nd;k++) vf[k]=0; S.flux(Wl, Wr, &n[0], vf, F);
  LD sl[nd+2], sr[nd+2], sc[nd+2], FL[nd+2], FR[nd+2];
  physflux<nd>(rl, Wl, pl, g, iso, &n[0], zero, FL, sl); physflux<nd>(rr, Wr, pr, g, iso, &n[0], zero, FR, sr);
  for (int i=0;i<nd+2;i++) sc[i] = sl[i] + sr[i];
  LD va = fabsl(vl)+fabsl(vr)+fabsl(tl)+fabsl(tr)+sqrtl(g*pl/rl)+sqrtl(g*pr/rr); LD d0=max(rl,rr), p0=max(pl,pr);
  for (int i=0;i<nd+2;i++) if (!isfinite(F[i])) { c.fail("finite", "flux component %d not finite", i); return; }
  for (int k=0;k<nd;k++) if (!isfinite(vf[k])) { c.fail("finite", "face velocity not finite"); return; }
  Ref R = refsolve(rl, vl, pl, rr, vr, pr, g);
  const double tol = 5e-6;
  mc::Hash h; h.i(kind).i(zmf).i(nd); for (int i=0;i<nd+2;i++) h.d(F[i]); c.state(h.h);
  if (fabs(pl-pr) > 1e-9 || fabs(vl-vr) > 1e-9 || fabs(rl-rr) > 1e-9) c.interesting();
  // ---- zero mass flux scheme: no mass passes
  LD wsc = d0*va; 
  if (zmf && !(fabs(F[nd]) <= 1e-9*wsc)) c.fail("zmf-mass", "mass flux %.6g in a zero-mass-flux solver", F[nd]);
  // ---- consistency with equal states
  { double Fe[nd+2], ve[nd]; for (int k=0;k<nd;k++) ve[k]=0; S.flux(Wl, Wl, &n[0], ve, Fe); c.step();
    LD P[nd+2], q[nd+2];
    if (!zmf) { physflux<nd>(rl, Wl, pl, g, iso, &n[0], zero, P, q); cmp<nd>(c, "consistency", "equal states", Fe, P, q, tol); }
    else { double w0[3] = {0,0,0}, vn[3] = {0,0,0}; for (int k=0;k<nd;k++) vn[k] = vl*n[k]; physflux<nd>(rl, w0, pl, g, iso, &n[0], vn, P, q); for (int i=0;i<nd+2;i++) q[i]=max(q[i],sl[i]); cmp<nd>(c, "consistency", "equal states (zmf)", Fe, P, q, tol); } }
  // ---- swapping the sides and the normal
  { double nn[3]={0,0,0}, Fm[nd+2], vm[nd]; for (int k=0;k<nd;k++) { nn[k]=-n[k]; vm[k]=0; } S.flux(Wr, Wl, nn, vm, Fm); c.step(); LD P[nd+2]; for (int i=0;i<nd+2;i++) P[i] = -(LD)Fm[i];
    bool tie = fabsl(R.us) < 1e-9*va;               // contact on the face: upwind side undefined
    bool fan = false; if (!R.vac) { LD mg; Ref q=R; sample(q, 0, rl,vl,pl,rr,vr,pr,g,mg); fan = mg < 1e-6; }
    if (!tie && !fan) cmp<nd>(c, "swap-symmetry", "swapped sides", F, P, sc, tol); }
  // ---- mirror image
  { double Wl2[nd+2], Wr2[nd+2], Fm[nd+2], vm[nd]; for (int k=0;k<nd;k++) vm[k]=0;      // reflect along n: v.n -> -v.n, L <-> R
    for (int k=0;k<nd;k++) { Wl2[k] = -vr*n[k] + tr*t[k]; Wr2[k] = -vl*n[k] + tl*t[k]; } Wl2[nd]=rr; Wl2[nd+1]=pr; Wr2[nd]=rl; Wr2[nd+1]=pl;
    S.flux(Wl2, Wr2, &n[0], vm, Fm); c.step();
    LD P[nd+2]; LD mn=0; for (int k=0;k<nd;k++) mn += (LD)Fm[k]*n[k]; for (int k=0;k<nd;k++) P[k] = -((LD)Fm[k] - 2*mn*n[k]);
    P[nd] = -(LD)Fm[nd]; P[nd+1] = -(LD)Fm[nd+1];
    bool tie = fabsl(R.us) < 1e-9*va; bool fan=false; if (!R.vac) { LD mg; Ref q=R; sample(q, 0, rl,vl,pl,rr,vr,pr,g,mg); fan = mg < 1e-6; }
    if (!tie && !fan) cmp<nd>(c, "mirror", "mirrored states", F, P, sc, tol); }
  // ---- change of frame: same face-frame states, faster face
  { double dv[3] = {0.7, -1.9, 0.4}, Fg[nd+2], vg[nd]; for (int k=0;k<nd;k++) vg[k]=dv[k]; S.flux(Wl, Wr, &n[0], vg, Fg); c.step();
    LD P[nd+2], q[nd+2]; LD d2=0, dm=0; for (int k=0;k<nd;k++) { d2 += dv[k]*dv[k]; dm += dv[k]*(LD)F[k]; P[k] = F[k] + dv[k]*(LD)F[nd]; } P[nd]=F[nd]; P[nd+1] = F[nd+1] + dm + 0.5L*d2*F[nd];
    LD vb = va + 3; q[nd]=sc[nd]; for (int k=0;k<nd;k++) q[k]=sc[k] + d0*vb*vb; q[nd+1]=sc[nd+1] + (d0*vb*vb+p0)*vb; 
    cmp<nd>(c, "galilean", "boosted frame", Fg, P, q, 1e-9);
    for (int k=0;k<nd;k++) if (fabs(vg[k]-dv[k]-vf[k]) > 1e-9*(double)vb) c.fail("galilean", "face velocity change differs in boosted frame"); 
    if (!zmf) for (int k=0;k<nd;k++) if (vf[k] != 0) c.fail("vface", "face velocity changed by a solver without zero mass flux"); }
  // ---- rotated copy: the direction of the normal must not matter
  if (nd > 1) { double n1[3]={1,0,0}, t1[3]={0,1,0}, W1[nd+2], W2[nd+2], F1[nd+2], v1[nd]; for (int k=0;k<nd;k++) { v1[k]=0; W1[k]=vl*n1[k]+tl*t1[k]; W2[k]=vr*n1[k]+tr*t1[k]; } W1[nd]=rl;W1[nd+1]=pl;W2[nd]=rr;W2[nd+1]=pr;
    S.flux(W1, W2, n1, v1, F1); c.step(); LD P[nd+2]; for (int k=0;k<nd;k++) P[k] = F1[0]*(LD)n[k] + F1[1]*(LD)t[k]; P[nd]=F1[nd]; P[nd+1]=F1[nd+1];
    bool tie = fabsl(R.us) < 1e-9*va; if (kind != EXACT) tie = fabs(F1[nd]) < 1e-9*wsc; bool fan=false; if (!R.vac) { LD mg; Ref q=R; sample(q, 0, rl,vl,pl,rr,vr,pr,g,mg); fan = mg < 1e-6; }
    if (!tie && !fan) cmp<nd>(c, "rotation", "rotated frame", F, P, sc, tol);
    if (zmf) { LD a=0; for (int k=0;k<nd;k++) a += (LD)vf[k]*n[k]; if (fabsl(a - v1[0]) > 1e-6*va) c.fail("rotation", "face speed depends on frame: %.9g vs %.9g", (double)a, v1[0]); LD b=0; for (int k=0;k<nd;k++) b += (LD)vf[k]*t[k]; if (fabsl(b) > 1e-9*va) c.fail("rotation","face pushed along its surface"); } }
  // ---- exact solver against an independent one
  if (kind == EXACT && !R.vac) {
    double ps=-1, us=0; S.ex.ComputeStarRegion(pl, pr, rl, rr, sqrt(g*pl/rl), sqrt(g*pr/rr), vl, vr, ps, us); c.step();
    if (!(fabsl(ps - R.ps) <= 1e-5L*max(R.ps, (LD)1e-14*p0))) c.fail("star", "star pressure %.12g, exact %.12g", ps, (double)R.ps);
    if (!(fabsl(us - R.us) <= 2e-6L*va)) c.fail("star", "star velocity %.12g, exact %.12g", us, (double)R.us);
    // sampling at many speeds
    for (int j=-6; j<=6; j++) { LD s = j*va/6, mg; Ref q = R; sample(q, s, rl,vl,pl,rr,vr,pr,g,mg); if (mg < 1e-5) continue; double p,d,u; S.ex.SampleExactSolution(ps, us, (double)s, pl,pr,rl,rr,sqrt(g*pl/rl),sqrt(g*pr/rr),vl,vr,p,d,u); c.step();
      if (!(fabsl(p-q.p) <= 3e-5L*q.p + 1e-12L*p0 && fabsl(d-q.d) <= 3e-5L*q.d + 1e-12L*d0 && fabsl(u-q.u) <= 5e-6L*va)) c.fail("fan", "sample at s=%.6g: p,d,u=%.9g %.9g %.9g expected %.9g %.9g %.9g", (double)s, p,d,u,(double)q.p,(double)q.d,(double)q.u); }
    LD mg; Ref q = R; sample(q, 0, rl,vl,pl,rr,vr,pr,g,mg);
    if (mg > 1e-5 && !zmf) { double W[nd+2]; double tt = R.us > 0 ? tl : tr; for (int k=0;k<nd;k++) W[k] = (double)q.u*n[k] + tt*t[k]; LD P[nd+2], z[nd+2]; physflux<nd>(q.d, W, q.p, g, false, &n[0], zero, P, z); LD ez = 2e-6L*va/tol, um = fabsl(q.u) + sqrtl(g*q.p/q.d); sc[nd] += q.d*ez; for (int k=0;k<nd;k++) sc[k] += q.d*um*ez; sc[nd+1] += q.d*um*um*ez; cmp<nd>(c, "exact-flux", "exact", F, P, sc, tol); }
    if (mg > 1e-5 && zmf && fabsl(q.p-R.ps) < 1e-12*p0) { double w0[3]={0,0,0}, vn[3]; for (int k=0;k<nd;k++) vn[k]=(double)R.us*n[k]; LD P[nd+2], z[nd+2]; physflux<nd>(1.0, w0, R.ps, g, false, &n[0], vn, P, z); cmp<nd>(c, "exact-flux-zmf", "contact frame", F, P, sc, tol); }
  }
  // ---- supersonic: upwind flux, and stationary contact: nothing but pressure
  LD cl = sqrtl((iso?1:g)*pl/rl), cr = sqrtl((iso?1:g)*pr/rr);
  if (!zmf && kind != EXACT) {
    LD f = 1/(1+sqrtl((LD)rr/rl)), vav = f*vl+(1-f)*vr, dv2 = (vl-vr)*(vl-vr)+(tl-tr)*(tl-tr), cav = sqrtl(f*cl*cl+(1-f)*cr*cr+0.5L*f*(1-f)*max((iso?0.0L:g-1),0.0L)*dv2);
    LD smin = min(vl-cl, vav-cav), smax = max(vr+cr, vav+cav);
    if (smin > 1e-6*va) cmp<nd>(c, "upwind", "supersonic to the right", F, FL, sc, tol);
    if (smax < -1e-6*va) cmp<nd>(c, "upwind", "supersonic to the left", F, FR, sc, tol);
  }
  if (kind != HLLCISO && fabs(vl) < 1e-12 && fabs(vr) < 1e-12 && fabs(pl-pr) < 1e-12*pl) { c.interesting();
    LD P[nd+2]; for (int k=0;k<nd;k++) P[k]=pl*n[k]; P[nd]=P[nd+1]=0; cmp<nd>(c, "contact", "stationary contact", F, P, sc, 1e-9); }
  // ---- HLLC: an isolated shock or contact is resolved exactly
  if (kind == HLLC && !R.vac && !zmf) {
    if (pl < pr && pr/pl < 1e5) { /* right-going states are handled through the mirror check; make a left shock: state behind it computed from pl -> pr */
      LD q = (LD)pr/pl, a = (g-1)/(g+1); LD ds = rl*(q+a)/(a*q+1), us = vl - fK(pr,pl,rl,cl,g); double W2[nd+2]; for (int k=0;k<nd;k++) W2[k] = (double)us*n[k] + tl*t[k]; W2[nd]=(double)ds; W2[nd+1]=pr; double Fs[nd+2], vs[nd]; for (int k=0;k<nd;k++) vs[k]=0;
      S.flux(Wl, W2, &n[0], vs, Fs); c.step();
      LD ss = vl - cl*sqrtl((g+1)/(2*g)*q + (g-1)/(2*g)); LD P[nd+2], z[nd+2], z2[nd+2], PL[nd+2]; physflux<nd>(ds, W2, pr, g, false, &n[0], zero, P, z); physflux<nd>(rl, Wl, pl, g, false, &n[0], zero, PL, z2); for (int i=0;i<nd+2;i++) z[i]+=z2[i];
      if (fabsl(ss) > 1e-6*va) { if (ss > 0) cmp<nd>(c, "shock", "isolated shock", Fs, PL, z, tol); else cmp<nd>(c, "shock", "isolated shock", Fs, P, z, tol); } }
    if (true) { double W2[nd+2]; for (int k=0;k<nd;k++) W2[k] = vl*n[k] + tr*t[k]; W2[nd]=rr; W2[nd+1]=pl; double Fs[nd+2], vs[nd]; for (int k=0;k<nd;k++) vs[k]=0; S.flux(Wl, W2, &n[0], vs, Fs); c.step(); 
      LD P[nd+2], z[nd+2], z2[nd+2], PL[nd+2]; physflux<nd>(rr, W2, pl, g, false, &n[0], zero, P, z); physflux<nd>(rl, Wl, pl, g, false, &n[0], zero, PL, z2); for (int i=0;i<nd+2;i++) z[i]+=z2[i];
      if (fabs(vl) > 1e-9 && fabs(tl-tr) < 1e-12) { if (vl > 0) cmp<nd>(c, "moving-contact", "moving contact", Fs, PL, z, tol); else cmp<nd>(c, "moving-contact", "moving contact", Fs, P, z, tol); } } }
  // ---- both entry points of HLLC agree
  if (kind != EXACT) { double Fs[nd+2], vs[nd]; for (int k=0;k<nd;k++) vs[k]=0; S.flux(Wl, Wr, &n[0], vs, Fs, true); c.step(); LD P[nd+2]; for (int i=0;i<nd+2;i++) P[i]=F[i]; cmp<nd>(c, "hllc-entry", "state-vector entry", Fs, P, sc, 1e-7);
    // HLLC contact frame: pure pressure work
    if (zmf && !iso) { LD vn=0, pn=0; for (int k=0;k<nd;k++) { vn += (LD)vf[k]*n[k]; pn += (LD)F[k]*n[k]; }  
      LD P2[nd+2]; for (int k=0;k<nd;k++) P2[k]=pn*n[k]; P2[nd]=0; P2[nd+1]=pn*vn; bool sub = true; { LD f = 1/(1+sqrtl((LD)rr/rl)), vav=f*vl+(1-f)*vr, dv2=(vl-vr)*(vl-vr)+(tl-tr)*(tl-tr), cav=sqrtl(f*cl*cl+(1-f)*cr*cr+0.5L*f*(1-f)*(g-1)*dv2); LD smin=min(vl-cl,vav-cav)-vn, smax=max(vr+cr,vav+cav)-vn; sub = smin < -1e-6*va && smax > 1e-6*va; }
      if (sub) cmp<nd>(c, "zmf-pressure", "contact frame flux", F, P2, sc, tol); } }
  if (c.nontrivial) { char b[300]; snprintf(b, 300, "%dD solver=%d zmf=%d gamma=%.3g L=(%g,%g,%g) R=(%g,%g,%g)", nd, kind, zmf, g, rl, vl, pl, rr, vr, pr); c.describe(b); }
}
SCENARIO(riemann1d, 3, "all state pairs, 1D") { run<1>(c); }
SCENARIO(riemann2d, 4, "all state pairs x normals, 2D") { run<2>(c); }
SCENARIO(riemann3d, 4, "all state pairs x normals, 3D") { run<3>(c); }

SCENARIO(shocktube, 3, "the analytic shock-tube table equals an independent exact solution") {
  once();
  Menu m = menu(false); double g = c.pick(vector<double>{1.4, 5.0/3.0});
  double rl = c.pick(m.rho), pl = c.pick(m.p), vl = c.pick(m.vn), rr = c.pick(m.rho), pr = c.pick(m.p), vr = c.pick(m.vn);
  Ref R = refsolve(rl, vl, pl, rr, vr, pr, g); if (R.vac) c.prune();
  const double x0 = 0.1, xl = -2, xr = 3, t = 0.2; const int N = 24;
  ShocktubeSolution s(rl, rr, vl, vr, pl, pr, xl, x0, xr, t, N, g); c.step();
  double X[N], D[N], U[N], P[N], E[N]; s.ComputeShocktubeSolution("x", X, N); s.ComputeShocktubeSolution("rho", D, N); s.ComputeShocktubeSolution("vx", U, N); s.ComputeShocktubeSolution("press", P, N); s.ComputeShocktubeSolution("u", E, N);
  c.interesting();
  for (int i=0; i<N; i++) { double x = xl + (xr-xl)*i/(N-1.0); LD mg; Ref q=R; sample(q, (x-x0)/t, rl,vl,pl,rr,vr,pr,g,mg); if (mg < 1e-5) continue; LD va = fabsl(vl)+fabsl(vr)+sqrtl(g*pl/rl)+sqrtl(g*pr/rr);
    if (fabs(X[i]-x) > 1e-12 || fabsl(D[i]-q.d) > 3e-5L*q.d || fabsl(P[i]-q.p) > 3e-5L*q.p + 1e-12L*max(pl,pr) || fabsl(U[i]-q.u) > 5e-6L*va || fabsl(E[i]-q.p/q.d/(g-1)) > 1e-4L*q.p/q.d/(g-1)+1e-12L*max(pl/rl,pr/rr)) { c.fail("table", "x=%g: rho,p,v,u = %g %g %g %g expected %g %g %g", x, D[i],P[i],U[i],E[i],(double)q.d,(double)q.p,(double)q.u); break; } }
  mc::Hash h; for (int i=0;i<N;i+=3) h.d(D[i]).d(P[i]); c.state(h.h);
}
int main(int a, char** v) { return mc::main(a, v); }
