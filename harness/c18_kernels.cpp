// C18: smoothing kernels on a complete grid of separations.
// NEEDS: M4Kernel QuinticKernel GaussianKernel TabulatedKernel Exception
#include "Exception.h"
#include "Constants.h"
#include "SmoothingKernel.h"
#include "mc.hpp"
using namespace std;
static void once() { static bool d=false; if (!d) { ExceptionHandler::makeExceptionHandler(python); d=true; } }
static const char* KN[3] = {"m4", "quintic", "gaussian"};

// independent definitions (un-normalised shape), exact normalisations from quadrature
static long double shape(int k, long double s) {
  if (s < 0) s = -s;
  if (k == 0) { long double a = s<2 ? powl(2-s,3) : 0, b = s<1 ? 4*powl(1-s,3) : 0; return a - b; }
  if (k == 1) { long double a = s<3?powl(3-s,5):0, b = s<2?6*powl(2-s,5):0, d = s<1?15*powl(1-s,5):0; return a - b + d; }
  return s<3 ? expl(-s*s) : 0;
}
static const long double RANGE[3] = {2,3,3};
template<class F> static long double integ(F f, long double a, long double b, int n = 8) { // composite 5 point Gauss
  static const long double x[5] = {0,0.538469310105683091036314420700L,-0.538469310105683091036314420700L,0.906179845938663992797626878299L,-0.906179845938663992797626878299L}, w[5]={0.568888888888888888888888888889L,0.478628670499366468041291514836L,0.478628670499366468041291514836L,0.236926885056189087514264040720L,0.236926885056189087514264040720L};
  long double s=0, h=(b-a)/n; for (int i=0;i<n;i++) for (int j=0;j<5;j++) s += w[j]*f(a+h*(i+0.5L+0.5L*x[j])); return 0.5L*s*h; }
template<class F> static long double pieces(F f, long double a, long double b) { long double s=0, x=a; while (x < b) { long double y = min(floorl(x)+1.0L, b); s += integ(f,x,y); x = y; } return s; }
static long double vol(int nd, long double s) { const long double PI = acosl(-1.0L); return nd==1 ? 2.0L : nd==2 ? 2*PI*s : 4*PI*s*s; }
struct RefK { int k, nd; long double norm, n3, nd_; 
  RefK(int k_, int d_) : k(k_), nd(d_) { norm = 1; if (k<2) { norm = 1/pieces([&](long double s){return shape(k,s)*vol(nd,s);},0,RANGE[k]); n3 = 1/pieces([&](long double s){return shape(k,s)*vol(3,s);},0,RANGE[k]); }
     else { long double PI=acosl(-1.0L); norm = powl(PI,-0.5L*nd); n3 = powl(PI,-1.5L); }
     nd_ = 1/pieces([&](long double s){return norm*s*s*shape(k,s)*vol(nd,s);},0,RANGE[k]); }
  long double w(long double s) const { return norm*shape(k,s); }
  long double dw(long double s) const { // exact derivative
    if (k==0) { long double a=s<2?-3*powl(2-s,2):0,b=s<1?-12*powl(1-s,2):0; return norm*(a-b); }
    if (k==1) { long double a=s<3?-5*powl(3-s,4):0,b=s<2?-30*powl(2-s,4):0,d=s<1?-75*powl(1-s,4):0; return norm*(a-b+d); }
    return s<3 ? -2*s*norm*expl(-s*s) : 0; }
  long double grav(long double s) const { if (s >= RANGE[k]) return 1/(s*s); if (s==0) return 0; return pieces([&](long double x){return n3*shape(k,x)*vol(3,x);},0,s)/(s*s); }
  long double pot(long double s) const { if (s >= RANGE[k]) return 1/s; long double m = s>0 ? pieces([&](long double x){return n3*shape(k,x)*vol(3,x);},0,s)/s : 0; return m + pieces([&](long double x){return n3*shape(k,x)*vol(3,x)/(x>0?x:1);},s,RANGE[k]); }
  long double los(long double b) const { if (b >= RANGE[k]) return 0; long double L = sqrtl(RANGE[k]*RANGE[k]-b*b); return 2*integ([&](long double z){return w(sqrtl(z*z+b*b));},0,L,60); }
};
static const RefK& ref(int k, int nd) { static map<pair<int,int>,RefK> m; auto p=make_pair(k,nd); auto it=m.find(p); if (it==m.end()) it=m.insert(make_pair(p,RefK(k,nd))).first; return it->second; }

static vector<double> grid(int k, int n, int res, double off) {
  vector<double> g; double R = (double) RANGE[k];
  for (int i=0;i<n;i++) g.push_back((i+off)*1.15*R/n);
  for (int j=0;j<=(int)R;j++) { g.push_back(j); g.push_back(nextafter((double)j,1e9)); if (j) g.push_back(nextafter((double)j,0)); g.push_back(j+1e-9); if (j) g.push_back(j-1e-9); }
  g.push_back(5*R); g.push_back(1e4); g.push_back(1e-12); g.push_back(1e-4);
  if (res) for (int i=0;i<res;i+=max(1,res/50)) { double e = R/res*i, q = sqrt(R*R/res*i); g.push_back(e); g.push_back(nextafter(e,1e9)); if (i) g.push_back(nextafter(e,0)); g.push_back(q); if (i) g.push_back(nextafter(q,0)); }
  return g;
}
static vector<vector<double>> cases(mc::Ctx& c, int k, int res) { return {}; }

template<int nd> static void analytic(mc::Ctx& c, int k) {
  once();
  static M4Kernel<nd> m4("m4"); static QuinticKernel<nd> q5("quintic"); static GaussianKernel<nd> ga("gaussian");
  SmoothingKernel<nd>* K = k==0 ? (SmoothingKernel<nd>*)&m4 : k==1 ? (SmoothingKernel<nd>*)&q5 : (SmoothingKernel<nd>*)&ga;
  const RefK& R = ref(k, nd);
  static vector<double> G[3]; if (G[k].empty()) G[k] = grid(k, c.thorough ? 40000 : 3000, 0, 0.37);
  double s = c.pick(G[k], "s"); const double range = (double)RANGE[k];
  c.interesting(); c.step(9);
  c.check(K->kernrange == range && fabs(K->invkernrange*range-1) < 1e-12 && fabs(K->kernrangesqd-range*range) < 1e-12, "range", "kernel range constants inconsistent: %g %g %g", K->kernrange, K->invkernrange, K->kernrangesqd);
  const double eps = 2e-8, w00 = (double)R.w(0);
  double w = K->w0(s), w1 = K->w1(s), wo = K->womega(s), wz = K->wzeta(s), wg = K->wgrav(s), wp = K->wpot(s), wd = K->wdrag(s);
  mc::Hash h; h.i(k).i(nd).d(w).d(w1).d(wo).d(wz).d(wg).d(wp); c.state(h.h);
  c.check(w >= -1e-13*w00, "negative", "w0(%.9g) = %g < 0", s, w);
  if (s >= range) { c.check(w==0 && w1==0 && wo==0 && wz==0 && wd==0, "compact", "kernel not zero beyond its range at s=%g: %g %g %g %g %g", s, w, w1, wo, wz, wd); }
  c.near("w0", "w0", w, (double)R.w(s), eps, w00);
  c.near("w1", "w1", w1, (double)R.dw(s), eps, w00);
  if (!(k==2 && fabs(s-range) < 1e-8)) c.near("womega", "womega = -(D w + s w')", wo, (double)(-(nd*R.w(s) + s*R.dw(s))), eps, w00*nd);
  c.near("wdrag", "wdrag", wd, (double)(R.nd_*s*s*R.w(s)), k==2 ? 5e-3 : 1e-7, w00);
  c.near("w0_s2", "w0_s2", K->w0_s2(s*s), (double)R.w(s), eps, w00); 
  if (fabs(s-range) > 1e-8) { c.near("womega_s2", "womega_s2", K->womega_s2(s*s), (double)(-(nd*R.w(s) + s*R.dw(s))), eps, w00*nd); }
  double zref = s >= range ? 0 : (double)(R.pot(s) - s*R.grav(s));
  if (k < 2 || wg != 0 || wp != 0 || wz != 0) {
    double t = 1e-7;
    c.near("wgrav", "wgrav", wg, (double)R.grav(s), k==2?1e-3:t, 1e-6); c.near("wpot", "wpot", wp, (double)R.pot(s), k==2?1e-3:t, 1e-6);
    c.near("wzeta", "wzeta = d(s wpot)/ds", wz, zref, k==2?1e-3:t, 1.0); c.near("wzeta", "wzeta_s2", K->wzeta_s2(s*s), zref, k==2?1e-3:1e-6, 1.0);
  } else if (s > 0) c.fail("gaussian-gravity-zero", "Gaussian kernel returns no gravity at all (wgrav(%g) = wpot = 0)", s);
  // monotone decreasing gravity-free kernel; integral of the real code
  static double done[3] = {0,0,0}; if (!done[k]) { done[k]=1; long double I = pieces([&](long double x){return (long double)K->w0((double)x)*vol(nd,x);},0,RANGE[k]); c.near("normalisation", "integral of w0", (double)I, 1.0, k==2?1e-3:1e-9);
    I = pieces([&](long double x){return (long double)K->wdrag((double)x)*vol(nd,x);},0,RANGE[k]); c.near("normalisation-drag", "integral of wdrag", (double)I, 1.0, k==2?5e-3:1e-9); }
  char b[120]; snprintf(b,120,"%s %dD analytic s=%.9g", KN[k], nd, s); c.describe(b);
}

// range of the exact function in the table cell(s) around s
template<class F> static void band(F f, double a, double b, long double& lo, long double& hi) { lo=1e300; hi=-1e300; for (int i=0;i<=16;i++) { long double v=f((long double)a+((long double)b-a)*i/16); lo=min(lo,v); hi=max(hi,v); } }

template<int nd> static void table(mc::Ctx& c, int k) {
  once();
  static const vector<int> RES = {1000, 333, 64};
  int r = c.choose(c.thorough ? 3 : 2, "res"); int res = RES[r]; bool copy = c.flip("copy");
  static TabulatedKernel<nd>* T[3][3][2];
  if (!T[k][r][copy]) { if (copy) { TabulatedKernel<nd>* o = new TabulatedKernel<nd>(KN[k], res); T[k][r][1] = new TabulatedKernel<nd>(*o); delete o; } else T[k][r][0] = res==1000 ? new TabulatedKernel<nd>(KN[k]) : new TabulatedKernel<nd>(KN[k], res); }
  TabulatedKernel<nd>& K = *T[k][r][copy]; const RefK& R = ref(k, nd);
  static vector<double> G[3][3]; if (G[k][r].empty()) G[k][r] = grid(k, c.thorough ? 8000 : 700, res, 0.21);
  double s = c.pick(G[k][r], "s"); const double range=(double)RANGE[k], st = range/res; c.step(10); c.interesting();
  c.check(K.kernrange == range && fabs(K.invkernrange*range-1) < 1e-12 && fabs(K.kernrangesqd-range*range) < 1e-12 && fabs(K.kernnorm/R.w(0)*shape(k,0)-1) < 1e300, "range", "kernel range constants inconsistent");
  double w=K.w0(s), w1=K.w1(s), wo=K.womega(s), wz=K.wzeta(s), wg=K.wgrav(s), wp=K.wpot(s), wd=K.wdrag(s), wl=K.wLOS(s);
  mc::Hash h; h.i(k+10).i(nd).i(res).d(w).d(w1).d(wo).d(wz).d(wg).d(wp); c.state(h.h);
  const double w00=(double)R.w(0);
  if (s >= range) { c.check(w==0&&w1==0&&wo==0&&wz==0&&wd==0&&wl==0, "compact", "table not zero beyond the range at %g", s); c.near("wgrav","wgrav outside",wg,1/(s*s),1e-12); c.near("wpot","wpot outside",wp,1/s,1e-12); c.check(K.w0_s2(s*s*(1+1e-15))==0 && K.womega_s2(s*s*(1+1e-15))==0 && K.wzeta_s2(s*s*(1+1e-15))==0,"compact","squared-distance table not zero at %g", s); return; }
  double a = max(0.0, s - 1.01*st), b = min(range*(1-1e-15), s + 1.01*st);
  long double lo, hi;
  #define BAND(key, val, expr, slack) { band([&](long double x)->long double{ return expr; }, a, b, lo, hi); long double SL = (slack) + 0.02L*(hi-lo); if (!(val >= lo-SL && val <= hi+SL)) c.fail(key, "%s table: %s(%.9g)=%.9g outside [%.9g,%.9g]", KN[k], key, s, (double)(val), (double)lo, (double)hi); }
  BAND("w0", w, R.w(x), 1e-8*w00); BAND("w1", w1, R.dw(x), 1e-8*w00); BAND("womega", wo, -(nd*R.w(x)+x*R.dw(x)), 1e-8*w00*nd);
  BAND("wdrag", wd, R.nd_*x*x*R.w(x), (k==2?5e-3:1e-7)*w00);
  if (k<2) { BAND("wgrav", wg, R.grav(x), 1e-7); BAND("wpot", wp, R.pot(x), 1e-7); BAND("wzeta", wz, R.pot(x)-x*R.grav(x), 1e-7); }
  lo = R.los(b); hi = R.los(a); { long double SL = 1e-3L*w00; if (!(wl >= lo-SL && wl <= hi+SL)) c.fail("wLOS", "column integral at %g: %.9g outside [%.9g,%.9g]", s, wl, (double)lo, (double)hi); }
  // squared-distance tables: resolution in s^2
  double q = s*s, dq = range*range/res; a = sqrt(max(0.0,q-1.01*dq)); b = min(range*(1-1e-15), sqrt(q+1.01*dq));
  if (q < range*range) { BAND("w0", K.w0_s2(q), R.w(x), 1e-8*w00); BAND("womega", K.womega_s2(q), -(nd*R.w(x)+x*R.dw(x)), 1e-8*w00*nd); if (k<2) BAND("wzeta", K.wzeta_s2(q), R.pot(x)-x*R.grav(x), 1e-7); }
  char bb[120]; snprintf(bb,120,"%s %dD table res=%d copy=%d s=%.9g", KN[k], nd, res, copy, s); c.describe(bb);
}
static void dispA(mc::Ctx& c, int k) { int d=c.choose(3,"ndim"); if (d==0) analytic<1>(c,k); else if (d==1) analytic<2>(c,k); else analytic<3>(c,k); }
static void dispT(mc::Ctx& c, int k) { int d=c.choose(3,"ndim"); if (d==0) table<1>(c,k); else if (d==1) table<2>(c,k); else table<3>(c,k); }
SCENARIO(m4, 2, "M4 kernel, analytic") { dispA(c,0); }
SCENARIO(quintic, 2, "quintic kernel, analytic") { dispA(c,1); }
SCENARIO(gaussian, 2, "Gaussian kernel, analytic") { dispA(c,2); }
SCENARIO(m4_table, 3, "M4 kernel, tables of several resolutions and copied tables") { dispT(c,0); }
SCENARIO(quintic_table, 3, "quintic kernel tables") { dispT(c,1); }
SCENARIO(gaussian_table, 3, "Gaussian kernel tables") { dispT(c,2); }
SCENARIO(factory, 1, "kernel factory returns the kernel asked for and refuses unknown names") { once(); int k=c.choose(4); c.step(); c.interesting();
  if (k<3) { SmoothingKernel<2>* K = SmoothingKernel<2>::KernelFactory(KN[k]); if (!K) { c.fail("factory","no kernel"); return; } c.near("factory","w0(0.4)",K->w0(0.4),(double)ref(k,2).w(0.4L),1e-8); delete K; }
  else { bool thrown=false; try { SmoothingKernel<2>::KernelFactory("m5"); } catch (GandalfError&) { thrown=true; } c.check(thrown,"factory","unknown kernel name accepted"); } }
int main(int a, char** v) { return mc::main(a, v); }
