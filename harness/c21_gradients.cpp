// C21 - gradients and slope limiters: every limiter on every small neighbourhood; the real gradient loop on every small arrangement
#include "sim.hpp"
#include "MfvNeighbourSearch.h"
#include "SlopeLimiter.h"
using namespace mc;
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static const char* LIM[] = {"null", "zeroslope", "tvdscalar", "tess2011", "scalar", "balsara2004", "springel2009", "gizmo"};
enum { NUL, ZERO, TVD, TESS, SCALAR, BALSARA, SPRINGEL, GIZMO };
static double lo(double a, double b) { return a < b ? a : b; } static double hi(double a, double b) { return a > b ? a : b; }
// ---- the limiters on their own
template<int nd> struct P { double r[3], Wprim[nd+2], grad[nd+2][nd], alpha_slope[nd+2], h; };
template<int nd> struct Case { P<nd> i; std::vector<P<nd>> n; };
template<int nd> struct Out { double alpha[nd+2]; std::vector<std::array<double,nd+2>> dW; std::vector<std::array<double,(nd+2)*nd>> g; };
template<int nd, class L> Out<nd> apply(L l, Case<nd> k, double f) {
  Out<nd> o; for (int v=0;v<nd+2;v++) k.i.alpha_slope[v] = NAN; l.CellLimiter(k.i, k.n); for (int v=0;v<nd+2;v++) o.alpha[v] = k.i.alpha_slope[v];
  for (auto& p : k.n) { double dr[nd], g[nd+2][nd], dW[nd+2]; for (int v=0;v<nd+2;v++) { dW[v] = NAN; for (int q=0;q<nd;q++) g[v][q] = NAN; } for (int q=0;q<nd;q++) dr[q] = f*(p.r[q]-k.i.r[q]); l.ComputeLimitedSlopes(k.i, p, dr, g, dW); std::array<double,nd+2> a; std::array<double,(nd+2)*nd> b; for (int v=0;v<nd+2;v++) { a[v] = dW[v]; for (int q=0;q<nd;q++) b[v*nd+q] = g[v][q]; } o.dW.push_back(a); o.g.push_back(b); }
  return o;
}
template<int nd> Out<nd> limited(int lim, bool edge, const Case<nd>& k, double f) {
  switch (lim) { case NUL: return apply<nd>(NullLimiter<nd>(), k, f); case ZERO: return apply<nd>(ZeroSlopeLimiter<nd>(), k, f); case TVD: case TESS: return apply<nd>(TVDScalarLimiter<nd>(edge), k, f);
    case SCALAR: case BALSARA: return apply<nd>(ScalarLimiter<nd>(edge), k, f); case SPRINGEL: return apply<nd>(Springel2009Limiter<nd>(edge), k, f); default: return apply<nd>(GizmoLimiter<nd>(), k, f); }
}
template<int nd> void unit(Ctx& c) {
  int lim = c.pick({NUL, ZERO, TVD, SCALAR, SPRINGEL, GIZMO}); bool edge = lim == TVD || lim == SCALAR || lim == SPRINGEL ? c.choose(2, "limited at the faces") : true; int n = 1 + c.choose(c.thorough ? 3 : 2, "neighbours"); double f = edge ? 0.5 : 1.0;
  Case<nd> k; k.i.h = c.pick({0.3, 0.9}); for (int q=0;q<3;q++) k.i.r[q] = 0.25*(q+1); static const double W[] = {2, 1, 2.5, 0.125, 7}; double wi = c.pick({1.0, 2.0}); std::vector<double> w; std::vector<std::vector<double>> d; 
  for (int j=0;j<n;j++) { P<nd> p; p.h = 0.5; int dir = c.choose(nd == 1 ? 4 : 8, "place"); double s = dir & 1 ? 1 : -1, len = dir & 2 ? 1 : 0.4; double u[3] = {1, 0, 0}; if (nd > 1 && (dir & 4)) { u[0] = 0.28; u[1] = -0.96; } std::vector<double> dd; for (int q=0;q<3;q++) dd.push_back(s*len*u[q]); d.push_back(dd); for (int q=0;q<3;q++) p.r[q] = k.i.r[q] + dd[q]; w.push_back(W[c.choose(5, "value")]); k.n.push_back(p); }
  double g = c.pick({0.0, 0.5, -0.5, 3.0, -3.0, 40.0}), g2 = nd > 1 ? c.pick({0.0, 1.0, -5.0}) : 0; c.interesting();
  for (int v=0;v<nd+2;v++) { double m = (v+1)*(v%2 ? -1 : 1); k.i.Wprim[v] = m*wi; for (int q=0;q<nd;q++) k.i.grad[v][q] = m*(q == 0 ? g : q == 1 ? g2 : 0); for (int j=0;j<n;j++) k.n[j].Wprim[v] = m*w[j]; }
  Out<nd> o = limited<nd>(lim, edge, k, f);
  for (int v=0;v<nd+2;v++) { double wmin = k.i.Wprim[v], wmax = wmin, e = 1e-12*(1+fabs(v+1.0))*50; for (auto& p : k.n) { wmin = lo(wmin, p.Wprim[v]); wmax = hi(wmax, p.Wprim[v]); } bool flat = wmin == wmax;
    c.check(lim == ZERO || (o.alpha[v] >= 0 && o.alpha[v] <= 1), "alpha", "%s %dD: factor %g is not between zero and one", LIM[lim], nd, o.alpha[v]); if (c.failed) return;
    for (int j=0;j<n;j++) { P<nd>& p = k.n[j]; double face = k.i.Wprim[v] + o.dW[j][v], full = 0; for (int q=0;q<nd;q++) full += k.i.grad[v][q]*f*d[j][q];
      char t[200]; snprintf(t, 200, "%s %dD (%s): W=%g gradient %g,%g, value %g at (%g,%g): face value %g", LIM[lim], nd, edge ? "faces" : "particles", k.i.Wprim[v], k.i.grad[v][0], nd > 1 ? k.i.grad[v][nd-1] : 0., p.Wprim[v], d[j][0], d[j][1], face);
      if (lim == ZERO) c.check(o.dW[j][v] == 0, "zero", "%s", t);
      if (lim == NUL) c.check(fabs(o.dW[j][v]-full) <= e, "null", "%s, expected %g", t, k.i.Wprim[v]+full);
      if (lim != GIZMO && lim != ZERO) { c.check(fabs(o.dW[j][v]-o.alpha[v]*full) <= e, "reconstruct", "%s is not the limited slope", t); for (int q=0;q<nd;q++) c.check(fabs(o.g[j][v*nd+q]-o.alpha[v]*k.i.grad[v][q]) <= e, "slope", "%s: limited slope %g, factor %g", t, o.g[j][v*nd+q], o.alpha[v]); }
      if (lim == TVD) c.check(face >= lo(k.i.Wprim[v], p.Wprim[v])-e && face <= hi(k.i.Wprim[v], p.Wprim[v])+e, "pair", "%s is outside the pair's values", t);
      if (lim == SCALAR || lim == SPRINGEL) c.check(face >= wmin-e && face <= wmax+e, "range", "%s is outside %g to %g", t, wmin, wmax);
      if (lim == GIZMO) { double del = fabs(p.Wprim[v]-k.i.Wprim[v]), a = lo(k.i.Wprim[v], p.Wprim[v])-0.5*del, b = hi(k.i.Wprim[v], p.Wprim[v])+0.5*del; c.check(face >= a-e && face <= b+e, "pairwise", "%s is outside %g to %g", t, a, b);
        c.check(k.i.Wprim[v] < 0 || face > 0, "sign", "%s has the other sign", t); c.check(k.i.Wprim[v] > 0 || face < 0, "sign", "%s has the other sign", t); }
      if (flat && lim != NUL) c.check(fabs(o.dW[j][v]) <= e, "constant", "%s in a constant field", t);
      if (lim != NUL && (lim != GIZMO)) c.check(fabs(o.dW[j][v]) <= fabs(full)+e, "steeper", "%s is steeper than the gradient", t);
      c.check(fabs(o.dW[j][v]-(v+1)*(v%2 ? -1 : 1)*o.dW[j][0]) <= e, "symmetric", "%s: the mirrored and scaled field is limited differently (%g, %g)", t, o.dW[j][v], o.dW[j][0]);
      if (c.failed) return; } }
  // a field whose values are those of the gradient is not limited where the limiter looks only at values that are reconstructed
  if (lim == TVD || lim == SPRINGEL) { for (int v=0;v<nd+2;v++) for (int j=0;j<n;j++) { k.n[j].Wprim[v] = k.i.Wprim[v]; for (int q=0;q<nd;q++) k.n[j].Wprim[v] += k.i.grad[v][q]*d[j][q]; } o = limited<nd>(lim, edge, k, f); bool both = true; if (lim == SPRINGEL && !edge) both = true; for (int v=0;v<nd+2;v++) c.check(!both || o.alpha[v] > 1-1e-9, "linear", "%s %dD: a linear field is limited by %g", LIM[lim], nd, o.alpha[v]); }
  c.step();
}
SCENARIO(limit1, 4, "1D: every limiter on every neighbourhood of 1-2 (3) neighbours x values x gradients") { unit<1>(c); }
SCENARIO(limit2, 4, "2D: the same") { unit<2>(c); }
SCENARIO(limit3, 4, "3D: the same") { unit<3>(c); }

// ---- the real gradient loop
static const int NX[] = {0, 6, 4, 4};
template<int nd> struct World {
  sim::Sim<nd> X; int N; MeshlessFV<nd>* m; MeshlessFVSimulation<nd>* s; bool ok = true;
  static sim::Opts opts(int lim, bool quintic, int bound, bool rk, const char* tree) { sim::Opts o; o.S("slope_limiter", LIM[lim]).S("kernel", quintic ? "quintic" : "m4").S("gas_eos", "energy_eqn").S("neib_search", tree).I("Nleafmax", 3).S("sim", rk ? "mfvrk" : "mfvmuscl").S("riemann_solver", "exact").I("zero_mass_flux", 0); for (int k=0;k<nd;k++) o.box(k, 0.0, bound == 1 ? 1.0*pnx(quintic) : 1.0*NX[nd], bound == 0 ? "open" : bound == 1 ? "periodic" : "mirror", bound == 0 ? "open" : bound == 1 ? "periodic" : "mirror"); return o; }
  static int pnx(bool quintic) { return nd == 1 ? (quintic ? 20 : 14) : NX[nd]; }
  World(int lim, bool quintic, int bound, bool rk, const char* tree, const std::vector<std::array<double,3>>& r, std::function<sim::Body(int)> b) : X(rk ? "mfvrk" : "mfvmuscl", opts(lim, quintic, bound, rk, tree), r.size(), 0), N(r.size()) {
    for (int i=0;i<N;i++) { sim::Body y = b(i); for (int k=0;k<nd;k++) y.r[k] = r[i][k]; y.h = 1.5; X.set(i, y); }
    try { X.setup(); } catch (GandalfError& e) { if (e.msg.find("too large") == std::string::npos) throw; ok = false; return; }
    m = static_cast<MeshlessFV<nd>*>(&X.hydro()); s = static_cast<MeshlessFVSimulation<nd>*>(X.sim); }
  MeshlessFVParticle<nd>& p(int i) { return m->GetMeshlessFVParticlePointer(i); }
};
template<int nd> std::vector<std::array<double,3>> places(Ctx& c) {
  std::vector<std::array<double,3>> r; 
  if (nd == 1) { double x = 0.5; for (int i=0;i<6;i++) { r.push_back({x, 0, 0}); if (i < 5) x += i == 4 ? 1.0 : c.pick({0.6, 1.0, 1.7}); } return r; }
  int n = NX[nd]; static const double J[9][3] = {{0,0,0},{0.3,0,0.1},{-0.2,0.3,0},{0,-0.4,0.2},{0.25,0.25,-0.3},{0.1,-0.1,0.4},{-0.45,0,0},{0,0.45,-0.2},{-0.3,-0.3,-0.3}};
  int sh = c.choose(2, "lattice"), a = c.choose(9, "shift of one"), b = c.choose(9, "shift of another"), drop = c.choose(2, "one left out");
  for (int i=0;i<(nd == 2 ? n*n : n*n*n);i++) { int x = i%n, y = i/n%n, z = i/n/n; std::array<double,3> p = {x+0.5+(sh && y%2 ? 0.4 : 0), y+0.5+(sh && nd == 3 && z%2 ? 0.3 : 0), nd == 3 ? z+0.5 : 0}; bool A = nd == 2 ? (x == 1 && y == 1) : (x == 1 && y == 1 && z == 1), B = nd == 2 ? (x == 2 && y == 1) : (x == 2 && y == 1 && z == 2); if (A) for (int k=0;k<nd;k++) p[k] += J[a][k]; if (B) for (int k=0;k<nd;k++) p[k] += J[b][k]; if (drop && x == 0 && y == 2 && z == 0) continue; r.push_back(p); }
  return r;
}
template<int nd> void grads(Ctx& c) {
  Quiet q; int lim = c.pick({NUL, TVD, TESS, SCALAR, BALSARA, SPRINGEL, GIZMO, ZERO}); bool quintic = nd < 3 && c.flip(); const char* tree = c.choose(nd == 1 ? 1 : 2, "tree") ? "bruteforce" : "kdtree"; if (!strcmp(tree, "bruteforce")) tree = "octtree"; bool rk = nd == 1 && c.flip();
  std::vector<std::array<double,3>> r = places<nd>(c); int N = r.size(); int field = c.choose(6, "field");   // constant, linear along x / a diagonal, step, peak, checkers
  World<nd> w(lim, quintic, 0, rk, tree, r, [&](int i) { sim::Body b; b.m = 1+0.2*(i%3); b.u = 1; return b; }); if (!w.ok) c.prune(); c.interesting();
  auto f = [&](int i, int v) { double m = (v+1)*(v%2 ? -0.5 : 1), x = r[i][0], s = x; double dir[3] = {1, v%2 ? -0.7 : 0.4, 0.3*(v-1)}; if (field == 2) { s = 0; for (int k=0;k<nd;k++) s += dir[k]*r[i][k]; } 
    return 10*m + m*(field == 0 ? 0 : field == 1 ? x : field == 2 ? s : field == 3 ? (x > 2.2 ? 3 : 0) : field == 4 ? (i == N/2 ? 5 : 0) : (i%2 ? 1 : -1)); };
  for (int i=0;i<N;i++) { auto& p = w.p(i); for (int v=0;v<nd+2;v++) { p.Wprim[v] = f(i, v); p.alpha_slope[v] = NAN; for (int k=0;k<nd;k++) p.grad[v][k] = NAN; } p.flags.set(active); if (!(p.h < 10)) c.prune(); }
  w.s->mfvneib->UpdateActiveParticleCounters(w.m); w.s->mfvneib->UpdateGradientMatrices(w.m, w.X.sim->nbody, w.X.sim->simbox);
  SmoothingKernel<nd>* K = w.m->kernp;
  for (int i=0;i<N;i++) { auto& p = w.p(i); double E[3][3] = {{0}}, R = K->kernrange; std::vector<int> nb, gather;
    for (int j=0;j<N;j++) { if (j == i) continue; double d2 = 0; for (int k=0;k<nd;k++) d2 += (r[j][k]-r[i][k])*(r[j][k]-r[i][k]); double h = hi(p.h, w.p(j).h); if (d2 < R*R*h*h*(1+1e-9)) nb.push_back(j); if (d2 < R*R*p.h*p.h) { gather.push_back(j); double wt = K->w0_s2(d2/p.h/p.h); for (int a=0;a<nd;a++) for (int b=0;b<nd;b++) E[a][b] += wt*(r[j][a]-r[i][a])*(r[j][b]-r[i][b]); } }
    // condition of the moment matrix, from its eigenvalues by Jacobi rotations
    double M[3][3]; memcpy(M, E, sizeof M); for (int it=0;it<60;it++) for (int a=0;a<nd;a++) for (int b=a+1;b<nd;b++) { if (M[a][b] == 0) continue; double th = 0.5*atan2(2*M[a][b], M[a][a]-M[b][b]), cs = cos(th), sn = sin(th); for (int k=0;k<nd;k++) { double x = M[k][a], y = M[k][b]; M[k][a] = cs*x+sn*y; M[k][b] = -sn*x+cs*y; } for (int k=0;k<nd;k++) { double x = M[a][k], y = M[b][k]; M[a][k] = cs*x+sn*y; M[b][k] = -sn*x+cs*y; } }
    double s1 = 0, s2 = 0; bool sing = false; for (int k=0;k<nd;k++) { if (!(M[k][k] > 1e-14)) { sing = true; break; } s1 += M[k][k]*M[k][k]; s2 += 1/(M[k][k]*M[k][k]); } double cond = sing ? 1e30 : s1*s2/(nd*nd);
    bool regular = cond < 9e3;
    for (int v=0;v<nd+2;v++) { double m = (v+1)*(v%2 ? -0.5 : 1), dir[3] = {1, v%2 ? -0.7 : 0.4, 0.3*(v-1)}; double scale = 10*fabs(m);
      for (int k=0;k<nd;k++) { double g = p.grad[v][k]; c.check(std::isfinite(g), "finite", "%dD %s: gradient of variable %d of particle %d is %g", nd, LIM[lim], v, i, g); if (c.failed) return;
        if (field == 0) c.near("constant", "gradient of a constant field", g, 0.0, 1e-12, scale);
        if (regular && (field == 1 || field == 2)) c.near("linear", "gradient of a linear field", g, field == 1 ? (k == 0 ? m : 0) : m*dir[k], 1e-10, 2*scale);
        if (c.failed) return; }
      if (lim != ZERO) c.check(p.alpha_slope[v] >= 0 && p.alpha_slope[v] <= 1, "alpha", "%dD %s: factor %g", nd, LIM[lim], p.alpha_slope[v]);
      if (lim == ZERO || lim == NUL || lim == GIZMO) continue;
      double wmin = f(i, v), wmax = wmin; for (int j : nb) { wmin = lo(wmin, f(j, v)); wmax = hi(wmax, f(j, v)); }
      for (int j : nb) { double face = f(i, v); for (int k=0;k<nd;k++) face += 0.5*p.alpha_slope[v]*p.grad[v][k]*(r[j][k]-r[i][k]); double a = wmin, b = wmax, e = 1e-10*scale; if (lim == TVD || lim == TESS) { a = lo(f(i, v), f(j, v)); b = hi(f(i, v), f(j, v)); }
        c.check(face >= a-e && face <= b+e, "extrema", "%dD %s: the face value %g of particle %d towards %d is outside %g to %g", nd, LIM[lim], face, i, j, a, b); if (c.failed) return; }
      if (regular && field > 0 && field < 3 && (lim == TVD || lim == TESS || lim == SPRINGEL)) { bool level = false; for (int j : nb) if (fabs(f(j, v)-f(i, v)) < 1e-6*scale) level = true; if (level) continue;   // along its own level lines a field may be limited to nothing by rounding
        c.check(p.alpha_slope[v] > 1-1e-6, "unlimited", "%dD %s: a linear field is limited by %g (variable %d, particle %d)", nd, LIM[lim], p.alpha_slope[v], v, i); if (c.failed) return; } }
    c.step(); }
}
SCENARIO(grad1, 4, "1D: the gradient loop on every spacing pattern x fields x limiters x kernels x schemes") { grads<1>(c); }
SCENARIO(grad2, 4, "2D: the gradient loop on distorted lattices x fields x limiters x kernels x trees") { grads<2>(c); }
SCENARIO(grad3, 4, "3D: the same") { if (!c.thorough && c.choose(2, "half")) c.prune(); grads<3>(c); }

// ---- constant and jumping states through a whole step
template<int nd> void flux(Ctx& c) {
  Quiet q; int lim = c.pick({NUL, TVD, SCALAR, SPRINGEL, GIZMO, ZERO}); bool rk = c.flip(); int bound = c.choose(3, "boundaries"); bool hllc = c.flip(); (void) hllc; int n = nd == 1 ? 14 : nd == 2 ? 8 : 6; int N = 1; for (int k=0;k<nd;k++) N *= n; double vel = bound == 2 ? 0 : c.pick({0.0, 0.7}), u = c.pick({1e-3, 1.0, 50.0});
  sim::Opts o = World<nd>::opts(lim, false, bound, rk, "kdtree"); o.S("riemann_solver", hllc && !rk ? "hllc" : "exact"); for (int k=0;k<nd;k++) o.box(k, 0.0, 1.0*n, bound == 0 ? "open" : bound == 1 ? "periodic" : "mirror", bound == 0 ? "open" : bound == 1 ? "periodic" : "mirror"); o.F("h_fac", nd == 3 ? 0.7 : 1.0).F("h_converge", 1e-10);
  sim::Sim<nd> X(rk ? "mfvrk" : "mfvmuscl", o, N, 0); for (int i=0;i<N;i++) { sim::Body b; int x = i; for (int k=0;k<nd;k++) { b.r[k] = x%n+0.5; x /= n; b.v[k] = vel*(k+1); } b.m = 1; b.u = u; b.h = 1.2; X.set(i, b); }
  try { X.setup(); } catch (GandalfError& e) { if (e.msg.find("too large") == std::string::npos) throw; c.prune(); } c.interesting();
  MeshlessFV<nd>* m = static_cast<MeshlessFV<nd>*>(&X.hydro()); if (bound == 0) c.prune(); 
  for (int i=0;i<N;i++) { auto& p = m->GetMeshlessFVParticlePointer(i); for (int v=0;v<nd+2;v++) { for (int k=0;k<nd;k++) c.near("uniform-gradient", "gradient in a uniform medium", p.grad[v][k], 0.0, v < nd ? 1e-12 : 1e-7, 1+50+vel*3); p.dQ[v] = 0; } if (c.failed) return; }
  double u0 = m->GetMeshlessFVParticlePointer(0).u; 
  for (int s=0;s<2;s++) { X.step(); double moved = 0; (void) moved; for (int i=0;i<N;i++) { auto& p = m->GetMeshlessFVParticlePointer(i); c.near("uniform-mass", "mass of a particle in a uniform medium", p.m, 1.0, 1e-8, 1.0); c.near("uniform-energy", "internal energy in a uniform medium", p.u, u0, 1e-8, u0+vel*vel); for (int k=0;k<nd;k++) c.near("uniform-velocity", "velocity in a uniform medium", p.v[k], vel*(k+1), 1e-8, 1+sqrt(u0)); if (c.failed) return; } c.step(); }
}
SCENARIO(uniform1, 3, "1D: uniform media at rest and moving stay uniform: limiters x schemes x boundaries x solvers x temperatures") { flux<1>(c); }
SCENARIO(uniform2, 3, "2D: the same") { flux<2>(c); }
SCENARIO(uniform3, 3, "3D: the same") { if (!c.thorough && c.choose(2, "half")) c.prune(); flux<3>(c); }

// jumps: reconstructed states stay positive (the code asserts it) and finite
template<int nd> void jumps(Ctx& c) {
  Quiet q; int lim = c.pick({TVD, SCALAR, SPRINGEL, GIZMO, ZERO}), pat = c.choose(4, "pattern"); double ju = c.pick({0.001, 0.3, 30.0, 1e4}), jm = c.pick({0.1, 1.0, 20.0}), jv = c.pick({-3.0, 0.0, 3.0}); bool st = c.flip(); int n = nd == 1 ? 16 : 8, N = nd == 1 ? n : n*n;
  sim::Opts o = World<nd>::opts(lim, false, 0, false, "kdtree"); o.I("static_particles", st); for (int k=0;k<nd;k++) o.box(k, 0.0, 1.0*n, "periodic", "periodic");
  sim::Sim<nd> X("mfvmuscl", o, N, 0); for (int i=0;i<N;i++) { sim::Body b; int x = i%n, y = i/n; b.r[0] = x+0.5; if (nd > 1) b.r[1] = y+0.5; bool on = pat == 0 ? x >= n/2 : pat == 1 ? (x+y)%2 : pat == 2 ? x == n/2 && (nd == 1 || y == n/2) : x%4 < 2; b.m = on ? jm : 1; b.u = on ? ju : 1; b.v[0] = on ? jv : 0; b.h = 1.2; X.set(i, b); }
  try { X.setup(); } catch (GandalfError& e) { if (e.msg.find("too large") == std::string::npos) throw; c.prune(); } c.interesting(); double h = 0;
  MeshlessFV<nd>* m = static_cast<MeshlessFV<nd>*>(&X.hydro()); double range = m->kernp->kernrange;
  for (int i=0;i<N;i++) { auto& p = m->GetMeshlessFVParticlePointer(i); h = p.h; (void) h; for (int j=0;j<N;j++) { if (i == j) continue; auto& o = m->GetMeshlessFVParticlePointer(j); double d[3], d2 = 0; for (int k=0;k<nd;k++) { d[k] = o.r[k]-p.r[k]; d[k] -= n*round(d[k]/n); d2 += d[k]*d[k]; } double hm = hi(p.h, o.h); if (d2 >= range*range*hm*hm) continue;
      for (int v=nd;v<nd+2;v++) { double face = p.Wprim[v]; if (lim == ZERO) continue; if (lim == GIZMO) continue; for (int k=0;k<nd;k++) face += 0.5*p.alpha_slope[v]*p.grad[v][k]*d[k]; c.check(face > 0, "positive", "%dD %s: %s %g of particle %d gives %g at the face", nd, LIM[lim], v == nd ? "density" : "pressure", p.Wprim[v], i, face); if (c.failed) return; } } }
  DomainBox<nd>& box = X.sim->simbox; static_cast<MeshlessFVSimulation<nd>*>(X.sim)->mfvneib->UpdateGodunovFluxes(X.sim->timestep, m, X.sim->nbody, box);
  for (int i=0;i<N;i++) { auto& p = m->GetMeshlessFVParticlePointer(i); for (int v=0;v<nd+2;v++) c.check(std::isfinite(p.dQ[v]) && std::isfinite(p.dQdt[v]), "flux-finite", "%dD %s: flux %g", nd, LIM[lim], p.dQ[v]); if (c.failed) return; } c.step();
}
SCENARIO(jumps1, 3, "1D: jumps of density, pressure and velocity: reconstructed states positive, fluxes finite") { jumps<1>(c); }
SCENARIO(jumps2, 3, "2D: the same") { jumps<2>(c); }
int main(int a, char** v) { return mc::main(a, v); }
