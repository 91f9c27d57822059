// C07: real meshless runs (both integrators) in closed boxes with the requested timesteps chosen exhaustively: the total of what the
// particles hold plus the exchanges in flight is compared after every step; runs on re-ordered, reflected and differently indexed
// particles and on other trees are compared with each other.
#include "sim.hpp"
#include "Integration.h"
#include "MfvNeighbourSearch.h"
using namespace mc;
namespace {
std::string fmt(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
template<class O, class M, class F> void hook(O* obj, M method, F* repl) {
  long off; memcpy(&off, &method, sizeof off); off -= 1; void**& vt = *(void***) obj; static std::vector<void**> keep;
  void** nt = new void*[130]; keep.push_back(nt); for (int i=-2;i<100;i++) nt[i+2] = vt[i]; nt[2+off/sizeof(void*)] = (void*) repl; vt = nt+2;
}
const double OPT[4] = {1.0, 0.5, 0.3, 0.12};
// requested steps: by particle identity and number of the request
struct Script { Ctx* c = nullptr; int free = 0, nopt = 3; uint64_t seed = 1; double base = 0.004; std::vector<int> nreq; std::map<std::pair<int,int>,int> o; std::vector<int> id;
  double ask(int iorig) { int who = iorig >= 0 && iorig < (int) id.size() ? id[iorig] : 0, k = nreq[who]++; auto key = std::make_pair(who, k); auto it = o.find(key);
    if (it == o.end()) { int x; if (free > 0 && c) { free--; x = c->choose(nopt, "requested step"); } else { uint64_t h = (seed+1)*0x9E3779B97F4A7C15ull + who*0xBF58476D1CE4E5B9ull + k*0x94D049BB133111EBull; h ^= h>>29; h *= 0xBF58476D1CE4E5B9ull; h ^= h>>32; x = seed ? h%nopt : 0; } it = o.insert({key, x}).first; }
    return base*OPT[it->second]; } } G;
template<int nd> double req(void*, Particle<nd>& p, Hydrodynamics<nd>*) { return G.ask(p.iorig); }
enum { PER, MIR, WAL, MW };
const char* BL[] = {"periodic","mirror","wall","mirror"}; const char* BR[] = {"periodic","mirror","wall","wall"};
struct Cfg { int ty = 0, riem = 0, zmf = 0, lim = 5, bound[3] = {0,0,0}, tree = 0, leaf = 2, Nlev = 3, eos = 0, stat = 0, visc = 0, kern = 0; };
const char* LIM[] = {"null","zeroslope","tvdscalar","scalar","springel2009","gizmo"};
const char* TREE[] = {"kdtree","octtree","bruteforce"};
template<int nd> sim::Opts opts(const Cfg& f, double hfac) {
  sim::Opts o; for (int k=0;k<nd;k++) o.box(k, 0.0, 1.0, BL[f.bound[k]], BR[f.bound[k]]);
  o.S("neib_search", TREE[f.tree]).I("Nleafmax", f.leaf).S("riemann_solver", f.riem ? "hllc" : "exact").I("zero_mass_flux", f.zmf).S("slope_limiter", LIM[f.lim]).I("Nlevels", f.Nlev).F("h_fac", hfac).S("gas_eos", f.eos == 1 ? "isothermal" : "energy_eqn").I("static_particles", f.stat).F("gamma_eos", 1.4).S("kernel", f.kern ? "quintic" : "m4");
  if (f.visc) o.F("shear_visc", 0.01).F("bulk_visc", 0.005);
  o.F("h_converge", 1e-12).I("ntreebuildstep", 1).I("ntreestockstep", 1); return o;
}
template<int nd> struct Set { std::vector<sim::Body> b; double h; };
// a lattice of n^nd particles, moved and given velocities, densities and energies by patterns
template<int nd> Set<nd> lattice(int n, int geo, int vel, int st, double hfac) {
  Set<nd> s; int N = 1; for (int k=0;k<nd;k++) N *= n; s.h = hfac/n;
  for (int i=0;i<N;i++) { sim::Body b; int x = i, q[3]; for (int k=0;k<nd;k++) { q[k] = x%n; x /= n; }
    for (int k=0;k<nd;k++) { double w = geo == 0 ? 0 : geo == 1 ? 0.18*sin(1.7*i+2.3*k) : 0.12*((i*7+k*3)%5-2)/2.0 + 0.1*(k == 0 && i%2) + 0.02*sin(1.0+i*i+3*k); b.r[k] = (q[k]+0.5+w)/n; 
      b.v[k] = vel == 0 ? 0 : vel == 1 ? 0.4*sin(6.283185307179586*(b.r[k])+k) : (i%2 ? 0.5 : -0.4) + 0.2*k; }
    b.m = (st == 2 ? (i%3 ? 1.0 : 2.0) : 1.0)/N; b.u = st == 0 ? 1.0+0.01*sin(1+i*i) : st == 1 ? 1 + 0.5*sin(6.28*b.r[0]+1) : (i%4 == 0 ? 3.0 : 0.8); b.h = s.h; s.b.push_back(b); }
  return s;
}
template<int nd> struct Go {
  Cfg f; sim::Sim<nd> S; int N; std::vector<int> who;    // who[i]: identity of the i-th particle handed in
  MeshlessFV<nd>* m; 
  Go(const Cfg& f, const Set<nd>& s, const std::vector<int>& order, int flip, double hfac) : f(f), S(f.ty ? "mfvrk" : "mfvmuscl", opts<nd>(f, hfac), s.b.size(), 0), N(s.b.size()), who(order) {
    for (int i=0;i<N;i++) { sim::Body b = s.b[order[i]]; for (int k=0;k<nd;k++) if (flip>>k&1) { b.r[k] = 1-b.r[k]; b.v[k] = -b.v[k]; } S.set(i, b); }
    m = static_cast<MeshlessFV<nd>*>(&S.hydro()); S.sim->initial_h_provided = true;
    G.nreq.assign(N, 0); G.id = who; hook(S.sim->hydroint, &TimeIntegration<nd>::Timestep, &req<nd>); S.setup(); }
  MeshlessFVParticle<nd>& p(int i) { return m->GetMeshlessFVParticlePointer(i); }
  void total(double* T, double* A) { for (int v=0;v<nd+2;v++) { T[v] = A[v] = 0; for (int i=0;i<N;i++) { double q = p(i).Qcons0[v] + p(i).dQ[v]; T[v] += q; A[v] += fabs(q) + fabs(p(i).dQ[v]); } } }
};
std::string cname(const Cfg& f, int nd) { std::string s = fmt("%dD %s %s%s%s limiter %s, %s leaf %d, %d levels%s%s%s, ", nd, f.ty ? "rk" : "muscl", f.riem ? "hllc" : "exact", f.zmf ? " mfm" : "", f.eos ? " isothermal" : "", LIM[f.lim], TREE[f.tree], f.leaf, f.Nlev, f.stat ? " static" : "", f.visc ? " viscous" : "", f.kern ? " quintic" : ""); for (int k=0;k<nd;k++) s += std::string(k ? "x" : "") + BL[f.bound[k]] + "/" + BR[f.bound[k]]; return s; }
template<int nd> bool checkq(Ctx& c, Go<nd>& g, const double* T0, const double* scale, int step) {
  double T[5], A[5]; g.total(T, A);
  for (int v=0;v<nd+2;v++) { if (v < nd && g.f.bound[v] != PER) continue; if (v == nd+1 && g.f.eos) continue;
    double tol = 3e-13*std::max(A[v], scale[v]); if (!(fabs(T[v]-T0[v]) <= tol)) { c.fail(v < nd ? "momentum" : v == nd ? "mass" : "energy", "total %s %d after step %d is %.17g, it was %.17g (n %d of %d)", v < nd ? "momentum" : v == nd ? "mass" : "energy", v, step, T[v], T0[v], g.S.sim->n, g.S.sim->nresync); return false; } }
  for (int i=0;i<g.N;i++) { if (!(g.p(i).m > 0 && std::isfinite(g.p(i).u) && std::isfinite(g.p(i).v[0]))) { c.prune(); return false; }
    if (g.f.zmf && fabs(g.p(i).Qcons0[nd] + g.p(i).dQ[nd] - g.p(i).Qcons0[nd]) > 1e-15) { c.fail("mfm", "particle %d exchanged mass %.3g", i, (double) g.p(i).dQ[nd]); return false; } }
  return true;
}
// a smoothing length too large for the box is refused by the code: not a case
template<class F> void run(Ctx& c, F f) { try { f(); } catch (GandalfError& e) { if (e.msg.find("Smoothing length too large") == std::string::npos) throw; c.prune(); } }
template<int nd> void conserve(Ctx& c, int n, double hfac, int steps) {
  Cfg f; int thin = nd > 1 && !c.thorough;
  f.ty = c.choose(2, "scheme"); int bc = c.choose(nd == 1 ? 4 : 5, "boundaries"); for (int k=0;k<nd;k++) f.bound[k] = bc < 4 ? (k == 0 || bc < 2 ? bc : PER) : (k%2 ? PER : MIR); 
  int variant = c.choose(thin ? 6 : 10, "variant");   // which option differs from the defaults
  switch (variant) { case 0: break; case 1: f.riem = 1; break; case 2: f.zmf = 1; f.riem = 1; break; case 3: f.lim = 3; break; case 4: f.tree = 1; f.lim = 4; break; case 5: f.visc = 1; f.leaf = 4; break; case 6: f.eos = 1; f.riem = 1; break; case 7: f.zmf = 1; f.lim = 0; break; case 8: f.tree = 2; f.lim = 1; break; case 9: f.lim = 2; f.stat = 1; break; }
  f.Nlev = 1 + 2*c.choose(2, "levels"); int geo = c.choose(3, "positions"), vel = c.choose(3, "velocities"), st = c.choose(3, "states"); 
  if (f.lim == 0 && (geo == 2 || vel == 2 || st == 2)) c.prune();
  if (!c.thorough) { if (nd == 1 && (geo+vel+st+variant)%2) c.prune(); if (nd > 1 && ((geo+vel+st+variant+bc+f.ty)%(nd == 2 ? 3 : 6) || vel == 0)) c.prune(); }
  G.c = &c; G.o.clear(); G.seed = 1; G.nopt = f.Nlev > 1 ? 4 : 1; G.free = f.Nlev > 1 ? nd > 1 ? 1 : c.thorough ? 4 : 2 : 0; G.base = 0.025/n; 
  if (f.Nlev > 1) G.seed = 1 + c.choose(nd > 1 ? 2 : 3, "continuation");
  c.describe(cname(f, nd) + fmt(", %d^%d particles, positions %d velocities %d states %d", n, nd, geo, vel, st));
  Set<nd> s = lattice<nd>(n, geo, vel, st, hfac); std::vector<int> id(s.b.size()); for (size_t i=0;i<id.size();i++) id[i] = i;
  Go<nd> g(f, s, id, 0, hfac); double T0[5] = {0,0,0,0,0}, sc[5] = {0,0,0,0,0};
  for (auto& b : s.b) { double e = b.m*b.u; for (int k=0;k<nd;k++) { T0[k] += b.m*b.v[k]; sc[k] += b.m*(fabs(b.v[k])+1); e += 0.5*b.m*b.v[k]*b.v[k]; } T0[nd] += b.m; sc[nd] += b.m; T0[nd+1] += e; sc[nd+1] += e; }
  if (!checkq<nd>(c, g, T0, sc, 0)) return; bool moved = false, mixed = false;
  for (int t=1;t<=steps && !c.failed;t++) { g.S.step(); c.step(); if (!checkq<nd>(c, g, T0, sc, t)) return; int l0 = g.p(0).level; for (int i=0;i<g.N;i++) { if (g.p(i).level != l0) mixed = true; if (fabs(g.p(i).Qcons0[nd+1] - s.b[i].m*s.b[i].u) > 1e-9) moved = true; } }
  if (moved && (mixed || f.Nlev == 1)) c.interesting();
  uint64_t h = 0; for (int i=0;i<g.N;i++) h = h*31 + g.p(i).level; c.state(h);
}
SCENARIO(conserve1, 5, "1D closed boxes: options x states x every start of the sequence of requested steps") { run(c, [&] { conserve<1>(c, 9, 0.8, 16); }); }
SCENARIO(conserve2, 4, "2D closed boxes") { run(c, [&] { conserve<2>(c, 7, 0.8, 8); }); }
SCENARIO(conserve3, 4, "3D closed boxes") { if (!c.thorough) { /* small lattice */ } run(c, [&] { conserve<3>(c, 6, 0.74, c.thorough ? 8 : 4); }); }
// the same run with the particles handed over in another order, reflected, or looked up with another tree
template<int nd> void same(Ctx& c, int n, double hfac, int steps) {
  Cfg f; f.ty = c.choose(2, "scheme"); int bc = c.choose(3, "boundaries"); for (int k=0;k<nd;k++) f.bound[k] = bc == 2 ? (k == 0 ? MIR : PER) : bc;
  f.riem = c.choose(2, "riemann"); f.zmf = c.choose(2, "mass flux"); int l = c.choose(c.thorough ? 6 : 3, "limiter"); f.lim = c.thorough ? l : l*2+1; f.Nlev = 1 + 2*c.choose(2, "levels"); int geo = 1 + c.choose(2, "positions"), vel = 1 + c.choose(2, "velocities"), st = c.choose(3, "states");
  int how = c.choose(nd == 1 ? 6 : 5, "re-ordering"); if (!c.thorough && (geo+vel+st+how+l+f.riem+f.ty)%(nd == 1 ? 3 : nd == 2 ? 4 : 12)) c.prune();
  Set<nd> s = lattice<nd>(n, geo, vel, st, hfac); int N = s.b.size(); std::vector<int> id(N), ord(N); for (int i=0;i<N;i++) id[i] = i; ord = id; int flip = 0; Cfg f2 = f;
  switch (how) { case 0: for (int i=0;i<N;i++) ord[i] = N-1-i; break; case 1: for (int i=0;i<N;i++) ord[i] = (i*(N%5 ? 5 : 7)+2)%N; break; case 2: flip = 1; break; case 3: f2.tree = 1; f2.leaf = 6; break; case 4: f2.tree = 2; flip = nd > 1 ? 2 : 1; break; case 5: f2.leaf = 1; std::swap(ord[0], ord[1]); break; }
  { std::vector<char> seen(N, 0); for (int x : ord) { if (seen[x]) { c.fail("harness", "order"); return; } seen[x] = 1; } }
  G.c = &c; G.o.clear(); G.seed = f.Nlev > 1 ? 2 : 0; G.nopt = f.Nlev > 1 ? 4 : 1; G.free = f.Nlev > 1 && nd == 1 ? 1 : 0; G.base = 0.025/n; 
  c.describe(cname(f, nd) + fmt(", %d^%d particles, positions %d velocities %d states %d against %s%s", n, nd, geo, vel, st, how == 0 ? "reversed order" : how == 1 ? "shuffled order" : how == 2 ? "reflected" : how == 3 ? "oct-tree" : how == 4 ? "all pairs, reflected" : "leaves of one particle, two swapped", ""));
  std::vector<std::array<double,8>> A[2]; int fails = 0;
  for (int r=0;r<2;r++) { Go<nd> g(r ? f2 : f, s, r ? ord : id, r ? flip : 0, hfac); A[r].resize(N);
    for (int t=0;t<steps;t++) { g.S.step(); c.step(); } 
    for (int i=0;i<N;i++) { MeshlessFVParticle<nd>& p = g.p(i); if (!c.check(p.iorig == i, "order", "particle %d became %d", i, p.iorig)) return; auto& a = A[r][g.who[i]]; for (int k=0;k<nd;k++) { bool m = r && (flip>>k&1); a[k] = m ? 1-p.r[k] : p.r[k]; a[nd+k] = m ? -p.v[k] : p.v[k]; } a[2*nd] = p.m*N; a[2*nd+1] = p.u; if (!std::isfinite(p.u) || p.u <= 0) { c.prune(); return; } } }
  for (int i=0;i<N;i++) for (int k=0;k<2*nd+2;k++) { double d = fabs(A[0][i][k]-A[1][i][k]), tol = f.riem ? 2e-9 : 2e-6; if (k < nd && f.bound[k] == PER) d = std::min(d, fabs(d-1)); if (!(d <= tol*(1+fabs(A[0][i][k])))) { c.fail(k < nd ? "same-position" : k < 2*nd ? "same-velocity" : k == 2*nd ? "same-mass" : "same-energy", "particle %d: component %d is %.15g in one run and %.15g in the other after %d steps", i, k, A[0][i][k], A[1][i][k], steps); return; } }
  c.interesting();
}
// the exchange of a pair computed by either of the two
template<int nd> void pairs(Ctx& c, int n, double hfac) {
  Cfg f; f.ty = c.choose(2, "scheme"); f.riem = c.choose(2, "riemann"); f.zmf = c.choose(2, "mass flux"); f.lim = c.choose(6, "limiter"); f.visc = f.ty == 0 ? c.choose(2, "viscosity") : 0; f.stat = c.choose(2, "static"); f.Nlev = 1; int geo = c.choose(3, "positions"), vel = c.choose(3, "velocities"), st = c.choose(3, "states"), acc = c.choose(2, "accelerations");
  if (f.lim == 0 && (geo == 2 || vel == 2 || st == 2 || (nd == 3 && f.ty))) c.prune(); if (nd == 3 && !c.thorough && (geo+vel+st+acc+f.zmf+f.riem+f.lim)%5) c.prune();
  G.c = &c; G.o.clear(); G.seed = 0; G.free = 0; G.nopt = 1; G.base = 0.025/n; Set<nd> s = lattice<nd>(n, geo, vel, st, hfac); int N = s.b.size(); std::vector<int> id(N); for (int i=0;i<N;i++) id[i] = i;
  c.describe(cname(f, nd) + fmt(", exchanges of pairs, %d^%d particles, positions %d velocities %d states %d", n, nd, geo, vel, st)); Go<nd> g(f, s, id, 0, hfac); double dt = G.base; long m = 0;
  typedef typename MeshlessFVParticle<nd>::FluxParticle FP;
  for (int i=0;i<N;i++) for (int j=0;j<i;j++) { double d2 = 0; for (int k=0;k<nd;k++) { double d = g.p(i).r[k]-g.p(j).r[k]; d2 += d*d; } double rr = 2*std::max(g.p(i).h, g.p(j).h); if (d2 >= rr*rr) continue;
    double Q[2][2][5]; for (int w=0;w<2;w++) { MeshlessFVParticle<nd> a = w ? g.p(j) : g.p(i), b = w ? g.p(i) : g.p(j); a.nstep = 1; for (int v=0;v<nd+2;v++) a.dQ[v] = a.dQdt[v] = 0; if (acc) for (int k=0;k<nd;k++) { a.a[k] = 0.3*(w ? j%3 : i%3)-k; b.a[k] = 0.3*(w ? i%3 : j%3)-k; }
      std::vector<FP> v{FP(b)}; std::vector<int> ix{0}; NeighbourList<FP> L(ix, v); g.m->ComputeGodunovFlux(a, L, dt); c.step(); for (int q=0;q<nd+2;q++) { Q[w][0][q] = a.dQ[q]; Q[w][1][q] = v[0].dQ[q]; } }
    if (nd == 1 && f.lim == 1 && !acc && !f.visc) {   // without slopes the exchange is the solution of one Riemann problem between the two states, for the two schemes alike
      auto& a = g.p(i); auto& b = g.p(j); FLOAT W[2][5], un[3] = {1,0,0}, vf[3] = {f.stat ? 0 : 0.5*(a.v[0]+b.v[0]),0,0}, F[5][nd]; for (int q=0;q<nd+2;q++) { W[0][q] = a.Wprim[q]; W[1][q] = b.Wprim[q]; } if (f.ty) un[0] = a.r[0] < b.r[0] ? 1 : -1; else un[0] = a.r[0] < b.r[0] ? 1 : -1; for (int w=0;w<2;w++) W[w][0] -= vf[0];
      if (f.riem) { HllcRiemannSolver<nd> R(1.4, f.zmf, false); R.ComputeFluxes(W[0], W[1], un, vf, F); } else { ExactRiemannSolver<nd> R(1.4, f.zmf); R.ComputeFluxes(W[0], W[1], un, vf, F); }
      double sf = 0, sq = 0; for (int q=0;q<nd+2;q++) { sf = std::max(sf, fabs(F[q][0])); sq = std::max(sq, fabs(Q[0][0][q])); } for (int q=0;q<nd+2;q++) for (int u=0;u<q;u++) if (!(fabs(F[q][0]*Q[0][0][u] - F[u][0]*Q[0][0][q]) <= (f.riem ? 1e-10 : 3e-5)*sf*sq)) { c.fail("pair-flux", "pair %d,%d: exchanges %d and %d are %.15g and %.15g, not in the ratio of the fluxes %.15g and %.15g between the states of the two", i, j, u, q, Q[0][0][u], Q[0][0][q], (double) F[u][0], (double) F[q][0]); return; } }
    m++; for (int q=0;q<nd+2;q++) { double sc = 0; for (int u=0;u<nd+2;u++) sc = std::max(sc, fabs(Q[0][0][u])); double tol = (f.riem ? 1e-11 : 2e-5)*(sc + 1e-6*dt);
      if (fabs(Q[0][0][q]+Q[0][1][q]) > 1e-13*(sc+1e-9)) { c.fail("pair-sum", "pair %d,%d: exchange %d is %.15g on one side and %.15g on the other", i, j, q, Q[0][0][q], Q[0][1][q]); return; }
      if (!(fabs(Q[0][0][q]-Q[1][1][q]) <= tol)) { c.fail("pair-side", "pair %d,%d: exchange %d of %d is %.15g when %d carries it out and %.15g when %d does (dt %g)", i, j, q, i, Q[0][0][q], i, Q[1][1][q], j, dt); return; } } }
  if (m > 3) c.interesting();
}
SCENARIO(pairs1, 4, "1D: each pair's exchange from both sides") { run(c, [&] { pairs<1>(c, 9, 0.8); }); }
SCENARIO(pairs2, 4, "2D: each pair's exchange from both sides") { run(c, [&] { pairs<2>(c, 7, 0.8); }); }
SCENARIO(pairs3, 4, "3D: each pair's exchange from both sides") { run(c, [&] { pairs<3>(c, 6, 0.74); }); }
SCENARIO(same1, 5, "1D: re-ordered, reflected, other trees") { run(c, [&] { same<1>(c, 9, 0.8, 10); }); }
SCENARIO(same2, 5, "2D: re-ordered, reflected, other trees") { run(c, [&] { same<2>(c, 7, 0.8, 5); }); }
SCENARIO(same3, 5, "3D: re-ordered, reflected, other trees") {  run(c, [&] { same<3>(c, 6, 0.74, 3); }); }
}
int main(int a, char** v) { return mc::main(a, v); }
