// C06: gravity of the real SPH / MFV objects and of the Ewald class.  Grids of (arrangement x number x particle types x tree x leaf x
// opening criterion x multipole order x kernel): potentials and accelerations against direct softened sums, each walk's lists against
// the particles they stand for, multipole forces against the expansion of their contents, forces against gradients of the potential
// energy, stars against gas, periodic corrections against lattice sums computed in other ways.
#include "sim.hpp"
#include "SmoothingKernel.h"
#include "SphNeighbourSearch.h"
#include "MfvNeighbourSearch.h"
#include "Ghosts.h"
#include "KDTree.h"
#include "OctTree.h"
#include "BruteForceTree.h"
using namespace mc;
namespace {
std::string fmt(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
const char* TREE[] = {"kdtree","octtree","bruteforce"}; const char* KER[] = {"m4","quintic"}; const char* MULT[] = {"monopole","quadrupole","fast_monopole","fast_quadrupole"}; const char* MAC[] = {"geometric","eigenmac","gadget2"};
struct Cfg { int mfv = 0, ker = 0, tab = 0, tree = 0, leaf = 3, mult = 1, mac = 0, types = 0, Nstar = 0, hydro = 1, per = 0; double theta2 = 1e-10, macerr = 1e-4, conv = 1e-9, hfac = 1.2, L = 0; };
std::string cname(const Cfg& f) { return fmt("%s %s%s %s leaf %d %s %s theta^2 %g macerror %g types %d, %d stars%s%s", f.mfv == 0 ? "sph" : f.mfv == 1 ? "mfvmuscl" : "mfvrk", f.tab ? "tabulated " : "", KER[f.ker], TREE[f.tree], f.leaf, MULT[f.mult], MAC[f.mac], f.theta2, f.macerr, f.types, f.Nstar, f.hydro ? "" : " no hydro", f.per ? " periodic" : ""); }
template<int nd> sim::Opts opts(const Cfg& f) {
  sim::Opts o; o.S("neib_search", TREE[f.tree]).I("Nleafmax", f.leaf).F("h_fac", f.hfac).F("h_converge", f.conv).S("kernel", KER[f.ker]).I("tabulated_kernel", f.tab).S("gas_eos", "energy_eqn").S("avisc", "none").S("acond", "none").I("self_gravity", 1).I("hydro_forces", f.hydro).F("thetamaxsqd", f.theta2).F("macerror", f.macerr).S("multipole", MULT[f.mult]).S("gravity_mac", MAC[f.mac]).I("Nlevels", 1).I("ntreebuildstep", 1).I("ntreestockstep", 1).I("zero_mass_flux", 1);
  if (f.types == 2) o.S("dust_forces", "test_particle"); if (f.types == 3) o.S("dust_forces", "full_twofluid"); if (f.types > 1) o.S("drag_law", "fixed");
  if (f.per) { for (int k=0;k<nd;k++) o.box(k, 0.0, f.L, f.per>>k&1 ? "periodic" : "open", f.per>>k&1 ? "periodic" : "open"); o.I("gr_bhewaldseriesn", 3).I("nEwaldGrid", 4).I("in", 30); }
  return o;
}
// arrangements of N particles in the unit cube
template<int nd> std::vector<sim::Body> arrange(int N, int geo, int types, int mass) {
  std::vector<sim::Body> v; for (int i=0;i<N;i++) { sim::Body b; for (int k=0;k<nd;k++) { double x = 0.5+0.45*sin((1.3+0.7*k)*(i+1)*(i+2)+2.1*k); double blob = (i%2 ? 0.85 : 0.1)+0.06*sin(1.9*i*i+k); 
      b.r[k] = geo == 0 ? x : geo == 1 ? blob : geo == 2 ? (k == 0 ? (i+0.5)/N : 0.5+0.01*k) : geo == 3 ? (i%5 == 4 ? (k == 1 ? 0.95 : 0.05+0.02*sin(i)) : 0.5+0.08*sin(i*1.7+2.2*k+i*i)) : geo == 4 ? ((i>>k)%2 ? 0.9 : 0.1)+0.03*sin(i*(k+2.7)) : x*x*x; }
    b.m = mass == 0 ? 1.0/N : mass == 1 ? (1+(i*7)%5)*0.5/N : (i%4 == 1 ? 2.5 : 0.6)/N; b.u = 1e-20; b.h = 0.3; b.ptype = types == 1 && i%3 == 1 ? cdm_type : types > 1 && i%3 == 1 ? dust_type : gas_type; v.push_back(b); }
  return v;
}
template<int nd> struct Lists { std::vector<MultipoleMoment<nd>> cells; std::vector<int> idx; int ncell; };
template<int nd> struct G {
  Cfg f; sim::Sim<nd> S; int N; SmoothingKernel<nd>* K; Typemask gm;
  G(const Cfg& f, const std::vector<sim::Body>& b, const std::vector<sim::Body>& st) : f(f), S(f.mfv == 0 ? "sph" : f.mfv == 1 ? "mfvmuscl" : "mfvrk", opts<nd>(f), b.size(), st.size()), N(b.size()) {
    for (int i=0;i<N;i++) S.set(i, b[i]); for (size_t i=0;i<st.size();i++) S.setstar(i, st[i]); S.sim->initial_h_provided = true; S.setup(); K = S.hydro().kernp; gm = S.hydro().types.gravmask; }
  Sph<nd>* sph() { return static_cast<Sph<nd>*>(&S.hydro()); } MeshlessFV<nd>* mfv() { return static_cast<MeshlessFV<nd>*>(&S.hydro()); }
  SphSimulation<nd>* ss() { return static_cast<SphSimulation<nd>*>(S.sim); } MeshlessFVSimulation<nd>* ms() { return static_cast<MeshlessFVSimulation<nd>*>(S.sim); }
  HydroTree<nd,GradhSphParticle>* st() { return static_cast<GradhSphTree<nd,GradhSphParticle>*>(ss()->sphneib); } HydroTree<nd,MeshlessFVParticle>* mt() { return static_cast<MeshlessFVTree<nd,MeshlessFVParticle>*>(ms()->mfvneib); }
  TreeBase<nd>* tree() { return f.mfv ? mt()->tree : st()->tree; }
  bool wild() { for (int i=0;i<N;i++) if (!(S.part(i).h < 2)) return true; return false; }    // too few neighbours for a smoothing length
  double zeta(int i) { return f.mfv ? static_cast<MeshlessFVParticle<nd>&>(S.part(i)).zeta : static_cast<GradhSphParticle<nd>&>(S.part(i)).zeta; }
  void compute() {   // builds the tree from the particles as they are now, then recomputes the gravity of all active particles
    for (int i=0;i<N;i++) { S.part(i).flags.set(active); S.part(i).flags.set(update_density); } for (int i=0;i<S.nbody().Nstar;i++) { auto& s = S.star(i); s.flags.set(active); for (int k=0;k<nd;k++) s.a[k] = 0; s.gpot = 0; }
    if (f.mfv) { auto* m = ms(); m->mfvneib->BuildTree(true, 0, 1, 1, 0.0, mfv()); m->mfvneib->UpdateActiveParticleCounters(mfv()); m->mfvneib->UpdateAllProperties(mfv(), m->nbody); m->mfvneib->BuildTree(true, 0, 1, 1, 0.0, mfv()); m->mfvneib->UpdateActiveParticleCounters(mfv()); lists(); mfv()->ZeroAccelerations(); m->mfvneib->UpdateAllGravForces(mfv(), m->nbody, m->simbox, m->ewald); if (S.nbody().Nstar) m->mfvneib->UpdateAllStarGasForces(mfv(), m->nbody, m->simbox, m->ewald); }
    else { auto* m = ss(); m->sphneib->BuildTree(true, 0, 1, 1, 0.0, sph()); m->sphneib->UpdateActiveParticleCounters(sph()); m->LocalGhosts->CopyHydroDataToGhosts(m->simbox, sph()); m->sphneib->UpdateAllSphProperties(sph(), m->nbody); m->sphneib->BuildTree(true, 0, 1, 1, 0.0, sph()); m->sphneib->UpdateActiveParticleCounters(sph()); lists(); sph()->ZeroAccelerations(); m->sphneib->UpdateAllSphForces(sph(), m->nbody, m->simbox, m->ewald); if (S.nbody().Nstar) m->sphneib->UpdateAllStarGasForces(sph(), m->nbody, m->simbox, m->ewald); } }
  struct Target { std::vector<int> act, all; double com[nd]; std::vector<int> neib; std::vector<std::vector<int>> cells; std::vector<MultipoleMoment<nd>> mom; std::vector<double> crit; double amin, gpmin; };
  std::vector<Target> T; bool want = false; std::string bad;
  template<class TT, class PT, class NM> void walk(TT* t, PT* p, NM nm) {
    std::vector<TreeCellBase<nd>> cl; int n = t->ComputeActiveCellList(cl); std::vector<int> al(N+10);
    auto members = [&](int c) { std::vector<int> v; int e = t->celldata[c].copen == -1 ? c+1 : -1; int cc = c, end = t->celldata[c].cnext; while (cc != end && cc < t->Ncell) { auto& x = t->celldata[cc]; if (x.copen == -1) { int i = x.ifirst; while (i != -1) { if (!p[i].flags.is_dead()) v.push_back(i); if (i == x.ilast) break; i = t->inext[i]; } cc = x.cnext; } else cc = x.copen; } (void) e; return v; };
    for (int q=0;q<n;q++) { Target g; int na = t->ComputeActiveParticleList(cl[q], p, al.data()); g.act.assign(al.begin(), al.begin()+na); g.all = members(cl[q].id); nm.clear(); t->ComputeGravityInteractionAndGhostList(cl[q], nm); nm.EndSearchGravity(cl[q], p); g.neib = nm.neib_idx; for (auto& m : nm.gravcell) { if (m.id < 0 || m.id >= t->Ncell) { bad = "cell id"; return; } g.cells.push_back(members(m.id)); g.mom.push_back(m); } for (int k=0;k<nd;k++) g.com[k] = cl[q].r[k];
      g.amin = 1e300; g.gpmin = 1e300; for (int i : g.all) { double a = 0; for (int k=0;k<nd;k++) a += p[i].atree[k]*p[i].atree[k]; g.amin = std::min(g.amin, sqrt(a)); g.gpmin = std::min<double>(g.gpmin, p[i].gpot); } T.push_back(g); } }
  void lists() { T.clear(); if (!want) return; if (f.mfv) { MeshlessFVParticle<nd>* p = mfv()->GetMeshlessFVParticleArray(); typename MeshlessFVTree<nd,MeshlessFVParticle>::NeighbourManagerGrav nm(mfv(), ms()->simbox); go(p, nm); } else { GradhSphParticle<nd>* p = static_cast<GradhSphParticle<nd>*>(static_cast<GradhSphBase<nd>*>(sph())->GetSphParticleArray()); typename GradhSphTree<nd,GradhSphParticle>::NeighbourManagerHydro nm(sph(), ss()->simbox); go(p, nm); } }
  template<class PT, class NM> void go(PT* p, NM& nm);
  // softened pair: force per unit mass on i from j, and potential
  void pair(int i, int j, const double* shift, double* a, double& pot, double& aa) { auto& A = S.part(i); auto& B = S.part(j); double d2 = 0, dr[3]; for (int k=0;k<nd;k++) { dr[k] = B.r[k]+(shift ? shift[k] : 0)-A.r[k]; d2 += dr[k]*dr[k]; } double r = sqrt(d2), hi = A.h, hj = B.h; pot += 0.5*B.m*(K->wpot(r/hi)/hi+K->wpot(r/hj)/hj); if (i == j || r == 0) return;
    double wi = K->w1(r/hi)/pow(hi, nd+1), wj = K->w1(r/hj)/pow(hj, nd+1), z = zeta(i)*wi+zeta(j)*wj, g = 0.5*(B.m*(K->wgrav(r/hi)/(hi*hi)+K->wgrav(r/hj)/(hj*hj)) + (f.mfv ? z/A.m : z*B.m)); for (int k=0;k<nd;k++) a[k] += g*dr[k]/r; aa += fabs(g); }
};
template<int nd> template<class PT, class NM> void G<nd>::go(PT* p, NM& nm) { if constexpr (std::is_same<PT, GradhSphParticle<nd>>::value) { if (f.tree == 0) walk(static_cast<KDTree<nd,GradhSphParticle,KDTreeCell>*>(tree()), p, nm); else if (f.tree == 1) walk(static_cast<OctTree<nd,GradhSphParticle,OctTreeCell>*>(tree()), p, nm); else walk(static_cast<BruteForceTree<nd,GradhSphParticle,BruteForceTreeCell>*>(tree()), p, nm); }
  else { if (f.tree == 0) walk(static_cast<KDTree<nd,MeshlessFVParticle,KDTreeCell>*>(tree()), p, nm); else if (f.tree == 1) walk(static_cast<OctTree<nd,MeshlessFVParticle,OctTreeCell>*>(tree()), p, nm); else walk(static_cast<BruteForceTree<nd,MeshlessFVParticle,BruteForceTreeCell>*>(tree()), p, nm); } }
template<class F> void run(Ctx& c, F fn) { try { fn(); } catch (GandalfError& e) { if (e.msg.find("Smoothing length too large") == std::string::npos) throw; c.prune(); } }
const int NS[] = {1,4,9,12,17,24,32,40};
std::vector<sim::Body> stars(int n, int geo) { std::vector<sim::Body> v; for (int i=0;i<n;i++) { sim::Body b; for (int k=0;k<3;k++) b.r[k] = i == 0 ? 0.42+0.11*k : 0.9-1.3*k*geo; b.m = i ? 0.3 : 0.7; b.h = i ? 0.02 : 0.15; v.push_back(b); } return v; }
// the star's softened force on or from a gas particle
template<int nd> void starpair(G<nd>& g, int i, int s, double* dr, double& f, double& pot) { auto& A = g.S.part(i); auto& B = g.S.star(s); double d2 = 0; for (int k=0;k<nd;k++) { dr[k] = B.r[k]-A.r[k]; d2 += dr[k]*dr[k]; } double r = sqrt(d2), h = 0.5*(A.h+B.h); f = g.K->wgrav(r/h)/(h*h)/r; pot = g.K->wpot(r/h)/h; }
// ---- every cell opened: direct sums, third law
template<int nd> void direct(Ctx& c) {
  Cfg f; int m = c.choose(3, "type"); f.mfv = m; f.types = c.choose(m ? 2 : 4, "types"); int o = c.choose(7, "options"); if (o == 1) { f.tree = 1; f.leaf = 1; } if (o == 2) f.tree = 2; if (o == 3) { f.ker = 1; f.leaf = 6; } if (o == 4) { f.mult = 3; f.mac = 2; f.macerr = 1e-12; } if (o == 5) { f.tab = 1; f.conv = 1e-4; f.mult = 0; f.mac = 1; } if (o == 6) { f.hydro = 0; f.tree = 1; } f.Nstar = c.choose(3, "stars"); int N = NS[c.choose(c.thorough ? 8 : 7, "N")], geo = c.choose(6, "geo"), mass = c.choose(3, "mass");
  if (m && !f.hydro) c.prune(); if (f.types && (N < (f.types > 1 ? 24 : 3) || (f.types > 1 && mass == 2))) c.prune(); if (!c.thorough && (geo+mass+o+f.Nstar+f.types+m)%3) c.prune();
  c.describe(cname(f)+fmt(", %d particles geo %d masses %d", N, geo, mass)); G<nd> g(f, arrange<nd>(N, geo, f.types, mass), stars(f.Nstar, geo)); g.compute(); double e = f.tab ? 1e-2 : 1e-9; double T[3] = {0,0,0}, TA = 0;
  for (int i=0;i<N;i++) { auto& P = g.S.part(i); double a[3] = {0,0,0}, pot = 0, aa = 0; for (int j=0;j<N;j++) if (g.gm[g.S.part(j).ptype]) g.pair(i, j, nullptr, a, pot, aa); double gp = pot; c.step();
    for (int s=0;s<f.Nstar;s++) { double dr[3], q, p; starpair<nd>(g, i, s, dr, q, p); for (int k=0;k<nd;k++) a[k] += g.S.star(s).m*q*dr[k]; pot += g.S.star(s).m*p; aa += g.S.star(s).m*q*sqrt(dr[0]*dr[0]+dr[1]*dr[1]+dr[2]*dr[2]); }
    for (int k=0;k<nd;k++) { if (!(fabs(a[k]-P.atree[k]) <= e*(aa+1e-12))) { c.fail("acceleration", "particle %d (type %d): gravitational acceleration %d is %.15g, the direct sum %.15g (of %g)", i, P.ptype, k, (double) P.atree[k], a[k], aa); return; } if (!(fabs(P.a[k]-P.atree[k]) <= e*(aa+1e-10))) { c.fail("total", "particle %d: acceleration %.15g without other forces but gravity %.15g", i, (double) P.a[k], (double) P.atree[k]); return; } if (g.gm[P.ptype]) { T[k] += P.m*P.atree[k]; TA += fabs(P.m*P.atree[k]); } else for (int s=0;s<f.Nstar;s++) { double dr[3], q, p; starpair<nd>(g, i, s, dr, q, p); T[k] += P.m*g.S.star(s).m*q*dr[k]; } }
    if (!(fabs(pot-P.gpot) <= (f.tab ? 1e-2 : 1e-9)*pot)) { c.fail("potential", "particle %d (type %d): potential %.15g, the direct sum %.15g", i, P.ptype, (double) P.gpot, pot); return; } if (!(fabs(gp-P.gpot_hydro) <= (f.tab ? 1e-2 : 1e-9)*pot)) { c.fail("potential-gas", "particle %d: potential of the gas %.15g, the direct sum %.15g", i, (double) P.gpot_hydro, gp); return; } }
  for (int s=0;s<f.Nstar;s++) { auto& B = g.S.star(s); double a[3] = {0,0,0}, pot = 0, aa = 0; c.step(); for (int i=0;i<N;i++) { double dr[3], q, p; starpair<nd>(g, i, s, dr, q, p); for (int k=0;k<nd;k++) { a[k] -= g.S.part(i).m*q*dr[k]; aa += fabs(g.S.part(i).m*q*dr[k]); } pot += g.S.part(i).m*p; }
    for (int k=0;k<nd;k++) { if (!(fabs(a[k]-B.a[k]) <= e*(aa+1e-12))) { c.fail("star-acceleration", "star %d: acceleration %d by the gas is %.15g, the direct sum %.15g", s, k, (double) B.a[k], a[k]); return; } T[k] += B.m*B.a[k]; TA += fabs(B.m*B.a[k]); } if (!(fabs(pot-B.gpot) <= e*pot)) { c.fail("star-potential", "star %d: potential of the gas %.15g, the direct sum %.15g", s, (double) B.gpot, pot); return; } }
  for (int k=0;k<nd;k++) if (!f.tab && !(fabs(T[k]) <= 1e-9*TA)) { c.fail("third-law", "forces of gas and stars in direction %d add up to %g of %g", k, T[k], TA); return; }
  if (N > 2) c.interesting();
}
SCENARIO(direct3, 4, "every cell opened: direct softened sums, third law") { run(c, [&] { direct<3>(c); }); }
// ---- finite opening angles: lists, criterion, expansions
template<int nd> void multi(Ctx& c) {
  Cfg f; f.mfv = c.choose(2, "type"); f.tree = c.choose(3, "tree"); f.leaf = 1+3*c.choose(2, "leaf"); f.mult = c.choose(4, "multipole"); f.mac = c.choose(3, "criterion"); double th[] = {0.8,0.1,0.01}, me[] = {1e-1,1e-4}; f.theta2 = th[c.choose(3, "theta")]; f.macerr = f.mac ? me[c.choose(2, "macerror")] : 1e-4; f.types = c.choose(f.mfv ? 2 : 3, "types"); int N = NS[3+c.choose(c.thorough ? 5 : 4, "N")], geo = c.choose(6, "geo"), mass = c.choose(3, "mass");
  if (!c.thorough && (geo+2*mass+f.tree+f.mult+3*f.mac+f.types+f.mfv+f.leaf)%(nd == 3 ? 5 : 11)) c.prune(); if (f.tree == 2 && (f.leaf > 1 || f.theta2 < 0.5)) c.prune(); if (f.types > 1 && (N < 24 || mass == 2)) c.prune();
  c.describe(cname(f)+fmt(", %d particles geo %d masses %d", N, geo, mass)); G<nd> g(f, arrange<nd>(N, geo, f.types, mass), {}); if (g.wild()) c.prune(); g.compute(); g.want = true; g.compute(); if (!g.bad.empty()) { c.fail("list", "%s", g.bad.c_str()); return; }
  int far = 0; std::vector<int> seen(N, 0);
  for (auto& t : g.T) { for (int i : t.act) seen[i]++; std::vector<int> cnt(N, 0); for (int j : t.neib) cnt[j]++; for (auto& v : t.cells) for (int j : v) cnt[j]++; c.step();
    for (int j=0;j<N;j++) if (cnt[j] != 1 && (g.gm[g.S.part(j).ptype] || cnt[j] > 1)) { c.fail("counted", "particle %d (type %d) is counted %d times in the walk for particle %d's cell", j, g.S.part(j).ptype, cnt[j], t.act.empty() ? -1 : t.act[0]); return; }
    double lo[3], hi[3]; auto box = [&](const std::vector<int>& v, double* rc, double& rm, double& hm) { for (int k=0;k<nd;k++) lo[k] = 1e30, hi[k] = -1e30; hm = 0; for (int j : v) { auto& P = g.S.part(j); hm = std::max(hm, (double) P.h); for (int k=0;k<nd;k++) { lo[k] = std::min(lo[k], (double) P.r[k]); hi[k] = std::max(hi[k], (double) P.r[k]); } } rm = 0; for (int k=0;k<nd;k++) { rc[k] = 0.5*(lo[k]+hi[k]); rm += 0.25*(hi[k]-lo[k])*(hi[k]-lo[k]); } rm = sqrt(rm); };
    double tc[3], tr, thm; box(t.all, tc, tr, thm); for (int k=0;k<nd;k++) if (!(t.com[k] >= lo[k]-1e-9 && t.com[k] <= hi[k]+1e-9)) { c.fail("centre", "the centre of a cell of %d particles lies outside it: %g, not %g to %g", (int) t.all.size(), t.com[k], lo[k], hi[k]); return; } struct M { double m, r[3], Q[3][3]; }; std::vector<M> mm;
    for (size_t q=0;q<t.cells.size();q++) { auto& v = t.cells[q]; if (v.empty()) continue; far++; double rc[3], rm, hm; box(v, rc, rm, hm); double d2 = 0; for (int k=0;k<nd;k++) d2 += (rc[k]-tc[k])*(rc[k]-tc[k]); double d = sqrt(d2); M x; x.m = 0; for (int k=0;k<3;k++) { x.r[k] = 0; for (int l=0;l<3;l++) x.Q[k][l] = 0; }
      for (int j : v) if (g.gm[g.S.part(j).ptype]) { x.m += g.S.part(j).m; for (int k=0;k<nd;k++) x.r[k] += g.S.part(j).m*g.S.part(j).r[k]; } if (x.m > 0) for (int k=0;k<nd;k++) x.r[k] /= x.m; for (int j : v) if (g.gm[g.S.part(j).ptype]) { auto& P = g.S.part(j); double e[3], e2 = 0; for (int k=0;k<nd;k++) { e[k] = P.r[k]-x.r[k]; e2 += e[k]*e[k]; } for (int k=0;k<nd;k++) for (int l=0;l<nd;l++) x.Q[k][l] += P.m*(3*e[k]*e[l]-(k == l ? e2 : 0)); } mm.push_back(x);
      if (!(d >= (tr+rm+g.K->kernrange*std::max(hm, thm))*(1-1e-9))) { c.fail("overlap", "a cell at distance %g of a cell whose particles it may touch (radii %g %g, h %g %g) is accepted", d, rm, tr, hm, thm); return; }
      if (!(d2 >= std::max(rm*rm, hm*hm)/f.theta2*(1-1e-9))) { c.fail("opening-angle", "a cell of radius %g with h up to %g at distance %g is accepted with theta^2 %g", rm, hm, d, f.theta2); return; }
      if (f.mac == 2 && !(d2*d2*t.amin*f.macerr >= rm*rm*x.m*(1-1e-6))) { c.fail("gadget-criterion", "a cell of radius %g mass %g at distance %g is accepted for accelerations of %g", rm, x.m, d, t.amin); return; }
      if (f.mac == 1) { double l = 0, v3[3] = {1,0.7,0.4}; for (int it=0;it<300;it++) { double w[3] = {0,0,0}, n2 = 0; for (int k=0;k<nd;k++) { for (int z=0;z<nd;z++) w[k] += x.Q[k][z]*v3[z]; } double tr3 = 0; for (int k=0;k<nd;k++) tr3 = std::max(tr3, fabs(x.Q[k][k])); for (int k=0;k<nd;k++) w[k] += 3*tr3*v3[k]; for (int k=0;k<nd;k++) n2 += w[k]*w[k]; n2 = sqrt(n2); if (n2 == 0) break; for (int k=0;k<nd;k++) v3[k] = w[k]/n2; } for (int k=0;k<nd;k++) for (int z=0;z<nd;z++) l += v3[k]*x.Q[k][z]*v3[z]; if (!(d*d2*f.macerr*t.gpmin >= 0.5*l*(1-1e-6))) { c.fail("eigenvalue-criterion", "a cell with largest quadrupole eigenvalue %g at distance %g is accepted for a potential of %g", l, d, t.gpmin); return; } } }
    for (int i : t.act) { auto& P = g.S.part(i); double a[3] = {0,0,0}, pot = 0, aa = 0; for (int j : t.neib) if (g.gm[g.S.part(j).ptype]) g.pair(i, j, nullptr, a, pot, aa); bool quad = f.mult%2, fast = f.mult > 1;
      for (auto& x : mm) { double d[3], d2 = 0, y[3]; for (int k=0;k<nd;k++) { d[k] = (fast ? t.com[k] : P.r[k])-x.r[k]; d2 += d[k]*d[k]; y[k] = fast ? P.r[k]-t.com[k] : 0; } double r = sqrt(d2), r3 = r*d2, r5 = r3*d2, r7 = r5*d2, r9 = r7*d2, Qd[3] = {0,0,0}, Sq = 0; if (quad) for (int k=0;k<nd;k++) { for (int l=0;l<nd;l++) Qd[k] += x.Q[k][l]*d[l]; Sq += d[k]*Qd[k]; }
        double ph = x.m/r + 0.5*Sq/r5, A[3]; for (int k=0;k<nd;k++) A[k] = -x.m*d[k]/r3 + Qd[k]/r5 - 2.5*Sq*d[k]/r7; for (int k=0;k<nd;k++) { ph += A[k]*y[k]; a[k] += A[k]; aa += fabs(A[k]); }
        if (fast) for (int k=0;k<nd;k++) for (int l=0;l<nd;l++) { double H = x.m*(3*d[k]*d[l]-(k == l ? d2 : 0))/r5 + (quad ? x.Q[k][l]/r5 - 5*(Qd[k]*d[l]+Qd[l]*d[k])/r7 - (k == l ? 2.5*Sq/r7 : 0) + 17.5*Sq*d[k]*d[l]/r9 : 0); a[k] += H*y[l]; aa += fabs(H*y[l]); }
        pot += ph; }
      for (int k=0;k<nd;k++) if (!(fabs(a[k]-P.atree[k]) <= 1e-10*aa)) { c.fail("expansion", "particle %d: gravitational acceleration %d is %.15g, %d particles and %d cells expanded give %.15g", i, k, (double) P.atree[k], (int) t.neib.size(), (int) mm.size(), a[k]); return; }
      if (!(fabs(pot-P.gpot) <= 1e-10*pot)) { c.fail("expansion-potential", "particle %d: potential %.15g, %d particles and %d cells expanded give %.15g", i, (double) P.gpot, (int) t.neib.size(), (int) mm.size(), pot); return; } } }
  for (int i=0;i<N;i++) if (seen[i] != 1) { c.fail("targets", "particle %d is a target in %d cells", i, seen[i]); return; }
  if (far) c.interesting(); c.state((uint64_t) far*131+N*7+geo);
}
SCENARIO(multi3, 4, "3D: finite opening: partition, criteria, multipole and fast multipole forces") { run(c, [&] { multi<3>(c); }); }
SCENARIO(multi2, 4, "2D: finite opening: partition, criteria, multipole and fast multipole forces") { run(c, [&] { multi<2>(c); }); }
// ---- stars and cells of gas
template<int nd> void starwalk(Ctx& c) {
  Cfg f; f.mfv = c.choose(2, "type"); f.tree = c.choose(2, "tree"); f.leaf = 1+3*c.choose(2, "leaf"); f.mult = c.choose(4, "multipole"); double th[] = {0.8,0.1,0.01}; f.theta2 = th[c.choose(3, "theta")]; f.types = c.choose(2, "types"); f.Nstar = 1; int N = NS[3+c.choose(c.thorough ? 5 : 4, "N")], geo = c.choose(6, "geo"), mass = c.choose(3, "mass"), at = c.choose(4, "star at"); if (!c.thorough && (geo+2*mass+f.mult+3*at+f.tree+f.leaf)%5) c.prune();
  auto st = stars(1, geo); for (int k=0;k<nd;k++) st[0].r[k] = at == 0 ? 0.45+0.03*k : at == 1 ? 2.5-0.4*k : at == 2 ? (k == 0 ? -0.3 : 0.5) : 0.13+0.01*k; st[0].h = at%2 ? 0.01 : 0.2; c.describe(cname(f)+fmt(", %d particles geo %d masses %d, star %d", N, geo, mass, at)); G<nd> g(f, arrange<nd>(N, geo, f.types, mass), st); g.compute();
  std::vector<int> nl(N+9), dl(N+9); std::vector<MultipoleMoment<nd>> cells(N+9); int nn, ndir, nc; auto& s = g.S.star(0); TreeBase<nd>* t = g.tree(); Particle<nd>* arr = &g.S.part(0); int ok = t->ComputeStarGravityInteractionList(&s, 0.0, N+8, N+8, N+8, nn, ndir, nc, nl.data(), dl.data(), cells.data(), arr); if (ok != 1) { c.fail("star-list", "walk returns %d", ok); return; }
  std::vector<int> cnt(N, 0); for (int i=0;i<nn;i++) cnt[nl[i]]++; for (int i=0;i<ndir;i++) cnt[dl[i]]++; double a[3] = {0,0,0}, pot = 0, aa = 0; c.step();
  auto mem = [&](int id) { std::vector<int> v; auto get = [&](auto* T) { int cc = id, end = T->celldata[id].cnext; while (cc != end && cc < T->Ncell) { auto& x = T->celldata[cc]; if (x.copen == -1) { int i = x.ifirst; while (i != -1) { v.push_back(i); if (i == x.ilast) break; i = T->inext[i]; } cc = x.cnext; } else cc = x.copen; } }; if (f.mfv) { if (f.tree == 0) get(static_cast<KDTree<nd,MeshlessFVParticle,KDTreeCell>*>(t)); else get(static_cast<OctTree<nd,MeshlessFVParticle,OctTreeCell>*>(t)); } else { if (f.tree == 0) get(static_cast<KDTree<nd,GradhSphParticle,KDTreeCell>*>(t)); else get(static_cast<OctTree<nd,GradhSphParticle,OctTreeCell>*>(t)); } return v; };
  for (int i=0;i<N;i++) if (cnt[i]) { double dr[3], q, p; starpair<nd>(g, i, 0, dr, q, p); for (int k=0;k<nd;k++) { a[k] -= g.S.part(i).m*q*dr[k]; aa += fabs(g.S.part(i).m*q*dr[k]); } pot += g.S.part(i).m*p; }
  for (int q=0;q<nc;q++) { auto v = mem(cells[q].id); double m = 0, r[3] = {0,0,0}, Q[3][3] = {{0}}, lo[3], hi[3], hm = 0; for (int k=0;k<nd;k++) lo[k] = 1e30, hi[k] = -1e30; for (int j : v) { cnt[j]++; auto& P = g.S.part(j); m += P.m; hm = std::max(hm, (double) P.h); for (int k=0;k<nd;k++) { r[k] += P.m*P.r[k]; lo[k] = std::min(lo[k], (double) P.r[k]); hi[k] = std::max(hi[k], (double) P.r[k]); } } for (int k=0;k<nd;k++) r[k] /= m; for (int j : v) { auto& P = g.S.part(j); double e[3], e2 = 0; for (int k=0;k<nd;k++) { e[k] = P.r[k]-r[k]; e2 += e[k]*e[k]; } for (int k=0;k<nd;k++) for (int l=0;l<nd;l++) Q[k][l] += P.m*(3*e[k]*e[l]-(k == l ? e2 : 0)); }
    double dc2 = 0, rm2 = 0, d[3], d2 = 0; for (int k=0;k<nd;k++) { double x = 0.5*(lo[k]+hi[k])-s.r[k]; dc2 += x*x; rm2 += 0.25*(hi[k]-lo[k])*(hi[k]-lo[k]); d[k] = s.r[k]-r[k]; d2 += d[k]*d[k]; } if (!(dc2 >= std::max(rm2, hm*hm)/f.theta2*(1-1e-9))) { c.fail("star-opening", "a cell of radius %g, h %g at distance %g of a star is accepted", sqrt(rm2), hm, sqrt(dc2)); return; } if (!(sqrt(dc2) >= (sqrt(rm2)+0.5*g.K->kernrange*(s.h+hm))*(1-1e-9))) { c.fail("star-overlap", "a cell within the softening of a star is accepted"); return; }
    double rr = sqrt(d2), r5 = rr*d2*d2, S = 0, Qd[3] = {0,0,0}; if (f.mult%2) for (int k=0;k<nd;k++) { for (int l=0;l<nd;l++) Qd[k] += Q[k][l]*d[l]; S += d[k]*Qd[k]; } pot += m/rr+0.5*S/r5; for (int k=0;k<nd;k++) { double x = -m*d[k]/(rr*d2)+Qd[k]/r5-2.5*S*d[k]/(r5*d2); a[k] += x; aa += fabs(x); } }
  for (int i=0;i<N;i++) if (cnt[i] != 1) { c.fail("star-counted", "particle %d is counted %d times in the star's walk", i, cnt[i]); return; }
  for (int k=0;k<nd;k++) if (!(fabs(a[k]-s.a[k]) <= 1e-10*aa)) { c.fail("star-expansion", "star: acceleration %d is %.15g, %d particles and %d cells give %.15g", k, (double) s.a[k], nn+ndir, nc, a[k]); return; } if (!(fabs(pot-s.gpot) <= 1e-10*pot)) { c.fail("star-expansion-potential", "star: potential %.15g, %d particles and %d cells give %.15g", (double) s.gpot, nn+ndir, nc, pot); return; } if (nc) c.interesting(); c.state(nc*1000+nn*30+ndir);
}
SCENARIO(star3, 4, "walks for stars: partition, criterion, expansion") { run(c, [&] { starwalk<3>(c); }); }
// ---- accelerations are the gradient of the potential energy
SCENARIO(gradient, 3, "accelerations = gradient of the potential energy, also through the smoothing lengths") { run(c, [&] {
  Cfg f; f.mfv = c.choose(2, "type"); f.ker = c.choose(2, "kernel"); f.types = c.choose(2, "types"); int N = NS[3+c.choose(c.thorough ? 5 : 3, "N")], geo = c.choose(6, "geo"), mass = c.choose(3, "mass"), who = c.choose(3, "particle"), dir = c.choose(3, "direction"); f.conv = 1e-13; if (!c.thorough && (geo+mass+who+dir)%3) c.prune(); c.describe(cname(f)+fmt(", %d particles geo %d masses %d", N, geo, mass));
  G<3> g(f, arrange<3>(N, geo, f.types, mass), {}); auto E = [&] { g.compute(); g.compute(); double e = 0; for (int i=0;i<N;i++) e += 0.5*g.S.part(i).m*g.S.part(i).gpot; return e; }; E(); auto& P = g.S.part(who); if (g.wild()) c.prune(); double a = P.atree[dir], am = 0; for (int k=0;k<3;k++) am = std::max(am, fabs((double) P.atree[k])); double x = P.r[dir], e = 2e-5*P.h; P.r[dir] = x+e; double ep = E(); P.r[dir] = x-e; double em = E(); P.r[dir] = x; double F = (ep-em)/(2*e); c.step(); if (getenv("C06_V")) fprintf(stderr, "h %g e %g ep %.15g em %.15g a %g am %g r %g\n", (double) P.h, e, ep, em, a, am, x); if (!(fabs(F-P.m*a) <= 2e-4*(P.m*am) + 1e-9*ep/P.h)) { c.fail("gradient", "particle %d: force %.10g, gradient of the potential energy %.10g", who, P.m*a, F); return; } c.interesting(); }); }
// ---- Ewald sums
struct Box { int per; double L[3]; };
// acceleration and potential (positive, of a unit mass at the origin and its images, without the nearest) at dr, by other series
void lattice(const Box& b, const double* d, double* acc, double& pot) {
  const double PI = 3.14159265358979323846; for (int k=0;k<3;k++) acc[k] = 0; pot = 0; int np = 0, pd[3], od[3], no = 0; for (int k=0;k<3;k++) if (b.per>>k&1) pd[np++] = k; else od[no++] = k; double r0 = sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]);
  if (np == 3) { double Lm = std::max({b.L[0], b.L[1], b.L[2]}), al = 3.2/std::min({b.L[0], b.L[1], b.L[2]}), V = b.L[0]*b.L[1]*b.L[2]; int R[3], Q[3]; for (int k=0;k<3;k++) { R[k] = 2+(int) ceil(6.0/al/b.L[k]); Q[k] = 1+(int) ceil(6.0*2*al*b.L[k]/(2*PI)); } (void) Lm;
    for (int i=-R[0];i<=R[0];i++) for (int j=-R[1];j<=R[1];j++) for (int k=-R[2];k<=R[2];k++) { double x[3] = {d[0]+i*b.L[0], d[1]+j*b.L[1], d[2]+k*b.L[2]}, r = sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); if (r < 1e-12) { pot -= 2*al/sqrt(PI); continue; } double f = erfc(al*r)/r; pot += f; double g = (f+2*al/sqrt(PI)*exp(-al*al*r*r))/(r*r); for (int q=0;q<3;q++) acc[q] += g*x[q]; }
    for (int i=-Q[0];i<=Q[0];i++) for (int j=-Q[1];j<=Q[1];j++) for (int k=-Q[2];k<=Q[2];k++) { if (!i && !j && !k) continue; double G[3] = {2*PI*i/b.L[0], 2*PI*j/b.L[1], 2*PI*k/b.L[2]}, G2 = G[0]*G[0]+G[1]*G[1]+G[2]*G[2], ph = G[0]*d[0]+G[1]*d[1]+G[2]*d[2], f = 4*PI/V/G2*exp(-G2/(4*al*al)); pot += f*cos(ph); for (int q=0;q<3;q++) acc[q] += f*G[q]*sin(ph); } }
  else if (np == 1) { double L = b.L[pd[0]], x = d[pd[0]], y = d[od[0]], z = d[od[1]], rho2 = y*y+z*z; int M = 4000; double ax = 0, ap = 0, p = 0; for (int n=-M;n<=M;n++) { double u = x+n*L, r2 = u*u+rho2, r = sqrt(r2); if (r < 1e-12) continue; ax += u/(r2*r); ap += 1/(r2*r); p += 1/r; } double T = (M+0.5)*L; ap += 1/(T*T*L)*(1-0.75*rho2/(T*T)); pot = p - 2/L*log(2*T); acc[pd[0]] = ax; acc[od[0]] = ap*y; acc[od[1]] = ap*z; }
  else { double L1 = b.L[pd[0]], L2 = b.L[pd[1]], x = d[pd[0]], y = d[pd[1]], z = d[od[0]]; double ch = cosh(2*PI*z/L2), den = ch-cos(2*PI*y/L2), ay = 0, az = 0, ax = 0, p = 0;    // lines along the first direction at every L2
    if (den > 1e-20) { p = -log(2*den)/L1; ay = 2*PI/L2*sin(2*PI*y/L2)/den/L1; az = 2*PI/L2*sinh(2*PI*z/L2)/den/L1; }
    for (int m=-12;m<=12;m++) { double Y = y+m*L2, rho = sqrt(Y*Y+z*z); if (rho > 0.12*L1) { for (int k=1;k<60;k++) { double w = 2*PI*k/L1; if (w*rho > 40) break; double K0 = std::cyl_bessel_k(0, w*rho), K1 = std::cyl_bessel_k(1, w*rho); p += 4/L1*K0*cos(w*x); ax += 4/L1*w*K0*sin(w*x); double g = 4/L1*w*K1*cos(w*x)/rho; ay += g*Y; az += g*z; } }
      else { int M = 4000; double T = (M+0.5)*L1, a = 0, bb = 0, q = 0; for (int n=-M;n<=M;n++) { double u = x+n*L1, r2 = u*u+rho*rho, r = sqrt(r2); if (r < 1e-12) continue; a += u/(r2*r); bb += 1/(r2*r); q += 1/r; } bb += 1/(T*T*L1); ax += a; double gl = rho > 1e-12 ? 2/L1/(rho*rho) : 0; ay += (bb-gl)*Y; az += (bb-gl)*z; p += q - 2/L1*log(2*T) + (rho > 1e-12 ? 2/L1*log(rho) : 0); if (rho <= 1e-12) p += -2/L1*log(2*PI/L2); } }
    acc[pd[0]] = ax; acc[pd[1]] = ay; acc[od[0]] = az; pot = p; }
  if (r0 > 1e-12) { pot -= (np == 3 || true) ? 1/r0 : 0; for (int k=0;k<3;k++) acc[k] -= d[k]/(r0*r0*r0); }
}
Ewald<3>* ewald(const Box& b, int n, int in, DomainBox<3>& box) { sim::boot(); sim::scratch(); for (int k=0;k<3;k++) { box.min[k] = 0; box.max[k] = b.L[k]; box.size[k] = b.L[k]; box.half[k] = 0.5*b.L[k]; box.boundary_lhs[k] = box.boundary_rhs[k] = b.per>>k&1 ? periodicBoundary : openBoundary; } box.PeriodicGravity = true; static CodeTiming* t = new CodeTiming(); int o = dup(1), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); Ewald<3>* e = new Ewald<3>(box, 6, in, n, 1.0, 1e-8, 5.0, 1.0, t); fflush(stdout); dup2(o, 1); close(o); close(nul); return e; }
SCENARIO(ewald, 2, "periodic corrections = lattice sums: periodic directions x box shapes x positions") {
  int per = 1+c.choose(7, "periodic directions"), shape = c.choose(3, "box"); Box b; b.per = per; double s[3][3] = {{1,1,1},{1,0.75,1.4},{2,1.3,1}}; for (int k=0;k<3;k++) b.L[k] = s[shape][k]; int np = (per&1)+(per>>1&1)+(per>>2&1), n = np == 3 ? 10 : np == 2 ? 8 : 6; c.describe(fmt("periodic directions %d, box %g x %g x %g", per, b.L[0], b.L[1], b.L[2])); DomainBox<3> box; Ewald<3>* e = ewald(b, n, 80, box);
  double Lm = 1e30; for (int k=0;k<3;k++) if (per>>k&1) Lm = std::min(Lm, b.L[k]); double sc = 1/(Lm*Lm), c0 = 1e300, step[3], top[3]; for (int k=0;k<3;k++) { step[k] = per>>k&1 ? 0.5*b.L[k]/(n-2) : 0; top[k] = n-2; } for (int k=0;k<3;k++) if (!(per>>k&1)) { double B = per == 1 || per == 3 ? b.L[0] : per == 2 || per == 6 ? b.L[1] : b.L[2]; step[k] = 2*B/(4*(n-2)); top[k] = 4*(n-2)+9; }
  int pt[3]; const int fr[] = {0,1,2,3,5,7,9,11}; int rep = 0; double worst = 0; 
  for (pt[0]=0;pt[0]<8;pt[0]++) for (pt[1]=0;pt[1]<8;pt[1]++) for (pt[2]=0;pt[2]<8;pt[2]++) for (int off=0;off<2;off++) {
    double d[3]; bool out = false; for (int k=0;k<3;k++) { double q = per>>k&1 ? floor(top[k]*fr[pt[k]]/11.0) : floor(top[k]*fr[pt[k]]/11.0); d[k] = (q+0.5*off*(k != 1 ? 1 : 0.6))*step[k]; if (per>>k&1 && d[k] > 0.5*b.L[k]) out = true; if ((pt[0]+pt[1]*2+pt[2]+k)%2) d[k] = -d[k]; } if (out || (pt[0]+pt[1]+pt[2] == 0 && !off)) continue;
    double ac[3], pot, A[3], P, q[3] = {d[0], d[1], d[2]}; e->CalculatePeriodicCorrection(1.0, q, A, P); lattice(b, d, ac, pot); c.step(); rep++; double r = sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]), tol = off ? 0.12*sc : 2e-3*sc, tp = off ? 0.06/Lm : 2e-3/Lm; (void) r;
    for (int k=0;k<3;k++) { if (fabs(ac[k]-A[k])/sc > worst) worst = fabs(ac[k]-A[k])/sc; if (!(fabs(ac[k]-A[k]) <= tol + (np < 3 ? 5e-3*(fabs(ac[0])+fabs(ac[1])+fabs(ac[2])) : 0))) { c.fail("ewald-acceleration", "at (%g %g %g) the correction in direction %d is %.8g, by lattice sums %.8g", d[0], d[1], d[2], k, A[k], ac[k]); return; } }
    if (np == 2) { if (!(fabs(P-pot) <= tp)) { c.fail("ewald-potential", "at (%g %g %g) the potential is %.8g, by lattice sums %.8g", d[0], d[1], d[2], P, pot); return; } } else { if (c0 > 1e299) { double w[3] = {2*step[0], step[1], step[2]}, v[3] = {w[0], w[1], w[2]}, B[3], q1, q2; e->CalculatePeriodicCorrection(1.0, v, B, q1); lattice(b, w, B, q2); c0 = q1-q2; } if (!(fabs(P-pot-c0) <= 2*tp)) { c.fail("ewald-potential", "at (%g %g %g) the potential is %.8g, by lattice sums %.8g", d[0], d[1], d[2], P, pot+c0); return; } } }
  if (rep) c.interesting(); if (getenv("C06_V")) fprintf(stderr, "per %d shape %d worst %g\n", per, shape, worst); }
// ---- periodic boxes of particles: every pair once with its nearest image and the correction
SCENARIO(periodic, 3, "periodic self-gravity of particles: nearest images with corrections, whatever the tree") { run(c, [&] {
  Cfg f; f.mfv = c.choose(2, "type"); f.per = 1 + c.choose(7, "periodic directions"); f.L = 1.0; f.tree = c.choose(3, "tree"); f.leaf = 1+3*c.choose(2, "leaf"); f.hfac = 0.85; int geo = c.choose(3, "geo"), N = c.choose(2, "N") ? 64 : 27, mass = c.choose(2, "mass"), mult = c.choose(2, "cells"); f.types = c.choose(2, "types"); if (mult) { f.theta2 = 0.3; f.mult = geo%2; } if (!c.thorough && (geo+mass+f.tree+f.per+f.leaf/3+f.types+2*f.mfv+mult*3)%7) c.prune(); if (!c.thorough && f.per != 7 && (f.per+f.tree)%2) c.prune(); c.describe(cname(f)+fmt(", %d particles geo %d masses %d", N, geo, mass));
  int n = N == 64 ? 4 : 3; std::vector<sim::Body> b; for (int i=0;i<N;i++) { sim::Body x; int q[3] = {i%n, i/n%n, i/n/n}; for (int k=0;k<3;k++) x.r[k] = (q[k]+0.5+(geo ? 0.25 : 0.02)*sin(2.3*i*geo+1.1*k+i))/n; x.m = (mass ? 1+i%3 : 1)/double(N); x.u = 1e-20; x.h = 0.85/n; if (f.types && i%3 == 1) x.ptype = cdm_type; b.push_back(x); }
  int o = dup(1), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); struct R { int o, n; ~R() { fflush(stdout); dup2(o, 1); close(o); close(n); } } back{o, nul}; (void) back;
  G<3> g(f, b, {}); g.compute(); Ewald<3>* E = g.S.sim->ewald; double worst = 0;
  for (int i=0;i<N;i++) { auto& P = g.S.part(i); double a[3] = {0,0,0}, pot = 0, aa = 0; bool tie = false; c.step(); for (int j=0;j<N;j++) { auto& Q = g.S.part(j); double sh[3], dr[3], ac[3], p; for (int k=0;k<3;k++) { dr[k] = Q.r[k]-P.r[k]; sh[k] = 0; if (f.per>>k&1) { if (fabs(fabs(dr[k])-0.5) < 1e-9) tie = true; if (dr[k] > 0.5) sh[k] = -1; else if (dr[k] < -0.5) sh[k] = 1; } dr[k] += sh[k]; } g.pair(i, j, sh, a, pot, aa); E->CalculatePeriodicCorrection(Q.m, dr, ac, p); for (int k=0;k<3;k++) { a[k] += ac[k]; aa += fabs(ac[k]); } pot += p; }
    if (tie) continue; double e = mult ? 0.1 : 1e-8; for (int k=0;k<3;k++) { worst = std::max(worst, fabs(a[k]-P.atree[k])/aa); if (!(fabs(a[k]-P.atree[k]) <= e*aa)) { c.fail("periodic-acceleration", "particle %d: gravitational acceleration %d is %.12g, all pairs give %.12g (of %g)", i, k, (double) P.atree[k], a[k], aa); return; } } if (!(fabs(pot-P.gpot) <= (mult ? 0.1 : 1e-8)*(fabs(pot)+1))) { c.fail("periodic-potential", "particle %d: potential %.12g, all pairs give %.12g", i, (double) P.gpot, pot); return; } }
  if (getenv("C06_V")) fprintf(stderr, "%s worst %g\n", cname(f).c_str(), worst); c.interesting(); }); }
}
// ---- stars in periodic boxes
SCENARIO(periodic_star, 2, "a star and gas in a periodic box attract each other through their nearest images with the corrections") { run(c, [&] {
  Cfg f; f.mfv = c.choose(2, "type"); f.per = 7; f.L = 1.0; f.tree = c.choose(2, "tree"); f.leaf = 1; f.hfac = 0.85; f.Nstar = 1; int at = c.choose(3, "star at"); c.describe(cname(f)+fmt(", star %d", at)); std::vector<sim::Body> b; for (int i=0;i<27;i++) { sim::Body x; int q[3] = {i%3, i/3%3, i/9}; for (int k=0;k<3;k++) x.r[k] = (q[k]+0.5+0.02*sin(1.1*k+i))/3; x.m = 1/27.0; x.u = 1e-20; x.h = 0.28; b.push_back(x); }
  sim::Body st; for (int k=0;k<3;k++) st.r[k] = at == 0 ? 0.03+0.01*k : at == 1 ? 0.52-0.01*k : (k == 1 ? 0.97 : 0.4); st.m = 0.4; st.h = 0.02; int o = dup(1), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); struct R { int o, n; ~R() { fflush(stdout); dup2(o, 1); close(o); close(n); } } back{o, nul}; (void) back;
  G<3> g(f, b, {st}); Ewald<3>* E = g.S.sim->ewald; g.compute(); auto& s = g.S.star(0); double A[3] = {0,0,0}, aa = 0; bool gas = false; c.step();
  std::vector<std::array<double,3>> with; for (int i=0;i<27;i++) { auto& P = g.S.part(i); with.push_back({P.atree[0], P.atree[1], P.atree[2]}); double sh[3] = {0,0,0}; (void) sh; double dr[3], r2 = 0, ac[3], p; for (int k=0;k<3;k++) { dr[k] = P.r[k]-s.r[k]; if (dr[k] > 0.5) dr[k] -= 1; if (dr[k] < -0.5) dr[k] += 1; r2 += dr[k]*dr[k]; } double r = sqrt(r2), h = 0.5*(P.h+s.h), w = g.K->wgrav(r/h)/(h*h)/r; for (int k=0;k<3;k++) A[k] += P.m*w*dr[k]; E->CalculatePeriodicCorrection(P.m, dr, ac, p); for (int k=0;k<3;k++) { A[k] += ac[k]; aa += fabs(ac[k])+fabs(P.m*w*dr[k]); } }
  for (int k=0;k<3;k++) if (!(fabs(A[k]-s.a[k]) <= 1e-6*aa)) { c.fail("star-by-gas", "the star's acceleration %d by the gas is %.10g, nearest images with corrections give %.10g", k, (double) s.a[k], A[k]); return; }
  for (int i=0;i<27 && !gas;i++) { auto& P = g.S.part(i); double a[3] = {0,0,0}, pot = 0, q = 0; for (int j=0;j<=27;j++) { double sh[3], dr[3], ac[3], p, m; for (int k=0;k<3;k++) { dr[k] = (j < 27 ? g.S.part(j).r[k] : s.r[k])-P.r[k]; sh[k] = dr[k] > 0.5 ? -1 : dr[k] < -0.5 ? 1 : 0; dr[k] += sh[k]; } if (j < 27) { g.pair(i, j, sh, a, pot, q); m = g.S.part(j).m; } else { double r = sqrt(dr[0]*dr[0]+dr[1]*dr[1]+dr[2]*dr[2]), h = 0.5*(P.h+s.h), w = g.K->wgrav(r/h)/(h*h)/r; m = s.m; for (int k=0;k<3;k++) a[k] += m*w*dr[k]; } E->CalculatePeriodicCorrection(m, dr, ac, p); for (int k=0;k<3;k++) a[k] += ac[k]; }
    for (int k=0;k<3;k++) if (!(fabs(a[k]-P.atree[k]) <= 1e-6*(q+1))) { c.fail("gas-by-star", "particle %d: acceleration %d is %.10g, gas and star with nearest images and corrections give %.10g", i, k, (double) P.atree[k], a[k]); return; } }
  c.interesting(); }); }
int main(int a, char** v) { return mc::main(a, v); }
