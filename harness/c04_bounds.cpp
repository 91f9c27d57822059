// C04 - boundaries.  (a) CheckBoundaries on every boundary combination x position x velocity pattern; (b) the ghosts made for every
// placement of small sets near faces, edges, corners x smoothing length pattern x boundary combination x tree, decoded and compared
// with the images found by brute force, then after the parents' properties change; (c) whole runs: a mirrored box against the doubled
// periodic box, and periodic boxes against their translates, step by step.
#include "sim.hpp"
#include "Integration.h"
#include "MfvNeighbourSearch.h"
#include "SphNeighbourSearch.h"
#include "Ghosts.h"
#include <cstdarg>
using namespace mc;
namespace {
std::string fmt(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
enum { OO, PP, MM, WW, MO, OM, MW, WM, WO };
const char* LH[] = {"open","periodic","mirror","wall","mirror","open","mirror","wall","wall"};
const char* RH[] = {"open","periodic","mirror","wall","open","mirror","wall","mirror","open"};
const double LO[3] = {-0.5, 0.25, 1.0}, HI[3] = {1.0, 1.5, 2.25};
template<int nd> sim::Opts opts(const int* bt, const char* tree = "kdtree") {
  sim::Opts o; for (int k=0;k<nd;k++) o.box(k, LO[k], HI[k], LH[bt[k]], RH[bt[k]]); o.S("neib_search", tree).I("Nleafmax", 2); return o;
}
template<int nd> std::string bname(const int* bt) { std::string s; for (int k=0;k<nd;k++) s += std::string(k ? " x " : "") + LH[bt[k]] + "/" + RH[bt[k]]; return s; }
template<int nd> MeshlessFVParticle<nd>* mfvp(sim::Sim<nd>& S, int i) { return &static_cast<MeshlessFV<nd>*>(&S.hydro())->GetMeshlessFVParticlePointer(i); }
// ------------------------------------------------------------------------------------------------------------------------------------
template<int nd> void wrap(Ctx& c) {
  int bt[3] = {0,0,0}; for (int k=0;k<nd;k++) bt[k] = c.choose(9, "boundary"); int kind = c.choose(3, "kind");   // sph, mfv, stars
  const double W[] = {-0.9, -0.25, -1e-9, 0.0, 0.4, 1.0, 1+1e-9, 1.25, 1.9}; int n = 1; for (int k=0;k<nd;k++) n *= 9;
  int vs = c.choose(4, "velocities"); if (nd == 3 && !c.thorough && vs > 1) c.prune();
  sim::Opts o = opts<nd>(bt); sim::Sim<nd> S(kind == 1 ? "mfvmuscl" : "sph", o, kind < 2 ? n : 1, kind == 2 ? n : 0);
  struct St { double r[3], r0[3], v[3], v0[3], a[3], a0[3], q0[5], dq[5], dqdt[5]; }; std::vector<St> A(n);
  for (int i=0;i<n;i++) { int x = i; St& s = A[i]; for (int k=0;k<nd;k++) { double w = W[x%9]; x /= 9; s.r[k] = w == 1.0 ? HI[k] : LO[k] + w*(HI[k]-LO[k]); s.v[k] = (vs>>(k&1)&1 ? -1 : 1)*(0.3+0.2*k); s.v0[k] = 1.5*s.v[k]; s.a[k] = 0.1+k; s.a0[k] = 0.7-k; s.r0[k] = s.r[k]-0.3*s.v[k]; }
    for (int q=0;q<nd+2;q++) { s.q0[q] = 1.1+q; s.dq[q] = 0.3+0.1*q; s.dqdt[q] = -0.2+0.3*q; } }
  auto put = [&](auto& p, St& s) { for (int k=0;k<nd;k++) { p.r[k] = s.r[k]; p.r0[k] = s.r0[k]; p.v[k] = s.v[k]; p.v0[k] = s.v0[k]; p.a[k] = s.a[k]; p.a0[k] = s.a0[k]; } p.m = 1; p.h = 0.1; };
  for (int i=0;i<n;i++) { if (kind < 2) { put(S.part(i), A[i]); S.part(i).flags.set(active); } else put(S.star(i), A[i]);
    if (kind == 1) for (int q=0;q<nd+2;q++) { MeshlessFVParticle<nd>* p = mfvp<nd>(S, i); p->Qcons0[q] = A[i].q0[q]; p->dQ[q] = A[i].dq[q]; p->dQdt[q] = A[i].dqdt[q]; } }
  DomainBox<nd>& box = S.sim->simbox; 
  if (kind < 2) { S.hydro().Nhydro = n; S.sim->hydroint->CheckBoundaries(box, &S.hydro()); }
  else { S.nbody().Nstar = S.nbody().Nnbody = n; for (int i=0;i<n;i++) S.nbody().nbodydata[i] = &S.star(i); S.nbody().CheckBoundaries(0, n, 0, 0, box, S.nbody().nbodydata); }
  c.step(); bool any = false;
  for (int i=0;i<n;i++) { St e = A[i]; 
    for (int k=0;k<nd;k++) { double L = HI[k]-LO[k]; int side = A[i].r[k] < LO[k] ? -1 : A[i].r[k] > HI[k] ? 1 : 0; if (!side) continue; std::string b = side < 0 ? LH[bt[k]] : RH[bt[k]];
      if (b == "open") continue; any = true;
      if (b == "periodic") { e.r[k] -= side*L; e.r0[k] -= side*L; }
      else { double w = side < 0 ? LO[k] : HI[k]; e.r[k] = 2*w-e.r[k]; e.r0[k] = 2*w-e.r0[k]; e.v[k] *= -1; e.v0[k] *= -1; e.a[k] *= -1; e.a0[k] *= -1; e.q0[k] *= -1; e.dq[k] *= -1; e.dqdt[k] *= -1;
        // over-shoot beyond the far side (possible only if it crossed most of the box in a step): not required
        if (e.r[k] < LO[k] || e.r[k] > HI[k]) { e.r[k] = NAN; } } }
    auto cmp = [&](auto& p) { for (int k=0;k<nd;k++) { if (e.r[k] != e.r[k]) return; }
      for (int k=0;k<nd;k++) { double L = HI[k]-LO[k];
        struct { const char* n; double got, want; } T[] = {{"position",p.r[k],e.r[k]},{"start position",p.r0[k],e.r0[k]},{"velocity",p.v[k],e.v[k]},{"start velocity",p.v0[k],e.v0[k]},{"acceleration",p.a[k],e.a[k]},{"start acceleration",p.a0[k],e.a0[k]}};
        for (auto& t : T) if (fabs(t.got-t.want) > 1e-12*L*4) { c.fail("wrap", "%dD %s %s: particle at (%.10g,%.10g,%.10g): %s along %d is %.12g, expected %.12g", nd, bname<nd>(bt).c_str(), kind == 2 ? "star" : kind ? "mfv" : "sph", A[i].r[0], nd > 1 ? A[i].r[1] : 0, nd > 2 ? A[i].r[2] : 0, t.n, k, t.got, t.want); return; } } };
    if (kind < 2) cmp(S.part(i)); else cmp(S.star(i)); if (c.failed) return;
    if (kind == 1) { MeshlessFVParticle<nd>* p = mfvp<nd>(S, i); bool in = true; for (int k=0;k<nd;k++) if (e.r[k] != e.r[k]) in = false; if (in) for (int q=0;q<nd+2;q++) if (fabs(p->Qcons0[q]-e.q0[q]) + fabs(p->dQ[q]-e.dq[q]) + fabs(p->dQdt[q]-e.dqdt[q]) > 1e-12) { c.fail("wrap-conserved", "%s: conserved quantity %d of a reflected particle is (%g %g %g), expected (%g %g %g)", bname<nd>(bt).c_str(), q, p->Qcons0[q], p->dQ[q], p->dQdt[q], e.q0[q], e.dq[q], e.dqdt[q]); return; } }
  }
  if (any) c.interesting();
  c.describe(fmt("%dD %s %s", nd, kind == 2 ? "star" : kind ? "mfv" : "sph", bname<nd>(bt).c_str()));
}
// ------------------------------------------------------------------------------------------------------------------------------------
template<int nd> struct Img { int j; double r[nd]; int s[nd]; bool real; };
template<int nd, class Get> void images(Get r, int j, const int* t, std::vector<Img<nd>>& out) {
  Img<nd> a; a.j = j; a.real = true; for (int k=0;k<nd;k++) { a.r[k] = r(j,k); a.s[k] = 1; } size_t s0 = out.size(); out.push_back(a);
  for (int k=0;k<nd;k++) { size_t n = out.size(); double L = HI[k]-LO[k]; std::string l = LH[t[k]], rr = RH[t[k]];
    for (size_t m=s0;m<n;m++) { Img<nd> b = out[m]; b.real = false; double x = b.r[k];
      if (l == "periodic") { b.r[k] = x-L; out.push_back(b); b.r[k] = x+L; out.push_back(b); }
      b.s[k] = -out[m].s[k]; if (l == "mirror") { b.r[k] = 2*LO[k]-x; out.push_back(b); } if (rr == "mirror") { b.r[k] = 2*HI[k]-x; out.push_back(b); } } }
}
const double X1[9] = {0.013, 0.147, 0.331, 0.502, 0.683, 0.861, 0.983, 0.239, 0.915};
const double X2[10][2] = {{.021,.033},{.972,.027},{.031,.981},{.963,.957},{.491,.017},{.023,.513},{.989,.471},{.527,.968},{.503,.489},{.287,.231}};
const double X3[10][3] = {{.021,.033,.027},{.972,.027,.041},{.031,.981,.023},{.963,.957,.968},{.491,.017,.503},{.023,.513,.981},{.989,.471,.977},{.527,.968,.033},{.503,.489,.511},{.044,.961,.953}};
template<int nd> double place(int s, int k) { double f = nd == 1 ? X1[s] : nd == 2 ? X2[s][k] : X3[s][k]; return LO[k] + f*(HI[k]-LO[k]); }
const double HS[6][4] = {{0.24,0.24,0.24,0.24},{0.04,0.04,0.04,0.04},{0.27,0.04,0.02,0.11},{0.03,0.25,0.08,0.02},{0.15,0.02,0.2,0.12},{0.02,0.05,0.28,0.03}};
template<int nd> void ghosts(Ctx& c) {
  int bt[3] = {0,0,0}; 
  if (nd == 3) { static const int B[9][3] = {{PP,PP,PP},{MM,MM,MM},{PP,OO,OO},{OO,PP,PP},{PP,MM,OO},{MM,WW,PP},{MO,OM,MM},{OM,PP,MW},{OO,OO,MM}}; int b = c.choose(9, "boundaries"); for (int k=0;k<3;k++) bt[k] = B[b][k]; }
  else for (int k=0;k<nd;k++) bt[k] = c.pick(std::vector<int>{OO,PP,MM,MO,OM,MW,WM});
  int kind = c.choose(2, "kind"), tree = c.choose(3, "tree"), hp = c.choose(6, "h pattern"); if (nd == 3 && !c.thorough && (kind+tree+hp)%2) c.prune();
  static const char* TN[] = {"kdtree","octtree","bruteforce"};
  int NP = nd == 1 ? 9 : 10, m = 0, id[4], last = -1, nmax = nd == 1 || c.thorough ? 3 : 2;
  while (m < nmax && last+1 < NP) { int x = c.choose(NP-last-1 + (m ? 1 : 0), "place"); if (m) { if (!x) break; x--; } last += 1+x; id[m++] = last; }
  int small = nd == 3 ? 0 : c.choose(2, "tight storage");
  sim::Opts o = opts<nd>(bt, TN[tree]); sim::Sim<nd> S(kind ? "mfvmuscl" : "sph", o, m, 0); Hydrodynamics<nd>& H = S.hydro();
  H.Nhydro = m; (void) small;
  for (int i=0;i<m;i++) { Particle<nd>& p = S.part(i); for (int k=0;k<nd;k++) { p.r[k] = place<nd>(id[i], k); p.v[k] = 0.3+0.7*i+0.1*k; p.a[k] = 0.2*i-0.5*k-0.1; } p.m = 1+0.1*i; p.h = HS[hp][(i+id[0]%3)%4]; p.hrangesqd = 4*p.h*p.h; p.rho = 2+i; p.u = 1.5+i; p.iorig = i; p.flags.set(active); p.ptype = gas_type; }
  if (small) H.Nhydromax = m;     // (storage is grown while the ghosts are made)
  Simulation<nd>* s = S.sim; NeighbourSearch<nd>* ns = kind ? (NeighbourSearch<nd>*) static_cast<MeshlessFVSimulation<nd>*>(s)->mfvneib : (NeighbourSearch<nd>*) static_cast<SphSimulation<nd>*>(s)->sphneib;
  ns->BuildTree(true, 0, 1, 1, 0.0, &H); ns->SearchBoundaryGhostParticles(0.0, s->simbox, &H); c.step();
  std::string d = fmt("%dD %s %s %s%s", nd, kind ? "mfv" : "sph", bname<nd>(bt).c_str(), TN[tree], small ? " tight" : ""); for (int i=0;i<m;i++) { d += fmt(" [h %.3g (", S.part(i).h); for (int k=0;k<nd;k++) d += fmt("%.4g ", S.part(i).r[k]); d += ")]"; } c.describe(d);
  if (!c.check(H.Nhydro == m && H.Ntot == m + H.NPeriodicGhost && H.NPeriodicGhost == H.Nghost, "counts", "particle counts Nhydro %d Ntot %d ghosts %d %d", H.Nhydro, H.Ntot, H.NPeriodicGhost, H.Nghost)) return;
  auto R = [&](int j, int k) { return (double) S.part(j).r[k]; };
  auto match = [&](bool first, const char* when) {
    std::vector<Img<nd>> im; for (int j=0;j<m;j++) images<nd>(R, j, bt, im); std::vector<int> used(im.size(), 0);
    for (int g=m; g<H.Ntot; g++) { Particle<nd>& p = S.part(g); int root = g, guard = 0; while (root >= m && guard++ < 9) { if (S.part(root).iorig < 0 || S.part(root).iorig >= root) { c.fail("parent", "%s: ghost %d refers to %d", when, root, S.part(root).iorig); return; } root = S.part(root).iorig; }
      Particle<nd>& q = S.part(root); int f = -1; for (size_t x=0;x<im.size();x++) if (im[x].j == root && !im[x].real) { double e = 0, ev = 0; for (int k=0;k<nd;k++) { e = std::max(e, fabs(im[x].r[k]-p.r[k])); ev = std::max(ev, fabs(im[x].s[k]*q.v[k]-p.v[k])); } if (e < 1e-10 && ev < 1e-10) f = x; }
      if (f < 0) { c.fail("ghost-image", "%s: ghost %d of particle %d at (%.6g,%.6g,%.6g) with velocity (%.4g,%.4g,%.4g) is no image of it", when, g, root, p.r[0], nd > 1 ? p.r[1] : 0, nd > 2 ? p.r[2] : 0, p.v[0], nd > 1 ? p.v[1] : 0, nd > 2 ? p.v[2] : 0); return; }
      if (used[f]++) { c.fail("ghost-twice", "%s: the image of particle %d at (%.6g,%.6g,%.6g) is generated twice", when, root, p.r[0], nd > 1 ? p.r[1] : 0, nd > 2 ? p.r[2] : 0); return; }
      bool mir = false; for (int k=0;k<nd;k++) mir |= im[f].s[k] < 0;
      if (!(p.m == q.m && p.h == q.h && p.rho == q.rho && p.u == q.u && p.ptype == q.ptype && p.hrangesqd == q.hrangesqd && p.sound == q.sound && p.pressure == q.pressure)) { c.fail("ghost-copy", "%s: a scalar property of ghost %d differs from its parent %d", when, g, root); return; }
      if (p.flags.check(active) || p.flags.is_dead() || (bool) p.flags.is_mirror() != mir) { c.fail("ghost-flags", "%s: ghost %d active %d dead %d mirror %d (expected mirror %d)", when, g, (int) p.flags.check(active), (int) p.flags.is_dead(), (int) p.flags.is_mirror(), (int) mir); return; }
      if (!first) for (int k=0;k<nd;k++) if (fabs(p.a[k]-im[f].s[k]*q.a[k]) > 1e-10) { c.fail("ghost-acc", "%s: acceleration of ghost %d along %d is %g, expected %g", when, g, k, p.a[k], im[f].s[k]*q.a[k]); return; }
      if (!first && kind) { MeshlessFVParticle<nd> *P = mfvp<nd>(S, g), *Q = mfvp<nd>(S, root); const int* s = im[f].s; auto sg = [&](int v) { return v < nd ? s[v] : 1; };
        for (int v=0;v<nd+2;v++) { if (fabs(P->Wprim[v]-sg(v)*Q->Wprim[v]) + fabs(P->dQ[v]-sg(v)*Q->dQ[v]) + fabs(P->dQdt[v]-sg(v)*Q->dQdt[v]) > 1e-10) { c.fail("ghost-state", "%s: state component %d of ghost %d (%g %g %g), parent (%g %g %g)", when, v, g, P->Wprim[v], P->dQ[v], P->dQdt[v], Q->Wprim[v], Q->dQ[v], Q->dQdt[v]); return; }
          for (int k=0;k<nd;k++) if (fabs(P->grad[v][k]-sg(v)*s[k]*Q->grad[v][k]) > 1e-10) { c.fail("ghost-grad", "%s: gradient [%d][%d] of ghost %d is %g, parent %g", when, v, k, g, P->grad[v][k], Q->grad[v][k]); return; } }
        for (int v=0;v<nd;v++) for (int k=0;k<nd;k++) if (fabs(P->B[v][k]-s[v]*s[k]*Q->B[v][k]) > 1e-10) { c.fail("ghost-B", "%s: matrix [%d][%d] of ghost %d is %g, parent %g", when, v, k, g, P->B[v][k], Q->B[v][k]); return; } } }
    if (first) for (size_t x=0;x<im.size();x++) if (!im[x].real && !used[x]) for (int i=0;i<m;i++) { double d2 = 0; for (int k=0;k<nd;k++) d2 += (im[x].r[k]-R(i,k))*(im[x].r[k]-R(i,k)); if (d2 < std::max(S.part(i).hrangesqd, S.part(im[x].j).hrangesqd)*(1-1e-9)) {
      c.fail("ghost-missing", "the image of particle %d (h %.3g) at (%.6g,%.6g,%.6g) lies within reach (%.4g) of particle %d (h %.3g) but has no ghost", im[x].j, S.part(im[x].j).h, im[x].r[0], nd > 1 ? im[x].r[1] : 0, nd > 2 ? im[x].r[2] : 0, sqrt(d2), i, S.part(i).h); return; } }
  };
  match(true, "made"); if (c.failed) return;
  if (H.Nghost) c.interesting();
  // the parents change; the ghosts follow
  for (int rep=0;rep<2;rep++) {
    for (int i=0;i<m;i++) { Particle<nd>& p = S.part(i); for (int k=0;k<nd;k++) { p.r[k] += 0.001*(i+1)*(k+1); p.v[k] = 1.3-0.4*i+0.3*k+rep; p.a[k] = 0.9+0.2*i+k; } p.m = 2.5+i+rep; p.h = 0.05+0.01*i; p.hrangesqd = 4*p.h*p.h; p.rho = 7+i; p.u = 3+i; p.sound = 1.25+i; p.pressure = 0.5+i; p.flags.set(active);
      if (kind) { MeshlessFVParticle<nd>* q = mfvp<nd>(S, i); for (int v=0;v<nd+2;v++) { q->Wprim[v] = 1.5+v+i; q->dQ[v] = 0.5-v+0.1*i; q->dQdt[v] = 2+0.3*v-i; for (int k=0;k<nd;k++) q->grad[v][k] = 1+v+0.1*k+0.01*i; } for (int v=0;v<nd;v++) for (int k=0;k<nd;k++) q->B[v][k] = 0.5+v*0.7+k*0.2+i; } }
    s->LocalGhosts->CopyHydroDataToGhosts(s->simbox, &H); c.step(); match(false, "after the parents changed"); if (c.failed) return;
  }
  // a second search starts afresh
  int n0 = H.Nghost; for (int i=0;i<m;i++) { Particle<nd>& p = S.part(i); for (int k=0;k<nd;k++) p.r[k] = place<nd>(id[i], k); p.h = HS[hp][(i+id[0]%3)%4]; p.hrangesqd = 4*p.h*p.h; }
  ns->BuildTree(true, 0, 1, 1, 0.0, &H); ns->SearchBoundaryGhostParticles(0.0, s->simbox, &H); c.step();
  if (!c.check(H.Nghost == n0 && H.Ntot == m+n0 && H.Nhydro == m, "again", "a repeated search makes %d ghosts instead of %d", H.Nghost, n0)) return;
  match(true, "made again");
}
// ------------------------------------------------------------------------------------------------------------------------------------
// whole runs.  A: the box as given.  B: an equivalent periodic box (mirrored dimensions doubled, periodic ones translated).
const double Y1[14] = {0.03, 0.09, 0.17, 0.25, 0.31, 0.38, 0.46, 0.52, 0.6, 0.665, 0.74, 0.82, 0.885, 0.96};
template<int nd> void runs(Ctx& c, bool mirror) {
  static const char* TY[] = {"sph","mfvmuscl","mfvrk"}; static const char* TN[] = {"kdtree","octtree","bruteforce"};
  int ty = c.choose(3, "method"), opt = c.choose(2, ty ? "zero mass flux" : "integrator"), lev = ty == 2 ? 1 : c.pick(std::vector<int>{1,4}), tree = nd == 1 ? 0 : c.choose(c.thorough ? 3 : 2, "tree");
  int which = mirror ? c.choose(nd == 1 ? 1 : 3, "mirrored dimensions") : c.choose(3, "shift"), flow = c.choose(4, "flow"), jit = c.choose(2, "arrangement");
  if (!c.thorough && nd == 2 && tree && opt) c.prune();
  int N1 = nd == 1 ? 14 : mirror && which == 2 ? 7 : 11, N = nd == 1 ? N1 : N1*N1; double hf = nd == 1 ? 1.2 : 1.0;
  bool mir[3] = {false,false,false}; double sh[3] = {0,0,0}; 
  if (mirror) { mir[0] = which != 1; mir[1] = nd > 1 && which != 0; } else for (int k=0;k<nd;k++) sh[k] = which == 0 ? (k ? 0 : 0.313) : which == 1 ? 0.5 : (k ? 0.77 : 0.21);
  auto build = [&](sim::Opts& o) { o.S("neib_search", TN[tree]).S("gas_eos", "energy_eqn").F("h_fac", hf).F("h_converge", 1e-10).I("Nlevels", lev).I("Nleafmax", 2).F("courant_mult", 0.1);
    if (ty == 0) o.S("sph_integration", opt ? "lfdkd" : "lfkdk"); else o.I("zero_mass_flux", opt); };
  sim::Opts oa, ob; build(oa); build(ob); int NB = N; double L[3] = {1,1,1};
  for (int k=0;k<nd;k++) { oa.box(k, 0.0, 1.0, mir[k] ? "mirror" : "periodic", mir[k] ? "mirror" : "periodic"); if (mir[k]) { ob.box(k, -1.0, 1.0, "periodic", "periodic"); NB *= 2; L[k] = 2; } else ob.box(k, sh[k], 1.0+sh[k], "periodic", "periodic"); }
  const double speed = 6;
  std::vector<sim::Body> A(N); for (int i=0;i<N;i++) { int x = i; sim::Body& b = A[i]; for (int k=0;k<nd;k++) { int q = x%N1; x /= N1; b.r[k] = nd == 1 ? (jit ? Y1[q] : (q+0.5)/N1) : (q+0.5+(jit ? 0.2*sin(3.1*i+2.3*k) : 0.0))/N1; }
    b.m = (1+(jit ? 0.2*cos(1.7*i) : 0))/N; b.u = 1 + 0.3*sin(2.1*i); for (int k=0;k<nd;k++) b.v[k] = flow == 0 ? 0 : flow == 1 ? speed*(k ? 0.4 : 1) : flow == 2 ? -speed*(k ? -0.7 : 1) : speed*sin(4.3*i+1.1*k); }
  struct Id { int j; int s[3]; }; std::vector<Id> ids; std::vector<sim::Body> B;
  for (int q=0;q<(1<<nd);q++) { bool ok = true; for (int k=0;k<nd;k++) if ((q>>k&1) && !mir[k]) ok = false; if (!ok) continue; for (int i=0;i<N;i++) { Id d; d.j = i; sim::Body b = A[i]; for (int k=0;k<nd;k++) { d.s[k] = (q>>k&1) ? -1 : 1; b.r[k] = d.s[k]*b.r[k]; b.v[k] *= d.s[k]; if (!mir[k]) { if (b.r[k] < sh[k]) b.r[k] += 1; } } ids.push_back(d); B.push_back(b); } }
  c.describe(fmt("%dD %s %s levels %d %s: %s %d, flow %d, arrangement %d", nd, TY[ty], ty ? (opt ? "Lagrangian" : "with mass flux") : opt ? "lfdkd" : "lfkdk", lev, TN[tree], mirror ? "mirror" : "shift", which, flow, jit));
  sim::Sim<nd> a(TY[ty], oa, N, 0), b(TY[ty], ob, NB, 0); for (int i=0;i<N;i++) a.set(i, A[i]); for (int i=0;i<NB;i++) b.set(i, B[i]); a.setup(); b.setup();
  int steps = c.thorough ? 24 : nd == 1 ? 16 : 6; bool crossed = false;
  for (int n=0;n<=steps;n++) {
    if (n) { a.step(); b.step(); c.step(); }
    if (!c.near("time", "simulated time", a.sim->t, b.sim->t, 1e-8, a.sim->t + 1e-30)) return;
    if (!c.check(a.hydro().Nhydro == N && b.hydro().Nhydro == NB, "count", "particles %d %d", a.hydro().Nhydro, b.hydro().Nhydro)) return;
    double vm = 0; for (int i=0;i<N;i++) for (int k=0;k<nd;k++) vm = std::max(vm, fabs(a.part(i).v[k]));
    for (int i=0;i<NB;i++) { Particle<nd>&q = b.part(i); int j = -1; Id& d = ids[q.iorig < NB && q.iorig >= 0 ? q.iorig : 0]; (void) j;
      // particles may have been re-ordered: find the partner by its original index
      int pa = -1; for (int x=0;x<N && pa<0;x++) if (a.part(x).iorig == d.j) pa = x; if (pa < 0) { c.fail("lost", "particle %d is lost", d.j); return; } Particle<nd>& p = a.part(pa);
      bool ok = true; char w[200] = "";
      for (int k=0;k<nd;k++) { double e = q.r[k] - d.s[k]*p.r[k]; e -= L[k]*floor(e/L[k]+0.5); if (!(fabs(e) < 1e-7)) { ok = false; snprintf(w, 200, "position along %d: %.12g against %.12g", k, (double) q.r[k], (double) p.r[k]); }
        if (!(fabs(q.v[k]-d.s[k]*p.v[k]) < 1e-6*(vm+1))) { ok = false; snprintf(w, 200, "velocity along %d: %.12g against %.12g (sign %d)", k, (double) q.v[k], (double) p.v[k], d.s[k]); }
        double lo = mir[k] ? -1 : sh[k], hi = 1+sh[k]; 
        if (p.r[k] < -1e-9 || p.r[k] > 1+1e-9 || q.r[k] < lo-1e-9 || q.r[k] > hi+1e-9) { c.fail("outside", "step %d: particle %d lies outside the box: %g", n, d.j, p.r[k] < -1e-9 || p.r[k] > 1+1e-9 ? p.r[k] : q.r[k]); return; } }
      if (!(fabs(q.rho-p.rho) < 1e-6*p.rho)) { ok = false; snprintf(w, 200, "density: %.12g against %.12g", (double) q.rho, (double) p.rho); }
      if (!(fabs(q.u-p.u) < 1e-6*(p.u+1))) { ok = false; snprintf(w, 200, "energy: %.12g against %.12g", (double) q.u, (double) p.u); }
      if (!(fabs(q.m-p.m) < 1e-7*p.m)) { ok = false; snprintf(w, 200, "mass: %.12g against %.12g", (double) q.m, (double) p.m); }
      if (!ok) { c.fail(mirror ? "mirror-run" : "shift-run", "step %d (t=%.6g): particle %d differs from its %s: %s", n, a.sim->t, d.j, mirror ? "mirror twin in the doubled box" : "twin in the translated box", w); return; } }
    for (int i=0;i<N;i++) for (int k=0;k<nd;k++) if (a.part(i).v[k]*A[a.part(i).iorig].v[k] < 0 || fabs(a.part(i).r[k]-A[a.part(i).iorig].r[k]) > 0.5) crossed = true;
  }
  if (crossed) c.interesting();
}

// a crossing in the middle of a step: the integrators' view of a reflected (shifted) particle is the reflection (shift) of its path
template<int nd> void crossing(Ctx& c) {
  static const char* TY[] = {"sph","sph","mfvmuscl","mfvmuscl"}; int ty = c.choose(4, "integrator"), k0 = c.choose(nd, "direction"), b0 = c.choose(3, "boundary"), side = c.choose(2, "side"), nst = c.pick(std::vector<int>{2,4,8}), at = 1 + c.choose(nst, "crossing at"), gr = ty >= 2 ? c.choose(2, "gravity") : 0, fx = c.choose(3, "exchanges");
  static const int BT[3] = {MM, WW, PP}; int bt[3] = {OO,OO,OO}; bt[k0] = BT[b0]; int open[3] = {OO,OO,OO};
  auto mk = [&](const int* t) { sim::Opts o = opts<nd>(t); o.S("gas_eos", "energy_eqn").I("Nlevels", 5); if (ty < 2) o.S("sph_integration", ty ? "lfdkd" : "lfkdk"); else o.I("zero_mass_flux", ty-2); return o; };
  sim::Sim<nd> A(TY[ty], mk(bt), 1, 0), B(TY[ty], mk(open), 1, 0); double tau = 0.01, speed = 3;
  auto put = [&](sim::Sim<nd>& S) { S.hydro().Nhydro = 1; Particle<nd>& p = S.part(0); for (int k=0;k<nd;k++) { p.v0[k] = p.v[k] = k == k0 ? (side ? speed : -speed) : 0.4+k; p.r0[k] = p.r[k] = k == k0 ? (side ? HI[k]-(at-0.5)*tau*speed : LO[k]+(at-0.5)*tau*speed) : 0.5*(LO[k]+HI[k]); p.a0[k] = p.a[k] = (ty >= 2 && !gr) ? 0 : 0.6-0.5*k; }
    p.m = 1.3; p.h = 0.1; p.hrangesqd = 0.04; p.hfactor = 1; p.rho = 1; p.u = p.u0 = 2; p.dudt = 0.1; p.nstep = nst; p.nlast = 0; p.tlast = 0; p.dt = nst*tau; p.dt_next = nst*tau; p.ptype = gas_type; p.flags.set(active); p.cooling = 0;
    if (ty >= 2) { MeshlessFVParticle<nd>* q = mfvp<nd>(S, 0); q->ndens = 1/p.m; double ke = 0; for (int k=0;k<nd;k++) { q->Qcons0[k] = p.m*p.v[k]; ke += 0.5*p.m*p.v[k]*p.v[k]; } q->Qcons0[nd] = p.m; q->Qcons0[nd+1] = ke + p.m*p.u;
      if (fx) { for (int k=0;k<nd;k++) { q->dQ[k] = 0.05*(fx == 1 ? 1 : -1)+0.01*k; q->dQdt[k] = q->dQ[k]/(nst*tau); q->rdmdt[k] = 0.002*k; } q->dQ[nd+1] = 0.3; q->dQdt[nd+1] = q->dQ[nd+1]/(nst*tau); if (ty == 2) { q->dQ[nd] = 0.02; q->dQdt[nd] = 0.02/(nst*tau); } } } };
  put(A); put(B); if (ty < 2 && fx) c.prune();
  c.describe(fmt("%dD %s crossing %s side %d of direction %d at %d of %d, exchanges %d gravity %d", nd, ty == 0 ? "lfkdk" : ty == 1 ? "lfdkd" : ty == 2 ? "mfv" : "mfv Lagrangian", LH[BT[b0]], side, k0, at, nst, fx, gr));
  bool crossed = false;
  for (int n=1;n<=nst;n++) { double t = n*tau;
    for (int w=0;w<2;w++) { sim::Sim<nd>& S = w ? B : A; S.sim->hydroint->AdvanceParticles(n, t, tau, &S.hydro()); S.sim->hydroint->CheckBoundaries(S.sim->simbox, &S.hydro()); if (n == nst) S.part(0).flags.set(end_timestep); S.sim->hydroint->EndTimestep(n, t, tau, &S.hydro()); }
    c.step(); Particle<nd>&p = A.part(0), &q = B.part(0); bool out = q.r[k0] < LO[k0] || q.r[k0] > HI[k0]; crossed |= out;
    for (int k=0;k<nd;k++) { double x = q.r[k], v = q.v[k], x0 = q.r0[k], v0 = q.v0[k]; if (k == k0 && crossed) { if (b0 == 2) { double L = HI[k]-LO[k]; x += side ? -L : L; x0 += side ? -L : L; } else { double w = side ? HI[k] : LO[k]; x = 2*w-x; v = -v; x0 = 2*w-x0; v0 = -v0; } }
      if (fabs(p.r[k]-x) > 1e-10 || fabs(p.v[k]-v) > 1e-10 || fabs(p.r0[k]-x0) > 1e-10 || fabs(p.v0[k]-v0) > 1e-10) { c.fail("crossing", "after %d of %d: along %d position %.10g velocity %.10g start %.10g %.10g, expected %.10g %.10g %.10g %.10g", n, nst, k, (double) p.r[k], (double) p.v[k], (double) p.r0[k], (double) p.v0[k], x, v, x0, v0); return; } }
    if (fabs(p.m-q.m) + fabs(p.u-q.u) > 1e-10) { c.fail("crossing-scalar", "after %d of %d: mass %.12g energy %.12g, expected %.12g %.12g", n, nst, p.m, p.u, q.m, q.u); return; } }
  if (crossed) c.interesting();
}
}
SCENARIO(crossing1, 2, "a boundary crossed in the middle of a step, 1D") { crossing<1>(c); }
SCENARIO(crossing2, 2, "a boundary crossed in the middle of a step, 2D") { crossing<2>(c); }
SCENARIO(crossing3, 2, "a boundary crossed in the middle of a step, 3D") { crossing<3>(c); }
SCENARIO(wrap1, 1, "positions outside, on and inside the box, every boundary combination, 1D") { wrap<1>(c); }
SCENARIO(wrap2, 1, "positions outside, on and inside the box, every boundary combination, 2D") { wrap<2>(c); }
SCENARIO(wrap3, 2, "positions outside, on and inside the box, every boundary combination, 3D") { wrap<3>(c); }
SCENARIO(ghosts1, 2, "boundary images of every placement, 1D") { ghosts<1>(c); }
SCENARIO(ghosts2, 3, "boundary images of every placement, 2D") { ghosts<2>(c); }
SCENARIO(ghosts3, 3, "boundary images of every placement, 3D") { ghosts<3>(c); }
SCENARIO(mirror1, 3, "mirrored box against the doubled periodic box, 1D") { runs<1>(c, true); }
SCENARIO(mirror2, 3, "mirrored box against the doubled periodic box, 2D") { runs<2>(c, true); }
SCENARIO(shift1, 3, "periodic box against its translates, 1D") { runs<1>(c, false); }
SCENARIO(shift2, 3, "periodic box against its translates, 2D") { runs<2>(c, false); }
int main(int a, char** v) { return mc::main(a, v); }
