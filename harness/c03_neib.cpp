// C03 - neighbour searches.  Every placement of small particle sets on lattices that touch the box faces, edges and corners x every
// smoothing length pattern x boundary combination x tree type x leaf size through the real tree walks, NeighbourManager and
// GhostNeighbourFinder; every particle's list is compared with all images (periodic shifts x reflections) found by brute force.
#include <array>
#include "sim.hpp"
#include "KDTree.h"
#include "OctTree.h"
#include "BruteForceTree.h"
#include "NeighbourManager.h"
#include <memory>
#include <cstdarg>
using namespace mc;
namespace {
template<int nd> using PT = GradhSphParticle<nd>;
std::string fmt(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
const double KR = 2.0;
enum { OO, PP, MM, MO, OM };
const char* BN[] = {"open", "periodic", "mirror", "mirror-open", "open-mirror"};
template<int nd> void setbox(DomainBox<nd>& b, const int* t) {
  for (int k=0;k<nd;k++) { b.min[k] = 0; b.max[k] = 1; b.size[k] = 1; b.half[k] = 0.5;
    b.boundary_lhs[k] = t[k] == PP ? periodicBoundary : (t[k] == MM || t[k] == MO) ? mirrorBoundary : openBoundary;
    b.boundary_rhs[k] = t[k] == PP ? periodicBoundary : (t[k] == MM || t[k] == OM) ? mirrorBoundary : openBoundary; }
}
template<int nd> TreeBase<nd>* mktree(int tree, int leaf, const DomainBox<nd>& box, const ParticleTypeRegister& reg) {
  if (tree == 0) return new KDTree<nd,GradhSphParticle,KDTreeCell>(leaf, 0.25, KR, 1e-4, "geometric", "monopole", box, reg, false);
  if (tree == 1) return new OctTree<nd,GradhSphParticle,OctTreeCell>(leaf, 0.25, KR, 1e-4, "geometric", "monopole", box, reg, false);
  return new BruteForceTree<nd,GradhSphParticle,BruteForceTreeCell>(leaf, 0.25, KR, 1e-4, "geometric", "monopole", box, reg, false);
}
template<int nd> void build(TreeBase<nd>* T, int tree, int first, int n, int cap, PT<nd>* p) {
  if (tree == 0) { auto* t = static_cast<KDTree<nd,GradhSphParticle,KDTreeCell>*>(T); t->Ntot = n; t->BuildTree(first, first+n-1, n, cap, 0.0, p); }
  else if (tree == 1) { auto* t = static_cast<OctTree<nd,GradhSphParticle,OctTreeCell>*>(T); t->Ntot = n; t->BuildTree(first, first+n-1, n, cap, 0.0, p); }
  else { auto* t = static_cast<BruteForceTree<nd,GradhSphParticle,BruteForceTreeCell>*>(T); t->Ntot = n; t->BuildTree(first, first+n-1, n, cap, 0.0, p); }
}
template<int nd> struct Img { int j; double r[nd]; int v[nd]; bool mirror; };
// all images of particle j that the boundaries generate
template<int nd> void images(const PT<nd>& q, int j, const int* t, std::vector<Img<nd>>& out) {
  Img<nd> a; a.j = j; a.mirror = false; for (int k=0;k<nd;k++) { a.r[k] = q.r[k]; a.v[k] = 1; }
  size_t s0 = out.size(); out.push_back(a);
  for (int k=0;k<nd;k++) { size_t n = out.size(); for (size_t m=s0;m<n;m++) { Img<nd> b = out[m];
    if (t[k] == PP) { b.r[k] = out[m].r[k]-1; out.push_back(b); b.r[k] = out[m].r[k]+1; out.push_back(b); }
    if (t[k] == MM || t[k] == MO) { b = out[m]; b.r[k] = -out[m].r[k]; b.v[k] = -b.v[k]; b.mirror = true; out.push_back(b); }
    if (t[k] == MM || t[k] == OM) { b = out[m]; b.r[k] = 2-out[m].r[k]; b.v[k] = -b.v[k]; b.mirror = true; out.push_back(b); } } }
}
// places: generic positions, several within reach of faces, edges, corners; no two pair distances coincide with a kernel range
template<int nd> int nplaces() { return nd == 1 ? 8 : nd == 2 ? 10 : 11; }
template<int nd> void place(int s, double* r) {
  static const double X1[8] = {0.013, 0.147, 0.331, 0.502, 0.683, 0.861, 0.983, 0.239};
  static const double X2[10][2] = {{.021,.033},{.972,.027},{.031,.981},{.963,.957},{.491,.017},{.023,.513},{.989,.471},{.527,.968},{.503,.489},{.287,.231}};
  static const double X3[11][3] = {{.021,.033,.027},{.972,.027,.041},{.031,.981,.023},{.963,.957,.968},{.491,.017,.503},{.023,.513,.981},{.989,.471,.977},{.527,.968,.033},{.503,.489,.511},{.287,.231,.739},{.044,.961,.953}};
  for (int k=0;k<nd;k++) r[k] = nd == 1 ? X1[s] : nd == 2 ? X2[s][k] : X3[s][k];
}
struct Set { int n; int id[6]; };
// all subsets of the places, of at most nmax members, in increasing order (choices made one by one)
template<int nd> Set subset(Ctx& c, int nmin, int nmax) {
  Set S; S.n = 0; int last = -1, NP = nplaces<nd>();
  while (S.n < nmax && last+1 < NP) { int o = c.choose(NP-last-1 + (S.n >= nmin ? 1 : 0), "place"); if (S.n >= nmin) { if (o == 0) break; o--; } last += 1+o; S.id[S.n++] = last; }
  if (S.n < nmin) c.prune();
  return S;
}
const double HS[6][4] = {{0.24,0.24,0.24,0.24},{0.05,0.05,0.05,0.05},{0.24,0.06,0.03,0.11},{0.04,0.235,0.1,0.03},{0.15,0.02,0.2,0.12},{0.03,0.1,0.05,0.241}};
template<int nd> std::vector<PT<nd>> particles(const Set& S, int hp) {
  std::vector<PT<nd>> P(S.n);
  for (int i=0;i<S.n;i++) { place<nd>(S.id[i], P[i].r); for (int k=0;k<nd;k++) { P[i].v[k] = 0.3+0.7*i+0.1*k; P[i].a[k] = 0; } P[i].m = 1+0.1*i; P[i].h = HS[hp][(i+(S.id[0]%3))%4]; P[i].hrangesqd = KR*KR*P[i].h*P[i].h; P[i].rho = 1; P[i].iorig = i; P[i].ptype = gas_type; P[i].flags = type_flag(); P[i].flags.set(active); P[i].level = 0; P[i].sound = 1; }
  return P;
}
template<int nd> std::string desc(const std::vector<PT<nd>>& P) { std::string s; char b[200]; for (auto& p : P) { snprintf(b, 200, "[%d%s%s l%d h%.3g (", p.iorig, p.flags.is_dead() ? " dead" : "", p.flags.check(active) ? "" : " passive", (int) p.level, p.h); s += b; for (int k=0;k<nd;k++) { snprintf(b, 200, "%.3g ", p.r[k]); s += b; } s += ")] "; } return s; }

template<int nd, class OutT> void lists(Ctx& c, std::vector<PT<nd>>& P, int tree, int leaf, const int* bt, const Typemask& mask, bool once) {
  DomainBox<nd> box; setbox<nd>(box, bt); Parameters Par; ParticleTypeRegister reg(&Par); int N = P.size();
  std::unique_ptr<TreeBase<nd>> T(mktree<nd>(tree, leaf, box, reg)); build<nd>(T.get(), tree, 0, N, N, P.data());
  // particles die after the tree was built (accretion), before the search
  for (auto& p : P) if (p.levelneib == 99) { p.flags.set(dead); p.flags.unset(active); }
  T->UpdateActiveParticleCounters(P.data());
  std::vector<TreeCellBase<nd>> cells; int nc = T->ComputeActiveCellList(cells); std::vector<int> act(N+leaf+8, -1); NeighbourManager<nd,OutT> nm(reg, KR, box);
  std::map<std::array<int,3>, int> pairs; std::vector<int> seen(N, 0); bool nontriv = false;
  for (int ic=0;ic<nc;ic++) {
    TreeCellBase<nd>& cell = cells[ic]; int na = T->ComputeActiveParticleList(cell, P.data(), act.data()); std::vector<int> A(act.begin(), act.begin()+na);
    nm.clear(); T->ComputeNeighbourAndGhostList(cell, nm); nm.EndSearch(cell, P.data());
    for (int i : A) {
      seen[i]++; NeighbourList<OutT> L = nm.GetParticleNeib(P[i], mask, once);
      std::vector<Img<nd>> imgs; for (int j=0;j<N;j++) if (!P[j].flags.is_dead() && mask[P[j].ptype]) images<nd>(P[j], j, bt, imgs);
      std::vector<char> used(L.size(), 0);
      for (auto& x : imgs) {
        double d2 = 0; for (int k=0;k<nd;k++) d2 += (x.r[k]-P[i].r[k])*(x.r[k]-P[i].r[k]);
        double lim = std::max(P[i].hrangesqd, P[x.j].hrangesqd); bool in = d2 < lim;
        if (fabs(d2-lim) < 1e-9) c.prune();
        if (once && !(x.mirror && x.j == i)) {       // one of the two members of the pair carries it out (the exchange with its own image: itself)
          int im = 0; for (int k=0;k<nd;k++) im = 3*im + (x.v[k] < 0 ? x.r[k] < P[x.j].r[k] ? 1 : 2 : 0);
          if (x.j == i) in = false; else if (P[x.j].flags.check(active)) { int n = 0; for (size_t q=0;q<L.size();q++) if (L[q].iorig == P[x.j].iorig) { double e = 0; for (int k=0;k<nd;k++) e = std::max(e, fabs(L[q].r[k]-x.r[k])); if (e < 1e-12) { n++; used[q] = 1; } } if (in && mask[P[i].ptype]) pairs[{std::min(i,x.j),std::max(i,x.j),im}] += n; else if (in) ; else if (n) { c.fail("extra", "particle %d has the image of %d out of range", i, x.j); return; } continue; }
          else if (in && P[x.j].level > P[i].level) in = false;    // (not reached: passive particles have lower levels)
        }
        int n = 0; for (size_t q=0;q<L.size();q++) if (L[q].iorig == P[x.j].iorig) { double e = 0; for (int k=0;k<nd;k++) e = std::max(e, fabs(L[q].r[k]-x.r[k])); if (e < 1e-12) { n++; used[q] = 1;
          for (int k=0;k<nd;k++) if (in && fabs(L[q].v[k] - x.v[k]*P[x.j].v[k]) > 1e-12) { c.fail("image-velocity", "image of %d seen by %d has velocity %g along %d, expected %g", x.j, i, L[q].v[k], k, x.v[k]*P[x.j].v[k]); return; }
          if (in && (bool) L[q].flags.is_mirror() != x.mirror) { c.fail("image-flag", "image of %d seen by %d: mirror flag %d", x.j, i, (int) L[q].flags.is_mirror()); return; } } }
        if (in) nontriv |= x.j != i;
        if (n != (in ? 1 : 0)) { char b[200] = ""; for (int k=0;k<nd;k++) snprintf(b+strlen(b), 60, "%.4g ", x.r[k]); c.fail(in ? (n ? "duplicate" : "missing") : "extra", "particle %d: image of %d at (%s) listed %d times, expected %d; distance %.4g, ranges %.4g %.4g", i, x.j, b, n, (int) in, sqrt(d2), sqrt(P[i].hrangesqd), sqrt(P[x.j].hrangesqd)); return; }
      }
      for (size_t q=0;q<L.size();q++) if (!used[q]) { c.fail("unknown", "particle %d has a neighbour entry %d (of %d) that is no image of a live particle of a wanted type", i, (int) L[q].iorig, (int) L.size()); return; }
    }
  }
  for (int i=0;i<N;i++) if (!c.check(seen[i] == (P[i].flags.check(active) && !P[i].flags.is_dead() ? 1 : 0), "active-once", "active particle %d is served %d times", i, seen[i])) return;
  if (once) for (auto& x : pairs) if (!c.check(x.second == 1, "pair-once", "the pair %d-%d (reflections %d) is carried out %d times", x.first[0], x.first[1], x.first[2], x.second)) return;
  if (nontriv) c.interesting();
}
const std::vector<std::vector<int>> B3 = {{OO,OO,OO},{PP,PP,PP},{MM,MM,MM},{PP,OO,OO},{OO,PP,PP},{PP,MM,OO},{MM,PP,PP},{PP,PP,MO},{MO,OM,MM},{OM,PP,MO},{OO,MM,OM},{MO,MO,MO}};
template<int nd> void bounds(Ctx& c, int* bt) { if (nd == 3) { auto& b = B3[c.choose(B3.size(), "boundaries")]; for (int k=0;k<3;k++) bt[k] = b[k]; } else for (int k=0;k<nd;k++) bt[k] = c.choose(5, "boundary"); }
template<int nd> void symmetric(Ctx& c) {
  int bt[3]; bounds<nd>(c, bt); int tree = c.choose(3, "tree"), leaf = tree == 2 ? 1 : c.pick(c.thorough ? std::vector<int>{1,2,3,6} : nd == 3 ? std::vector<int>{2} : std::vector<int>{1,2});
  int hp = c.choose(nd == 3 && !c.thorough ? 3 : 6, "h pattern"); Set S = subset<nd>(c, nd == 1 ? 1 : 2, nd == 1 ? 4 : c.thorough ? 4 : 3);
  std::vector<PT<nd>> P = particles<nd>(S, hp); Typemask all; for (int k=0;k<Ntypes;k++) all[k] = true;
  c.describe(fmt("%dD %s %s %s tree %d leaf %d %s", nd, BN[bt[0]], nd > 1 ? BN[bt[1]] : "", nd > 2 ? BN[bt[2]] : "", tree, leaf, desc<nd>(P).c_str()));
  c.step(); lists<nd,typename PT<nd>::HydroForcesParticle>(c, P, tree, leaf, bt, all, false);
}
// levels, activity, dead particles and types
template<int nd> void patterns(Ctx& c) {
  int bt[3]; { static const int M[6][3] = {{OO,OO,OO},{PP,PP,PP},{MM,MM,MM},{PP,MM,OO},{MO,PP,MM},{OM,OM,PP}}; int b = c.choose(nd == 1 ? 3 : 6, "boundaries"); for (int k=0;k<nd;k++) bt[k] = M[b][k]; }
  int tree = c.choose(3, "tree"), leaf = tree == 2 ? 1 : c.pick(c.thorough ? std::vector<int>{1,2,6} : std::vector<int>{2}), hp = c.choose(c.thorough ? 4 : 2, "h pattern")*2; 
  static const int SETS[4][4] = {{0,1,2,3},{0,3,5,7},{1,4,6,2},{0,2,3,6}}; Set S; S.n = 4; int si = c.choose(c.thorough ? 4 : nd == 1 ? 2 : 1, "set"); for (int i=0;i<4;i++) S.id[i] = SETS[si][i];
  std::vector<PT<nd>> P = particles<nd>(S, hp); int once = c.choose(2, "pair once"), mode = c.choose(3, "mask"); Typemask mask; for (int k=0;k<Ntypes;k++) mask[k] = mode == 0; if (mode == 1) mask[gas_type] = true; if (mode == 2) mask[dust_type] = mask[gas_type] = true;
  int thr = c.choose(3, "lowest active level"), tp = mode == 0 ? 0 : c.thorough ? c.choose(16, "types") : c.pick(std::vector<int>{1,4,6,10});
  for (int i=0;i<4;i++) { P[i].level = c.choose(3, "level"); if (P[i].level < thr) P[i].flags.unset(active); int t = tp>>i&1; P[i].ptype = t ? (mode == 1 ? dust_type : cdm_type) : gas_type; }
  int dd = c.choose(c.thorough ? 5 : nd == 1 ? 3 : 2, "dead"); if (dd) P[dd-1].levelneib = 99; P[0].iorig = 2; P[2].iorig = 0;      // creation order differs from array order
  c.describe(fmt("%dD %s %s %s tree %d leaf %d once %d mask %d %s", nd, BN[bt[0]], nd > 1 ? BN[bt[1]] : "", nd > 2 ? BN[bt[2]] : "", tree, leaf, once, mode, desc<nd>(P).c_str()));
  c.step(); lists<nd,typename PT<nd>::HydroForcesParticle>(c, P, tree, leaf, bt, mask, once);
}
// gather lists for cells and points, over every buffer size
template<int nd> void gather(Ctx& c, bool point) {
  int bt[3] = {OO,OO,OO}; DomainBox<nd> box; setbox<nd>(box, bt); Parameters Par; ParticleTypeRegister reg(&Par);
  int tree = c.choose(3, "tree"), leaf = tree == 2 ? 1 : c.pick(std::vector<int>{1,2,3,6}), hp = c.choose(2, "h pattern")*2;
  int n1 = c.choose(4, "first tree")+1, n2 = c.choose(4, "second tree"), N = n1+n2, rot = c.choose(c.thorough ? 8 : 3, "places"); Set S; S.n = 1; S.id[0] = 0; std::vector<PT<nd>> P;
  for (int i=0;i<N;i++) { S.id[0] = (i*3+rot) % nplaces<nd>(); PT<nd> p = particles<nd>(S, hp)[0]; p.iorig = i; P.push_back(p); }
  std::unique_ptr<TreeBase<nd>> A(mktree<nd>(tree, leaf, box, reg)), B(mktree<nd>(tree, leaf, box, reg));
  build<nd>(A.get(), tree, 0, n1, N, P.data()); build<nd>(B.get(), tree, n1, n2, N, P.data());
  int dead1 = c.choose(3, "dead"); if (dead1) { int i = dead1 == 1 ? 0 : N-1; P[i].flags.set(dead); P[i].flags.unset(active); }
  int nmax = c.choose(N+2*leaf+6, "buffer"); const int G = 999999999; std::vector<int> buf(nmax+64, G); c.step();
  auto judge = [&](int r, int Nn, const std::vector<char>& must, const std::vector<char>& may, const char* what) {
    for (int i=nmax;i<(int) buf.size();i++) if (!c.check(buf[i] == G, "overrun", "%s wrote past the end of a buffer of %d entries", what, nmax)) return;
    if (r == -1) { c.check(nmax <= N+2*leaf+2, "refused", "%s refused a buffer of %d entries for %d particles", what, nmax, N); return; }
    if (!c.check(r >= 0 && r <= nmax, "count", "%s returned %d entries for a buffer of %d", what, r, nmax)) return;
    std::vector<int> n(N, 0); for (int k=0;k<r;k++) { if (!c.check(buf[k] >= 0 && buf[k] < N, "entry", "%s lists particle %d", what, buf[k])) return; n[buf[k]]++; }
    for (int i=0;i<N;i++) { if (!c.check(n[i] >= must[i], "missing", "%s misses particle %d (buffer %d, %d found)", what, i, nmax, r)) return; if (!c.check(n[i] <= may[i], n[i] > 1 ? "duplicate" : "extra", "%s lists particle %d %d times", what, i, n[i])) return; }
    if (r > 0) c.interesting(); };
  if (point) {
    double rp[3] = {0.21,0.33,0.4}; int pi = c.choose(4, "point"); if (pi) { rp[0] = pi == 1 ? 0.5 : pi == 2 ? 0.97 : -0.4; rp[1] = pi == 1 ? 0.5 : 0.02; rp[2] = 0.5; } double R = c.pick(std::vector<double>{0.0, 0.2, 0.513, 5.0});
    int Nn = 0; int r = A->ComputeGatherNeighbourList(P.data(), rp, R, nmax, Nn, buf.data()); Nn = r; r = B->ComputeGatherNeighbourList(P.data(), rp, R, nmax, Nn, buf.data());
    std::vector<char> must(N,0); for (int i=0;i<N;i++) { double d = 0; for (int k=0;k<nd;k++) d += (P[i].r[k]-rp[k])*(P[i].r[k]-rp[k]); must[i] = d < R*R && !P[i].flags.is_dead(); }
    c.describe(fmt("%dD point search tree %d leaf %d N %d+%d radius %g buffer %d dead %d", nd, tree, leaf, n1, n2, R, nmax, dead1));
    judge(r, Nn, must, must, "point search");
  } else {
    A->UpdateActiveParticleCounters(P.data()); std::vector<TreeCellBase<nd>> cells; int nc = A->ComputeActiveCellList(cells); double hm = c.pick(std::vector<double>{0.02, 0.15, 0.31});
    c.describe(fmt("%dD cell gather search tree %d leaf %d N %d+%d hmax %g buffer %d dead %d", nd, tree, leaf, n1, n2, hm, nmax, dead1));
    for (int ic=0;ic<nc;ic++) { std::fill(buf.begin(), buf.end(), G); std::vector<int> act(N+leaf+8,-1); int na = A->ComputeActiveParticleList(cells[ic], P.data(), act.data());
      int Nn = 0; int r = A->ComputeGatherNeighbourList(cells[ic], P.data(), hm, nmax, Nn, buf.data()); Nn = r; r = B->ComputeGatherNeighbourList(cells[ic], P.data(), hm, nmax, Nn, buf.data());
      std::vector<char> must(N,0), may(N,0); for (int i=0;i<N;i++) { may[i] = !P[i].flags.is_dead(); if (may[i]) for (int a=0;a<na;a++) { double d = 0; for (int k=0;k<nd;k++) d += (P[i].r[k]-P[act[a]].r[k])*(P[i].r[k]-P[act[a]].r[k]); if (sqrt(d) < KR*hm) must[i] = 1; } }
      judge(r, Nn, must, may, "cell gather search");
      // the same search that also copies particles (symmetric version)
      std::fill(buf.begin(), buf.end(), G); std::vector<PT<nd>> out(nmax+64); for (auto& o : out) o.iorig = -7; Nn = 0; r = A->ComputeNeighbourList(cells[ic], P.data(), nmax, Nn, buf.data(), out.data()); Nn = r; r = B->ComputeNeighbourList(cells[ic], P.data(), nmax, Nn, buf.data(), out.data());
      for (int i=0;i<N;i++) { must[i] = 0; if (may[i]) for (int a=0;a<na;a++) { double d = 0; for (int k=0;k<nd;k++) d += (P[i].r[k]-P[act[a]].r[k])*(P[i].r[k]-P[act[a]].r[k]); if (sqrt(d) < KR*std::max(P[act[a]].h, P[i].h)) must[i] = 1; } }
      judge(r, Nn, must, may, "symmetric cell search");
      for (int k=0;k<r && !c.failed;k++) c.check(out[k].iorig == P[buf[k]].iorig, "copy", "entry %d is particle %d but holds the data of %d", k, buf[k], (int) out[k].iorig);
      if (c.failed) return; }
  }
}
// large sets: all places (but one) at once, deep trees
template<int nd> void deep(Ctx& c) {
  int bt[3]; bounds<nd>(c, bt); int tree = c.choose(3, "tree"), leaf = tree == 2 ? 1 : c.pick(std::vector<int>{1,2,3,6}), hp = c.choose(6, "h pattern"), out = c.choose(nplaces<nd>()+1, "left out"), sh = c.choose(c.thorough ? 4 : 2, "clumped"); Set S; S.n = 1;
  std::vector<PT<nd>> P; for (int i=0;i<nplaces<nd>()*(sh+1);i++) { S.id[0] = i % nplaces<nd>(); if (S.id[0] == out && i < nplaces<nd>()) continue; PT<nd> p = particles<nd>(S, hp)[0]; p.h = HS[hp][i%4]; p.hrangesqd = KR*KR*p.h*p.h; p.iorig = P.size(); p.m = 1+0.1*i; int z = i/nplaces<nd>(); for (int k=0;k<nd;k++) { p.r[k] = z ? 0.5+(p.r[k]-0.5)*(1-0.31*z)+0.0137*k : p.r[k]; p.v[k] = 0.3+0.7*i+0.1*k; } P.push_back(p); }
  Typemask all; for (int k=0;k<Ntypes;k++) all[k] = true; c.describe(fmt("%dD %s %s %s tree %d leaf %d %s", nd, BN[bt[0]], nd > 1 ? BN[bt[1]] : "", nd > 2 ? BN[bt[2]] : "", tree, leaf, desc<nd>(P).c_str()));
  c.step(); lists<nd,typename PT<nd>::HydroForcesParticle>(c, P, tree, leaf, bt, all, false);
}
// the search object of a running simulation: real and image particles, point searches for sinks and feedback
template<int nd> void whole(Ctx& c) {
  static const char* TR[] = {"kdtree", "octtree", "bruteforce"}; static const char* L[] = {"open","periodic","mirror","mirror","open"}; static const char* R[] = {"open","periodic","mirror","open","mirror"};
  int tree = c.choose(3, "tree"), b = c.choose(5, "boundary"), mfv = c.choose(2, "meshless"), leaf = c.pick(std::vector<int>{1,4}), hp = c.choose(2, "places");
  sim::Opts o; o.S("neib_search", TR[tree]).I("Nleafmax", leaf).S("gas_eos", "energy_eqn"); for (int k=0;k<nd;k++) o.box(k, 0.0, 1.0, L[k == 1 ? 0 : b], R[k == 1 ? 0 : b]);
  int N = 12; sim::Sim<nd> S(mfv ? "mfvmuscl" : "sph", o, N, 0);
  for (int i=0;i<N;i++) { sim::Body q; q.m = 1.0/N; q.h = 0.2; for (int k=0;k<nd;k++) q.r[k] = fmod(0.031 + (i+1)*(k == 0 ? 0.6180339887 : k == 1 ? 0.7548776662 : 0.5698402910) + hp*0.013, 1.0); if (nd == 1) q.r[0] = (i+0.37+0.2*(i%3==hp))/N; S.set(i, q); }
  S.setup(); Hydrodynamics<nd>& h = S.hydro(); int nt = h.Nhydro+h.NPeriodicGhost; c.step();
  for (int kill=0;kill<2;kill++) {
    if (kill) S.part(5).flags.set(dead);
    for (int pi=0;pi<5;pi++) for (double rad : {0.03, 0.17, 0.31}) {
      double rp[3]; for (int k=0;k<nd;k++) rp[k] = pi == 0 ? 0.5 : pi == 1 ? 0.02 : pi == 2 ? 0.97 : pi == 3 ? 0.05+0.4*k : -0.04;
      std::set<int> must; for (int i=0;i<nt;i++) { Particle<nd>& p = S.part(i); double d = 0; for (int k=0;k<nd;k++) d += (p.r[k]-rp[k])*(p.r[k]-rp[k]); if (d < rad*rad && !p.flags.is_dead()) must.insert(i); }
      for (int nmax=0;nmax<3*nt+8;nmax += 1+nmax/4) { std::vector<int> buf(nmax+200, -5); int r = S.sim->neib->GetGatherNeighbourList(rp, rad, h.GetParticleArrayUnsafe(), h.Nhydro, nmax, buf.data());
        c.describe(fmt("%dD %s %s mfv %d leaf %d point %d radius %g buffer %d", nd, TR[tree], L[b], mfv, leaf, pi, rad, nmax));
        for (int i=nmax;i<(int) buf.size();i++) if (!c.check(buf[i] == -5, "overrun", "the search wrote past the end of a buffer of %d", nmax)) return;
        if (r == -1) { if (!c.check(nmax <= 3*nt, "refused", "buffer of %d refused for %d particles", nmax, nt)) return; continue; }
        std::set<int> got(buf.begin(), buf.begin()+std::max(0,r)); if (!c.check((int) got.size() == r && got == must, "point-list", "%d entries (%d distinct), expected %d", r, (int) got.size(), (int) must.size())) return; }
      if (must.size() > 1) c.interesting();
    } }
}
}
SCENARIO(sim2, 2, "point searches of a running simulation, 2D") { whole<2>(c); }
SCENARIO(sim1, 2, "point searches of a running simulation, 1D") { whole<1>(c); }
SCENARIO(sim3, 2, "point searches of a running simulation, 3D") { whole<3>(c); }
SCENARIO(deep1, 3, "all places at once, 1D") { deep<1>(c); }
SCENARIO(deep2, 3, "all places at once, 2D") { deep<2>(c); }
SCENARIO(deep3, 3, "all places at once, 3D") { deep<3>(c); }
SCENARIO(sym1, 3, "symmetric lists with images, 1D") { symmetric<1>(c); }
SCENARIO(sym2, 3, "symmetric lists with images, 2D") { symmetric<2>(c); }
SCENARIO(sym3, 3, "symmetric lists with images, 3D") { symmetric<3>(c); }
SCENARIO(pat1, 4, "levels, activity, types and dead particles, 1D") { patterns<1>(c); }
SCENARIO(pat2, 4, "levels, activity, types and dead particles, 2D") { patterns<2>(c); }
SCENARIO(pat3, 4, "levels, activity, types and dead particles, 3D") { patterns<3>(c); }
SCENARIO(point1, 3, "point searches over every buffer size, 1D") { gather<1>(c, true); }
SCENARIO(point2, 3, "point searches over every buffer size, 2D") { gather<2>(c, true); }
SCENARIO(point3, 3, "point searches over every buffer size, 3D") { gather<3>(c, true); }
SCENARIO(cell1, 3, "cell searches over every buffer size, 1D") { gather<1>(c, false); }
SCENARIO(cell2, 3, "cell searches over every buffer size, 2D") { gather<2>(c, false); }
SCENARIO(cell3, 3, "cell searches over every buffer size, 3D") { gather<3>(c, false); }
int main(int a, char** v) { return mc::main(a, v); }
