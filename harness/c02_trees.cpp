// C02 - spatial trees.  Every particle set of a complete grid of (dimension, tree type, leaf size, particle number, geometry,
// particle types, index offset, opening criterion) x every sequence of tree operations (build, kill+restock, move+restock,
// update-h, update-active, extrapolate, grow+rebuild) through the real KDTree / OctTree / BruteForceTree; after every
// operation every cell is compared with sums recomputed from the live particles of a plain list.
#include "sim.hpp"
#include "KDTree.h"
#include "OctTree.h"
#include "BruteForceTree.h"
#include <memory>
#include <cstdarg>
using namespace mc;
namespace {
typedef long double ld;
std::string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
template<int nd> using PT = GradhSphParticle<nd>;
const double KR = 2.0, MACERR = 1e-4;
struct Ref { bool has; int N, Nactive, NactiveMax; ld m, r[3], v[3], q[5], bbmin[3], bbmax[3], hbmin[3], hbmax[3], vmin[3], vmax[3], hmax, snd, amin, gmax; ld rc[3]; };

template<int nd, template<int> class Cell, class TreeT> struct H {
  Ctx& c; TreeT& T; std::vector<PT<nd>>& P; int first; MAC_Type mac; bool quad; double theta2; const Typemask& gm; int leafmax;
  std::vector<Ref> ref; std::vector<std::vector<int>> sub;        // live particles below each cell at the last stock
  H(Ctx& c, TreeT& T, std::vector<PT<nd>>& P, int first, MAC_Type mac, bool quad, double th, const Typemask& gm, int lm)
    : c(c), T(T), P(P), first(first), mac(mac), quad(quad), theta2(th), gm(gm), leafmax(lm) {}
  bool live(int i) { return !P[i].flags.is_dead(); }
  // subtree structure through copen/cnext only; false if malformed
  bool structure() {
    int nc = T.Ncell; sub.assign(nc, {}); std::vector<int> seen(nc, 0); bool ok = true;
    // full walk
    int cc = 0, steps = 0;
    while (cc >= 0 && cc < nc && steps <= nc) { seen[cc]++; steps++; cc = T.celldata[cc].copen != -1 ? T.celldata[cc].copen : T.celldata[cc].cnext; }
    ok &= c.check(cc >= nc, "walk-end", "the walk does not leave the tree: at %d after %d steps of %d cells", cc, steps, nc);
    for (int i=0;i<nc && ok;i++) ok &= c.check(seen[i] == 1, "walk-once", "cell %d of %d visited %d times", i, nc, seen[i]);
    if (!ok) return false;
    // leaves: linked lists
    std::map<int,int> owner;
    for (int i=0;i<nc;i++) { Cell<nd>& x = T.celldata[i]; if (x.copen != -1) continue;
      int p = x.ifirst, n = 0;
      while (p != -1) { if (!c.check(p >= first && p < (int) P.size() && n <= (int) P.size(), "leaf-list", "leaf %d list leaves the particle range at %d", i, p)) return false;
        if (live(p)) { sub[i].push_back(p); bool fresh = !owner.count(p); if (!c.check(fresh, "leaf-unique", "particle %d is in leaves %d and %d", p, (owner.count(p) ? owner.find(p)->second : -1), i)) return false; owner[p] = i; }
        n++; if (p == x.ilast) break; p = T.inext[p]; } }
    for (int p=first;p<(int) P.size();p++) if (live(p)) ok &= c.check(owner.count(p), "leaf-missing", "live particle %d is in no leaf", p);
    if (!ok) return false;
    // subtrees: walk from copen up to cnext, leaves only
    for (int i=0;i<nc;i++) { Cell<nd>& x = T.celldata[i]; if (x.copen == -1) continue;
      int k = x.copen, n = 0; while (k != x.cnext && k >= 0 && k < nc && n++ <= nc) { if (T.celldata[k].copen == -1) { for (int p : sub[k]) sub[i].push_back(p); k = T.celldata[k].cnext; } else k = T.celldata[k].copen; }
      ok &= c.check(k == x.cnext || (k >= nc && x.cnext >= nc), "subtree", "the subtree of cell %d does not end at its successor", i);
    }
    if (!ok) return false;
    if (nc) ok &= c.check(sub[0].size() == owner.size(), "root", "root covers %d of %d particles", (int) sub[0].size(), (int) owner.size());
    return ok;
  }
  void sums(int i) { Ref& e = ref[i]; e = Ref(); e.has = !sub[i].empty(); e.amin = big_number; e.N = sub[i].size();
    for (int k=0;k<nd;k++) { e.bbmin[k]=e.hbmin[k]=e.vmin[k]=1e30; e.bbmax[k]=e.hbmax[k]=e.vmax[k]=-1e30; }
    for (int p : sub[i]) { PT<nd>& a = P[p]; if (a.flags.check(active)) e.Nactive++; e.hmax = std::max<ld>(e.hmax, a.h); e.snd = std::max<ld>(e.snd, a.sound);
      if (gm[a.ptype]) { e.m += a.m; for (int k=0;k<nd;k++) { e.r[k] += (ld) a.m*a.r[k]; e.v[k] += (ld) a.m*a.v[k]; } }
      ld aa = 0; for (int k=0;k<nd;k++) { aa += (ld) a.atree[k]*a.atree[k];
        e.bbmin[k]=std::min<ld>(e.bbmin[k],a.r[k]); e.bbmax[k]=std::max<ld>(e.bbmax[k],a.r[k]); e.hbmin[k]=std::min<ld>(e.hbmin[k],a.r[k]-KR*a.h); e.hbmax[k]=std::max<ld>(e.hbmax[k],a.r[k]+KR*a.h); e.vmin[k]=std::min<ld>(e.vmin[k],a.v[k]); e.vmax[k]=std::max<ld>(e.vmax[k],a.v[k]); }
      e.amin = std::min(e.amin, sqrtl(aa)); e.gmax = std::max(e.gmax, powl(a.gpot, -2.0L/3)); }
    e.NactiveMax = e.Nactive;
    if (e.m > 0) for (int k=0;k<nd;k++) { e.r[k] /= e.m; e.v[k] /= e.m; }
    for (int k=0;k<nd;k++) e.rc[k] = 0.5L*(e.bbmin[k]+e.bbmax[k]);
    for (int p : sub[i]) { PT<nd>& a = P[p]; if (!gm[a.ptype]) continue; ld d[3]={0,0,0}, s=0; for (int k=0;k<nd;k++) { d[k]=a.r[k]-e.r[k]; s+=d[k]*d[k]; }
      e.q[0] += a.m*(3*d[0]*d[0]-s); if (nd>1) { e.q[1] += a.m*3*d[0]*d[1]; e.q[2] += a.m*(3*d[1]*d[1]-s); } if (nd==3) { e.q[3] += a.m*3*d[2]*d[0]; e.q[4] += a.m*3*d[2]*d[1]; } }
  }
  ld size = 0;
  void restock() { if (!structure()) return; ref.assign(T.Ncell, Ref()); size = 0; for (int p=first;p<(int)P.size();p++) for (int k=0;k<nd;k++) size = std::max<ld>(size, fabs(P[p].r[k])); for (int i=0;i<T.Ncell;i++) sums(i); }
  void hmaxes() { for (int i=0;i<T.Ncell;i++) { Ref& e = ref[i]; e.hmax=0; for (int k=0;k<nd;k++) { e.hbmin[k]=1e30; e.hbmax[k]=-1e30; } for (int p : sub[i]) { e.hmax = std::max<ld>(e.hmax, P[p].h); for (int k=0;k<nd;k++) { e.hbmin[k]=std::min<ld>(e.hbmin[k],P[p].r[k]-KR*P[p].h); e.hbmax[k]=std::max<ld>(e.hbmax[k],P[p].r[k]+KR*P[p].h); } } } }
  void actives() { for (int i=0;i<T.Ncell;i++) { ref[i].Nactive=ref[i].NactiveMax=0; for (int p : sub[i]) if (P[p].flags.check(active)) { ref[i].NactiveMax++; if (live(p)) ref[i].Nactive++; } } }
  void drift(double dt) { for (Ref& e : ref) for (int k=0;k<nd;k++) { ld s = e.v[k]*dt; e.r[k]+=s; e.rc[k]+=s; e.bbmin[k]+=s; e.bbmax[k]+=s; e.hbmin[k]+=s; e.hbmax[k]+=s; } }
  void nr(const char* key, int i, int k, double a, ld b, ld sc) { c.near(key, fmt("cell %d [%d]", i, k).c_str(), a, (double) b, 1e-12, (double) sc); }
  void verify(int stage, bool drifted) {
    if (c.failed) return;
    for (int i=0;i<T.Ncell;i++) { Cell<nd>& x = T.celldata[i]; Ref& e = ref[i]; bool leaf = x.copen == -1;
      c.check(x.N == e.N, "count", "stage %d: cell %d counts %d live particles, has %d", stage, i, x.N, e.N);
      if (leaf) c.check(x.N <= leafmax, "leaf-size", "leaf %d has %d particles, at most %d", i, x.N, leafmax);
      if (leaf) c.check(x.Nactive >= e.Nactive && x.Nactive <= e.NactiveMax, "active", "stage %d: leaf %d counts %d active, has %d..%d", stage, i, x.Nactive, e.Nactive, e.NactiveMax);
      if (!e.has) continue;
      ld S = size+1e-30L;
      nr("mass", i, 0, x.m, e.m, e.m); nr("hmax", i, 0, x.hmax, e.hmax, 0); nr("maxsound", i, 0, x.maxsound, e.snd, 0);
      ld d2 = 0;
      for (int k=0;k<nd;k++) { if (e.m > 0) { nr("com", i, k, x.r[k], e.r[k], S); nr("vcom", i, k, x.v[k], e.v[k], 1); }
        nr("rcell", i, k, x.rcell[k], e.rc[k], S); nr("bbmin", i, k, x.bb.min[k], e.bbmin[k], S); nr("bbmax", i, k, x.bb.max[k], e.bbmax[k], S);
        nr("hboxmin", i, k, x.hbox.min[k], e.hbmin[k], S+e.hmax); nr("hboxmax", i, k, x.hbox.max[k], e.hbmax[k], S+e.hmax);
        nr("vboxmin", i, k, x.vbox.min[k], e.vmin[k], 1); nr("vboxmax", i, k, x.vbox.max[k], e.vmax[k], 1);
        ld d = 0.5L*(e.bbmax[k]-e.bbmin[k]); d2 += d*d; }
      // the opening distance: the sphere about the centre of the box holds every particle, and the opening angle of what it holds is respected
      nr("rmax", i, 0, x.rmax, sqrtl(d2), S);
      if (!hdirty) c.check(x.cdistsqd >= (1-1e-9)*(double)(std::max(d2, e.hmax*e.hmax)/theta2) - 1e-12*(double)(S*S) && x.cdistsqd <= 4.001*(1+1e-9)*(double)(std::max(d2,e.hmax*e.hmax)/theta2)+1e-12*(double)(S*S), "cdist", "cell %d opening distance^2 %.10g, box %.10g h %.10g", i, x.cdistsqd, (double)(d2/theta2), (double) e.hmax);
      if (quad || mac == eigenmac) { ld qs = e.m*(d2*8) + e.m*S*S*1e-3L; for (int k=0;k<(nd==1?1:nd==2?3:5);k++) nr("quadrupole", i, k, x.q[k], e.q[k], qs); }
      if (mac == gadget2) nr("amin", i, 0, x.amin, e.amin, 0);
      if (mac == eigenmac) { nr("macfactor", i, 0, x.macfactor, e.gmax, 0);
        ld lam; if (nd==1) lam = fabsl(e.q[0]); else if (nd==2) { ld p = (e.q[0]-e.q[2])*(e.q[0]-e.q[2])+4*e.q[1]*e.q[1]; lam = 0.5L*std::max(e.q[0]+e.q[2]+sqrtl(p), 0.0L); }
        else { ld p = e.q[0]*e.q[2]-(e.q[0]+e.q[2])*(e.q[0]+e.q[2])-e.q[1]*e.q[1]-e.q[3]*e.q[3]-e.q[4]*e.q[4]; lam = p >= 0 ? 0 : 2*sqrtl(-p/3); }
        ld tiny = e.m*(S*S)*1e-13L; ld lo = powl(0.5L*std::max(lam-tiny,0.0L)/MACERR, 2.0L/3), hi = powl(0.5L*(lam+tiny)/MACERR, 2.0L/3);
        c.check(x.mac >= (double)lo*(1-1e-9) && x.mac <= (double)hi*(1+1e-9), "mac", "cell %d eigenvalue criterion %.12g outside %.12g..%.12g", i, x.mac, (double) lo, (double) hi); }
      if (c.failed) return;
    }
    // lists of active cells and particles
    if (first) return;                                      // trees of ghosts are only searched
    std::vector<TreeCellBase<nd>> cl; int n = T.ComputeActiveCellList(cl); std::set<int> got; std::vector<int> al(leafmax+8);
    c.check(n == (int) cl.size(), "active-cells", "%d cells reported, %d listed", n, (int) cl.size());
    for (auto& x : cl) { int m = T.ComputeActiveParticleList(x, P.data(), al.data()); for (int j=0;j<m;j++) c.check(got.insert(al[j]).second, "active-twice", "particle %d listed twice", al[j]); }
    if (first == 0) { std::set<int> want; for (int p=0;p<(int)P.size();p++) if (actfresh && live(p) && P[p].flags.check(active)) want.insert(p); if (actfresh) c.check(got == want, "active-list", "stage %d: %d active particles listed of %d", stage, (int) got.size(), (int) want.size()); }
    std::vector<TreeCellBase<nd>*> cp(T.Ncell+1); int np = T.ComputeActiveCellPointers(cp.data()); c.check(np == n, "active-ptrs", "%d pointers for %d cells", np, n);
    for (int j=0;j<np && j<n;j++) c.check(cp[j]->id == cl[j].id, "active-ptrs", "pointer %d names cell %d not %d", j, cp[j]->id, cl[j].id);
    if (T.Ncell && ref[0].has) nr("global-hmax", 0, 0, T.GetMaximumSmoothingLength(), ref[0].hmax, 0);
    // leaf found for a place: its box holds the place; none only if no leaf's box does
    if (!drifted) for (int p=first;p<(int)P.size();p++) { if (!live(p)) continue; int l = T.FindLeafCell(P[p].r); if (!c.check(l >= 0 && l < T.Ncell && T.celldata[l].copen == -1, "find-leaf", "no leaf found for live particle %d: %d", p, l)) break;
      for (int k=0;k<nd;k++) c.check(P[p].r[k] >= T.celldata[l].bb.min[k] && P[p].r[k] <= T.celldata[l].bb.max[k], "find-leaf-box", "particle %d outside leaf %d", p, l); }
  }
  bool hdirty = false, actfresh = true;
};

// geometry: place i of shape s
void place(int s, int i, int nd, double* r) {
  static const double g[14][3] = {{0.13,0.71,0.29},{0.87,0.11,0.53},{0.41,0.37,0.93},{0.61,0.97,0.07},{0.03,0.53,0.61},{0.29,0.19,0.43},{0.73,0.83,0.77},{0.97,0.47,0.17},{0.53,0.05,0.83},{0.19,0.91,0.59},{0.67,0.31,0.37},{0.07,0.23,0.13},{0.37,0.67,0.97},{0.79,0.59,0.03}};
  for (int k=0;k<3;k++) r[k] = g[i%14][k] + 0.037*(i/14);
  switch (s) {
    case 1: for (int k=1;k<3;k++) r[k] = 0.25; break;                                        // on a line
    case 2: for (int k=0;k<3;k++) r[k] = 0.5+0.25*k; break;                                   // one place
    case 3: for (int k=0;k<3;k++) r[k] = g[(i/2)%14][k] + 0.037*(i/28); break;                                    // pairs on one place
    case 4: for (int k=0;k<3;k++) r[k] = (i%2 ? 1000.0 : -1000.0) + 1e-3*r[k]; break;   // two tight far clusters
    case 5: r[0] = 0.1*(i%3); r[1] = 0.1*((i/3)%3); r[2] = 0.1*(i/9); break;                  // regular lattice
    case 6: for (int k=0;k<3;k++) r[k] = pow(0.6, i+k); break;                         // geometric cascade towards a corner
    case 7: for (int k=0;k<3;k++) r[k] = -r[k]*(k==1 ? 40 : 1); break;                        // elongated, negative side
  }
}
template<int nd> void put(PT<nd>& p, int s, int i, int types, int act) {
  double r[3]; place(s, i, nd, r); for (int k=0;k<nd;k++) { p.r[k] = r[k]; p.v[k] = sin(1.0+1.7*i+2.9*k); p.atree[k] = cos(0.3+2.1*i+0.7*k); }
  p.m = 1.0+0.25*(i%5); p.h = 0.05*(1+(i*3)%4); p.sound = 1.0+0.5*((i*5)%7); p.gpot = 1.0+0.3*((i*2)%5); p.iorig = i;
  p.ptype = types == 0 ? gas_type : types == 1 ? (i%2 ? dust_type : gas_type) : dust_type;
  p.flags = type_flag(); if (act == 1 || (act == 2 && i%3 == 0)) p.flags.set(active);
}
template<int nd, template<int> class Cell, class TreeT> void drive(Ctx& c, int leafmax, int N, int shape, int cfg, int first, int depth) {
  static const struct { const char* mac; MAC_Type m; const char* mp; int types, act; } C[6] = {{"geometric",geometric,"monopole",0,1},{"geometric",geometric,"quadrupole",1,2},{"eigenmac",eigenmac,"quadrupole",0,2},{"gadget2",gadget2,"fast_quadrupole",0,0},{"eigenmac",eigenmac,"monopole",1,1},{"geometric",geometric,"quadrupole",2,1}};
  auto& K = C[cfg]; Parameters P; ParticleTypeRegister reg(&P); reg.gravmask[gas_type] = true; reg.gravmask[dust_type] = false;
  DomainBox<nd> box; for (int k=0;k<nd;k++) { box.min[k]=-1e3; box.max[k]=1e3; box.size[k]=2e3; box.half[k]=1e3; box.boundary_lhs[k]=box.boundary_rhs[k]=openBoundary; }
  const double th2 = 0.25; std::unique_ptr<TreeT> tp(new TreeT(leafmax, th2, KR, MACERR, K.mac, K.mp, box, reg, false)); TreeT& T = *tp;
  std::vector<PT<nd>> part(first+N); for (int i=0;i<first;i++) put(part[i], shape, 13-i, 0, 1); for (int i=0;i<N;i++) put(part[first+i], shape, i, K.types, K.act);
  int cap = first+std::max(N,1);
  H<nd,Cell,TreeT> h(c, T, part, first, K.m, std::string(K.mp) != "monopole", th2, reg.gravmask, leafmax);
  auto build = [&]() {            // the order of HydroTree::BuildTree: dead particles leave the arrays before the tree is rebuilt
    std::vector<PT<nd>> q; for (int i=0;i<(int)part.size();i++) if (i < first || !part[i].flags.is_dead()) q.push_back(part[i]); part = q;
    int n = (int) part.size()-first; T.Ntot = n; T.BuildTree(first, first+n-1, n, cap, 0.1, part.data()); h.restock(); h.hdirty=false; h.actfresh=true; };
  auto kill = [&](int i) { part[i].flags.set(dead); };
  bool drifted = false; build(); c.step(); h.verify(0, drifted);
  for (int s=1; s<=depth && !c.failed; s++) {
    int n = (int) part.size()-first, op = c.choose(9, "operation");
    switch (op) {
      case 0: build(); drifted = false; break;
      case 1: { if (!n) c.prune(); kill(first+n/2); T.StockTree(part.data(), true); h.restock(); drifted=false; h.hdirty=false; h.actfresh=true; break; }
      case 2: { if (!n) c.prune(); for (int i=0;i<(n+1)/2;i++) kill(first+i); T.StockTree(part.data(), true); h.restock(); drifted=false; h.hdirty=false; h.actfresh=true; break; }
      case 3: { for (int i=0;i<n;i++) { auto& p = part[first+i]; for (int k=0;k<nd;k++) { p.r[k] += 0.3*p.v[k]; p.v[k] *= -0.7; } p.h *= 1.3; p.m *= 0.8; p.sound *= 0.5; } T.StockTree(part.data(), true); h.restock(); drifted=false; h.hdirty=false; h.actfresh=true; break; }
      case 4: { for (int i=0;i<n;i++) part[first+i].h *= i%2 ? 2.0 : 0.5; T.UpdateAllHmaxValues(part.data()); h.hmaxes(); h.hdirty = true; break; }
      case 5: { for (int i=0;i<n;i++) { auto& p = part[first+i]; if ((i+s)%2) p.flags.set(active); else p.flags.unset(active); } if (first) { c.prune(); } T.UpdateActiveParticleCounters(part.data()); h.actives(); h.actfresh = true; break; }
      case 6: { for (int i=0;i<n;i++) { auto& p = part[first+i]; for (int k=0;k<nd;k++) p.r[k] += 0.01*p.v[k]; } T.ExtrapolateCellProperties(0.01); h.drift(0.01); drifted = true; break; }
      case 7: { int old = n; for (int j=0;j<old+2;j++) { PT<nd> p; put(p, shape, old+j, K.types, K.act); part.push_back(p); } cap = std::max(cap, (int) part.size()); build(); drifted = false; break; }  // growth past the allocated size
      case 8: { if (!n) c.prune(); for (int i=0;i<n;i++) kill(first+i); T.StockTree(part.data(), true); h.restock(); drifted=false; h.hdirty=false; h.actfresh=true; break; }
    }
    c.step(); h.verify(s, drifted);
  }
  c.state((uint64_t) T.Ncell*1000003u + T.Ntot*101 + shape);
}
template<int nd> void dim(Ctx& c) {
  int tree = c.choose(3, "tree"), depth = c.thorough ? 3 : 2;
  int leafmax = c.pick(std::vector<int>{1,2,3,6}), N = c.pick(c.thorough ? std::vector<int>{0,1,2,3,4,5,6,7,8,9,13} : std::vector<int>{0,1,2,3,5,8,9});
  int shape = c.choose(8, "shape"), cfg = c.choose(6, "config"), off = 3*c.choose(2, "offset");
  if (tree == 1) { if (shape == 2 || (shape == 5 && nd < 3)) leafmax = 64; if (shape == 3) leafmax = std::max(leafmax, 4); }       // an oct-tree cannot separate coincident particles
  if (tree == 2 && leafmax != 1) c.prune();
  sim::boot();
  c.describe(fmt("nd=%d tree=%s leaf=%d N=%d shape=%d cfg=%d offset=%d", nd, tree==0?"kd":tree==1?"oct":"brute", leafmax, N, shape, cfg, off));
  if (N) c.interesting();
  if (tree == 0) drive<nd,KDTreeCell,KDTree<nd,GradhSphParticle,KDTreeCell>>(c, leafmax, N, shape, cfg, off, depth);
  else if (tree == 1) drive<nd,OctTreeCell,OctTree<nd,GradhSphParticle,OctTreeCell>>(c, leafmax, N, shape, cfg, off, depth);
  else drive<nd,BruteForceTreeCell,BruteForceTree<nd,GradhSphParticle,BruteForceTreeCell>>(c, leafmax, N, shape, cfg, off, depth);
}
}
SCENARIO(tree1d, 3, "1D: particle sets x operation sequences") { dim<1>(c); }
SCENARIO(tree2d, 3, "2D: particle sets x operation sequences") { dim<2>(c); }
SCENARIO(tree3d, 3, "3D: particle sets x operation sequences") { dim<3>(c); }
int main(int a, char** v) { return mc::main(a, v); }
