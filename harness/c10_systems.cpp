// C10 - stellar sub-systems.  Every configuration of up to five stars on a set of places (masses, velocities) through the
// real tree building, sub-system construction, binary search and perturber search, against definitions recomputed in
// extended precision; binaries and hierarchies made from a complete grid of orbital elements; and the real main loop with
// sub-systems over hierarchical systems, levels, integrators and perturber modes, checked after every step.
#include "sim.hpp"
#include "nbref.hpp"
using namespace mc; using namespace nbref;
namespace {
const int ND = 3;
typedef sim::Sim<ND> RealSim;
void put(RealSim& R, const Sys& S) {
  for (size_t i=0;i<S.size();i++) { sim::Body b; b.m=S[i].m; b.h=S[i].h; for (int k=0;k<ND;k++) { b.r[k]=(double)S[i].r[k]; b.v[k]=(double)S[i].v[k]; } R.setstar(i, b); R.nbody().nbodydata[i] = &R.star(i); }
  R.nbody().Nnbody = S.size(); R.nbody().Nstar = S.size();
}
void potentials(RealSim& R) {
  Nbody<ND>& nb = R.nbody(); nb.Nnbody = nb.Nstar;
  for (int i=0;i<nb.Nstar;i++) { StarParticle<ND>& s = R.star(i); s.gpot=0; for (int k=0;k<ND;k++) s.a[k]=s.adot[k]=s.a2dot[k]=s.a3dot[k]=0; s.flags.set(active); nb.nbodydata[i]=&s; }
  nb.CalculateDirectGravForces(nb.Nnbody, nb.nbodydata, R.sim->simbox, R.sim->ewald);
}
ld d2(const Star& a, const Star& b) { ld s=0; for (int k=0;k<3;k++) s += (a.r[k]-b.r[k])*(a.r[k]-b.r[k]); return s; }
// stars below a particle (star or system)
bool collect(RealSim& R, NbodyParticle<ND>* p, std::vector<int>& out, int depth = 0) {
  if (depth > 8) return false;
  for (int i=0;i<R.nbody().Nstar;i++) if (p == (NbodyParticle<ND>*) &R.star(i)) { out.push_back(i); return true; }
  for (int i=0;i<R.nbody().Nsystem;i++) if (p == (NbodyParticle<ND>*) &R.nbody().system[i]) { SystemParticle<ND>& s = R.nbody().system[i]; for (int q=0;q<s.Nchildren;q++) if (!collect(R, s.children[q], out, depth+1)) return false; return true; }
  return false;
}
struct Node { std::vector<int> stars; ld m, r[3], v[3], mid[3]; };
// star pair (a,e,true anomaly,orientation) as two bodies about a centre
void pairof(Star& A, Star& B, ld m1, ld m2, ld a, ld e, ld f, ld inc, ld node, const ld* rc, const ld* vc) {
  ld M = m1+m2, p = a*(1-e*e), r = p/(1+e*cosl(f)), vf = sqrtl(M/p);
  ld x[3] = {r*cosl(f), r*sinl(f), 0}, u[3] = {-vf*sinl(f), vf*(e+cosl(f)), 0};
  auto rot = [&](ld* w) { ld y = w[1]*cosl(inc)-w[2]*sinl(inc), z = w[1]*sinl(inc)+w[2]*cosl(inc), X = w[0]*cosl(node)-y*sinl(node), Y = w[0]*sinl(node)+y*cosl(node); w[0]=X; w[1]=Y; w[2]=z; };
  rot(x); rot(u); A.m=m1; B.m=m2;
  for (int k=0;k<3;k++) { A.r[k]=rc[k]-m2/M*x[k]; B.r[k]=rc[k]+m1/M*x[k]; A.v[k]=vc[k]-m2/M*u[k]; B.v[k]=vc[k]+m1/M*u[k]; }
}
const ld Z3[3] = {0,0,0};
Sys hierarchy(int id, ld sep) {          // hierarchical systems: tight pairs of separation sep
  Sys S; ld a[3]={2,0.3,-0.2}, b[3]={-2,-0.4,0.1}, va[3]={0.05,0.42,0.1}, vb[3]={-0.05,-0.42,-0.1};
  auto add = [&](int n) { S.resize(S.size()+n); };
  switch (id) {
    case 0: add(3); pairof(S[0], S[1], 1, 0.6, sep, 0.2, 1.0, 0.3, 0.5, a, va); S[2].m=0.8; for (int k=0;k<3;k++) { S[2].r[k]=b[k]; S[2].v[k]=vb[k]; } break;          // binary + star
    case 1: add(4); pairof(S[0], S[2], 1, 0.6, sep, 0.2, 1.0, 0.3, 0.5, a, va); pairof(S[1], S[3], 0.7, 0.7, 0.8L*sep, 0.5, 2.5, -0.4, 1.1, b, vb); break;                    // two binaries
    case 2: { add(4); Star P, Q; pairof(P, Q, 1.6L, 0.4L, 8*sep, 0.1, 0.7, 0.2, 0.1, a, va); pairof(S[0], S[1], 1, 0.6, sep, 0.1, 1.0, 0.3, 0.5, P.r, P.v); S[2]=Q; S[3].m=0.8; for (int k=0;k<3;k++) { S[3].r[k]=b[k]; S[3].v[k]=vb[k]; } break; }   // hierarchical triple + star
    case 3: { add(2); pairof(S[0], S[1], 1, 0.6, sep, 0.4, 1.0, 0.3, 0.5, Z3, Z3); break; }                                                                                   // one binary: everything in one system
    case 4: { add(5); pairof(S[4], S[1], 1, 0.6, sep, 0.2, 1.0, 0.3, 0.5, a, va); pairof(S[2], S[3], 0.7, 0.7, 0.8L*sep, 0.5, 2.5, -0.4, 1.1, b, vb); S[0].m=0.3; S[0].r[1]=6; S[0].r[2]=3; S[0].v[0]=-0.3; break; }  // two binaries + star
    case 5: { add(4); Star P, Q; pairof(P, Q, 1.6L, 1.4L, 8*sep, 0.1, 0.7, 0.2, 0.1, Z3, Z3); pairof(S[0], S[1], 1, 0.6, sep, 0.1, 1.0, 0.3, 0.5, P.r, P.v); pairof(S[2], S[3], 0.7, 0.7, sep, 0.3, 2.0, 0.1, 0.2, Q.r, Q.v); break; }   // binary quadruple
  }
  // loose stars around: five or more top-level objects, so that the whole does not itself count as one system
  if (id != 3 && id != 5) { static const double L[4][3] = {{3.1,3.6,-2.9},{-3.4,2.7,3.3},{2.6,-3.9,3.0},{-2.8,-3.2,-3.6}}; for (int q=0;q<4;q++) { Star x; x.m = 0.6+0.1L*q; for (int k=0;k<3;k++) { x.r[k]=L[q][k]; x.v[k]=0.3L*sinl(1+q*2.1L+k*1.3L); } S.push_back(x); } std::swap(S[0], S[S.size()-2]); }
  for (auto& s : S) s.h = 1e-3;
  return S;
}
}

SCENARIO(tree, 3, "every arrangement of 0..N stars: nearest-neighbour tree, sub-systems, binaries and perturbers against definitions") {
  int N = c.choose(c.thorough ? 7 : 6, "stars"); double soft = c.pick(std::vector<double>{2.0e-2, 0.3, 0.9}), hard = c.pick(std::vector<double>{1.0e-3, 0.3});
  if (soft == 0.9 && hard == 0.3) c.prune();
  // places: clusters of different tightness, no exact ties
  static const double pl[8][3] = {{0,0,0},{0.011,0.003,-0.002},{0.2,0.13,0.04},{1.03,-0.4,0.3},{1.041,-0.392,0.31},{-3.1,2.2,1.7},{-3.13,2.21,1.69},{9,-7,5.5}};
  static const double vl[3] = {0.0, 0.4, 9.0};
  const int npl = 8; std::vector<int> used; Sys S(N);
  int vs = N >= 2 ? c.choose(3, "speeds") : 0, ms = N >= 2 ? c.choose(2, "masses") : 0;
  // every subset of places x two orders of the stars
  int last = -1; for (int i=0;i<N;i++) { int left = N-1-i, lo = last+1, hi = npl-1-left; last = lo + c.choose(hi-lo+1, "place"); used.push_back(last); }
  int order = N >= 2 ? c.choose(N > 2 ? 3 : 2, "order") : 0;
  if (order == 1) std::reverse(used.begin(), used.end()); if (order == 2) std::rotate(used.begin(), used.begin()+1, used.end());
  for (int i=0;i<N;i++) { S[i].m = ms ? 0.2 + 0.37*((i*2)%5) : 1.0 - 0.05*used[i]; S[i].h = 0.01*(1+i); for (int k=0;k<ND;k++) { S[i].r[k]=pl[used[i]][k]; S[i].v[k] = vl[vs]*sin(1.0+2.3*k+1.7*used[i]); } }
  sim::Opts o; o.S("nbody","hermite4").I("nbody_softening",0).I("sub_systems",1).I("perturbers",1).F("gpesoft", soft).F("gpehard", hard);
  RealSim R("nbody", o, 0, std::max(N,1)); put(R, S); Nbody<ND>& nb = R.nbody(); nb.Nstar = N; NbodySystemTree<ND>& T = R.sim->nbodytree;
  potentials(R); T.CreateNbodySystemTree(&nb); c.step();
  // ---- tree -----------------------------------------------------------------------------------
  c.check(T.Nnode == (N ? 2*N-1 : 0), "tree-nodes", "%d nodes for %d stars", T.Nnode, N);
  if (c.failed) return;
  std::vector<Node> nd(T.Nnode);
  auto stock = [&](int n) { Node& x = nd[n]; x.m=0; for (int k=0;k<3;k++) x.r[k]=x.v[k]=0; for (int s : x.stars) { x.m += S[s].m; for (int k=0;k<3;k++) { x.r[k] += S[s].m*S[s].r[k]; x.v[k] += S[s].m*S[s].v[k]; } } for (int k=0;k<3;k++) { x.r[k]/=x.m; x.v[k]/=x.m; } };
  for (int n=0;n<T.Nnode;n++) {
    NNTreeCell<ND>& x = T.NNtree[n];
    if (n < N) { nd[n].stars = {n}; for (int k=0;k<3;k++) nd[n].mid[k]=S[n].r[k]; c.check(x.ichild1 == -1 && x.ichild2 == -1, "tree-leaf", "star node %d has children", n); }
    else { int a=x.ichild1, b=x.ichild2; if (!c.check(a>=0 && b>=0 && a<n && b<n && a!=b && T.NNtree[a].iparent==n && T.NNtree[b].iparent==n, "tree-links", "node %d children %d %d", n, a, b)) return;
      nd[n].stars = nd[a].stars; nd[n].stars.insert(nd[n].stars.end(), nd[b].stars.begin(), nd[b].stars.end()); for (int k=0;k<3;k++) nd[n].mid[k]=(nd[a].mid[k]+nd[b].mid[k])/2; c.check(x.Nstar == (int) nd[n].stars.size(), "tree-nstar", "node %d says %d stars", n, x.Nstar); 
      for (int k=0;k<3;k++) c.near("tree-mid", "mid-point", x.rpos[k], (double)nd[n].mid[k], 1e-12, 1.0); }
    stock(n);
  }
  if (N) { std::vector<int> all = nd[T.Nnode-1].stars; std::sort(all.begin(), all.end()); bool ok = (int)all.size()==N; for (int i=0;i<N && ok;i++) ok = all[i]==i; c.check(ok && T.NNtree[T.Nnode-1].iparent == -1, "tree-partition", "the root does not hold every star exactly once"); }
  // siblings are mutually nearest among the nodes that were unpaired with them
  for (int n=N;n<T.Nnode;n++) { int a=T.NNtree[n].ichild1, b=T.NNtree[n].ichild2; ld dab=0; for (int k=0;k<3;k++) dab += powl(nd[a].mid[k]-nd[b].mid[k],2);
    for (int q=0;q<T.Nnode;q++) if (q!=a && q!=b && T.NNtree[q].iparent >= n && q < std::max(a,b)) for (int s : {a,b}) { ld d=0; for (int k=0;k<3;k++) d += powl(nd[q].mid[k]-nd[s].mid[k],2); c.check(d > dab*(1-1e-9L), "tree-nearest", "node %d pairs %d and %d but %d is nearer", n, a, b, q); } }
  // ---- sub-systems ------------------------------------------------------------------------------
  T.BuildSubSystems(5, 3, 0.25, &nb); c.step();
  std::vector<int> seen(N, 0);
  for (int i=0;i<nb.Nnbody;i++) { std::vector<int> st; if (!c.check(collect(R, nb.nbodydata[i], st), "top-unknown", "top-level object %d of %d is neither a star nor a live system", i, nb.Nnbody)) return; for (int s : st) seen[s]++; }
  for (int s=0;s<N;s++) c.check(seen[s]==1, "partition", "star %d belongs to %d top-level objects", s, seen[s]);
  for (int q=0;q<nb.Nsystem;q++) {
    SystemParticle<ND>& s = nb.system[q]; std::vector<int> st; collect(R, &s, st); ld m=0, r[3]={0,0,0}, v[3]={0,0,0}; for (int i : st) { m += S[i].m; for (int k=0;k<3;k++) { r[k] += S[i].m*S[i].r[k]; v[k] += S[i].m*S[i].v[k]; } }
    c.near("system-mass", "mass", s.m, (double)m, 1e-13);
    for (int k=0;k<3;k++) { c.near("system-com", "centre of mass", s.r[k], (double)(r[k]/m), 1e-12, 1.0); c.near("system-vel", "velocity", s.v[k], (double)(v[k]/m), 1e-12, 1.0); c.check(s.r0[k]==s.r[k] && s.v0[k]==s.v[k] && s.a0[k]==s.a[k], "system-start", "start-of-step values of system %d differ", q); }
    c.check(s.Ncomp == s.Nchildren && s.Nchildren >= 2 && s.Nchildren <= Ncompmax, "system-count", "system %d: Ncomp %d Nchildren %d", q, s.Ncomp, s.Nchildren);
    c.check(s.nlast==5 && s.nstep==1 && s.level==3 && s.tlast==0.25, "system-step", "system %d: level %d nstep %d nlast %d tlast %g", q, s.level, s.nstep, s.nlast, s.tlast);
    std::vector<int> ns = nd[s.inode].stars, ss = st; std::sort(ns.begin(), ns.end()); std::sort(ss.begin(), ss.end()); c.check(ns == ss, "system-node", "system %d does not hold the stars of its tree node", q);
    ld gi=0, hm=0, ke=0; for (int a=0;a<s.Nchildren;a++) { for (int k=0;k<3;k++) ke += 0.5L*s.children[a]->m*powl(s.children[a]->v[k]-s.v[k],2); for (int b=a+1;b<s.Nchildren;b++) { ld d=0; for (int k=0;k<3;k++) d += powl((ld)s.children[a]->r[k]-s.children[b]->r[k],2); gi += s.children[a]->m*s.children[b]->m/sqrtl(d); } }
    for (int i : st) hm = std::max(hm, S[i].h); c.near("system-gpe", "internal energy", s.gpe_internal, (double)gi, 1e-12); c.near("system-h", "smoothing length", s.h, (double)hm, 1e-13);
    if (ke > 0) c.near("system-tcross", "crossing time", s.dt_internal, (double)(sqrtl(m*m/gi)/sqrtl(2*ke/m)), 1e-11);
    c.interesting(); c.state(Hash().i(s.Nchildren).d(s.m).d(s.gpe_internal).i(q).h);
  }
  { // energy criterion re-evaluated over the tree: which nodes are systems
    std::vector<ld> gpe(T.Nnode); std::vector<int> nc(T.Nnode), issys(T.Nnode, 0); std::vector<std::vector<int>> ch(T.Nnode); bool sure = true; int expect = 0;
    for (int n=0;n<T.Nnode;n++) {
      if (n < N) { gpe[n]=0; for (int j=0;j<N;j++) if (j!=n) gpe[n] += 0.5L*S[n].m*S[j].m/sqrtl(d2(S[n],S[j])); nc[n]=1; ch[n]={n}; continue; }
      int a=T.NNtree[n].ichild1, b=T.NNtree[n].ichild2; gpe[n]=gpe[a]+gpe[b]; nc[n]=nc[a]+nc[b];
      if (nc[n] > Ncompmax) continue;
      ch[n]=ch[a]; ch[n].insert(ch[n].end(), ch[b].begin(), ch[b].end()); ld gi=0; for (size_t p=0;p<ch[n].size();p++) for (size_t q=p+1;q<ch[n].size();q++) { ld d=0; for (int k=0;k<3;k++) d += powl(nd[ch[n][p]].r[k]-nd[ch[n][q]].r[k],2); gi += nd[ch[n][p]].m*nd[ch[n][q]].m/sqrtl(d); }
      ld x = fabsl(gpe[n]-gi)-soft*gpe[n]; if (fabsl(x) < 1e-9L*gpe[n]) sure = false;
      if (x < 0) { issys[n]=1; expect++; nc[n]=1; ch[n]={n}; gpe[n]-=gi; }
    }
    if (sure) { c.check(expect == nb.Nsystem, "system-criterion", "%d systems formed, %d nodes satisfy the energy criterion", nb.Nsystem, expect); for (int q=0;q<nb.Nsystem;q++) c.check(issys[nb.system[q].inode], "system-criterion", "node %d became a system", nb.system[q].inode); }
  }
  // ---- perturbers ----------------------------------------------------------------------------------
  T.FindPerturberLists(&nb); c.step();
  for (int q=0;q<nb.Nsystem;q++) { SystemParticle<ND>& s = nb.system[q]; std::vector<int> st; collect(R, &s, st); std::set<int> mine(st.begin(), st.end()), oth; c.check(s.Npert >= 0 && s.Npert <= Npertmax, "perturbers", "%d perturbers", s.Npert);
    for (int p=0;p<s.Npert;p++) { std::vector<int> ps; if (!c.check(collect(R, s.perturber[p], ps), "perturber-unknown", "perturber %d of system %d is not a live object", p, q)) continue; for (int x : ps) { c.check(!mine.count(x), "perturber-self", "star %d is a perturber of its own system", x); c.check(oth.insert(x).second, "perturber-twice", "star %d perturbs system %d twice", x, q); }
      ld d=0; for (int k=0;k<3;k++) d += powl((ld)s.perturber[p]->r[k]-s.r[k],2); c.check(s.m*s.perturber[p]->m/sqrtl(d) > hard*s.gpe_internal*(1-1e-9), "perturber-weak", "a perturber below the energy limit was added"); }
    // the sibling of the system's node must be looked at: a single strong object there is a perturber
    int par = T.NNtree[s.inode].iparent; if (par >= 0) { int sib = T.NNtree[par].ichild1 == s.inode ? T.NNtree[par].ichild2 : T.NNtree[par].ichild1; if (T.NNtree[sib].Ncomp == 1) { ld d=0; for (int k=0;k<3;k++) d += powl(nd[sib].r[k]-(ld)s.r[k],2); ld e = s.m*nd[sib].m/sqrtl(d); if (e > hard*s.gpe_internal*(1+1e-9)) c.check(s.Npert >= 1, "perturber-missing", "the companion of system %d is strong enough but not in its list", q); } } }
  // ---- binary search ------------------------------------------------------------------------------
  T.CreateNbodySystemTree(&nb); T.FindBinarySystems(&nb); c.step();
  for (int q=0;q<T.Norbit;q++) { BinaryOrbit& b = T.orbit[q]; if (!c.check(b.ichild1>=0 && b.ichild2>=0 && b.ichild1<T.Nnode && b.ichild2<T.Nnode, "orbit-child", "orbit %d children %d %d", q, b.ichild1, b.ichild2)) continue;
    const Node& A = nd[b.ichild1], &B = nd[b.ichild2]; ld M=A.m+B.m, r=0, v=0, L2=0, x[3], u[3]; for (int k=0;k<3;k++) { x[k]=A.r[k]-B.r[k]; u[k]=A.v[k]-B.v[k]; r+=x[k]*x[k]; v+=u[k]*u[k]; } for (int k=0;k<3;k++) { ld l = x[(k+1)%3]*u[(k+2)%3]-x[(k+2)%3]*u[(k+1)%3]; L2 += l*l; c.near("orbit-angmom", "angular momentum", b.angmom[k], (double)(l*A.m*B.m/M), 1e-10, 1e-3); }
    ld E = v/2 - M/sqrtl(r), a = -M/(2*E); c.near("orbit-energy", "specific energy", b.binen, (double)E, 1e-10); c.near("orbit-sma", "semi-major axis", b.sma, (double)a, 1e-9); c.near("orbit-ecc", "eccentricity squared", b.ecc*b.ecc, (double)(1-L2/(M*a)), 1e-8, 1.0); c.near("orbit-period", "period", b.period, (double)(2*M_PIl*sqrtl(a*a*a/M)), 1e-9); c.near("orbit-mass", "mass", b.m, (double)M, 1e-13); c.near("orbit-q", "mass ratio", b.q, (double)std::min(A.m/B.m, B.m/A.m), 1e-12);
    int sc = (b.ichild1 < N) + (b.ichild2 < N); c.check(b.systemtype == (sc==2 ? "binary" : sc==1 ? "triple" : "quadruple"), "orbit-type", "type %s", b.systemtype.c_str()); c.interesting(); }
  c.check(T.Nbinary+T.Ntriple+T.Nquadruple == T.Norbit, "orbit-count", "%d+%d+%d of %d", T.Nbinary, T.Ntriple, T.Nquadruple, T.Norbit);
  for (int i=0;i<N;i++) { bool same = R.star(i).m == (double)S[i].m; for (int k=0;k<3;k++) same = same && R.star(i).r[k]==(double)S[i].r[k] && R.star(i).v[k]==(double)S[i].v[k]; c.check(same, "star-changed", "analysis changed star %d", i); }
}

SCENARIO(elements, 3, "binaries and hierarchies made from a complete grid of orbital elements are recovered") {
  double a = c.pick(std::vector<double>{0.01, 1.0, 250.0}), e = c.pick(std::vector<double>{0.0, 0.3, 0.9, 0.99}), f = c.pick(std::vector<double>{0.0, 1.1, M_PI, 4.4}), q = c.pick(std::vector<double>{1.0, 0.4, 1e-3}), inc = c.pick(std::vector<double>{0.0, 0.7, 2.9}), vb = c.pick(std::vector<double>{0.0, 3.0}); int swap = c.choose(2), sys = c.choose(2, "via");
  Sys S(2); ld rc[3]={0.3,-0.2,0.1}, vc[3]={vb,-vb/2,0}; pairof(S[swap], S[1-swap], 1.3, 1.3*q, a, e, f, inc, 0.8, rc, vc); S[0].h=S[1].h=1e-3*a;
  sim::Opts o; o.S("nbody","hermite4").I("nbody_softening",0).I("sub_systems",1); RealSim R("nbody", o, 0, 2); put(R, S); Nbody<ND>& nb = R.nbody(); NbodySystemTree<ND>& T = R.sim->nbodytree;
  potentials(R); T.CreateNbodySystemTree(&nb); if (sys) T.FindBinarySystems(&nb); else T.BuildSubSystems(0,0,0,&nb); c.step(2); c.interesting();
  if (!c.check(T.Norbit == 1, "binary-found", "%d orbits found for one binary (a=%g e=%g)", T.Norbit, a, e)) return;
  BinaryOrbit& b = T.orbit[0]; double amp = 1 + vb*vb*a + 1/a; // cancellation of the systemic velocity
  c.near("sma", "semi-major axis", b.sma, a, 1e-11*amp/(1-e)); c.near("ecc", "eccentricity", b.ecc*b.ecc, e*e, 1e-11*amp/(1-e), 1.0); c.near("period", "period", b.period, 2*M_PI*sqrt(a*a*a/(1.3*(1+q))), 1e-10*amp/(1-e)); c.near("energy", "energy", b.binen, -0.65*(1+q)/a, 1e-11*amp/(1-e)); c.near("q", "mass ratio", b.q, q, 1e-12); c.near("mass", "mass", b.m, 1.3*(1+q), 1e-12);
  for (int k=0;k<3;k++) { c.near("com", "centre of mass", b.r[k], (double)rc[k], 1e-12*(1+a), 1.0); c.near("vcom", "systemic velocity", b.v[k], (double)vc[k], 1e-11, 1.0+10/sqrt(a)/(1-e)); }
  c.check(b.systemtype == "binary" && T.Nbinary == 1, "type", "type %s", b.systemtype.c_str()); c.state(Hash().d(b.sma).d(b.ecc).h);
}

SCENARIO(hierarchy_elements, 2, "triples and quadruples: inner and outer orbits") {
  double a = c.pick(std::vector<double>{0.5, 2.0}), ratio = c.pick(std::vector<double>{0.001, 0.004}), e = c.pick(std::vector<double>{0.0, 0.5}), f = c.pick(std::vector<double>{0.3, 2.0, 5.0}); int quad = c.choose(2), perm = c.choose(3), via = c.choose(2);
  Star P, Q; pairof(P, Q, 1.5, quad ? 1.2 : 0.5, a, e, f, 0.4, 0.2, Z3, Z3); Sys I(quad ? 4 : 3); pairof(I[0], I[1], 1.0, 0.5, a*ratio, 0.3, 1.0, 1.1, 0.5, P.r, P.v); if (quad) pairof(I[2], I[3], 0.8, 0.4, a*ratio*1.3, 0.1, 2.0, 0.1, 0.9, Q.r, Q.v); else I[2]=Q;
  Sys S = I; std::rotate(S.begin(), S.begin()+perm, S.end()); for (auto& s : S) s.h=1e-4;
  sim::Opts o; o.S("nbody","hermite4").I("nbody_softening",0).I("sub_systems",1).F("gpesoft",0.05); RealSim R("nbody", o, 0, S.size()); put(R, S); Nbody<ND>& nb = R.nbody(); NbodySystemTree<ND>& T = R.sim->nbodytree;
  potentials(R); T.CreateNbodySystemTree(&nb); if (via) T.FindBinarySystems(&nb); else T.BuildSubSystems(0,0,0,&nb); c.step(2);
  bool inner=false, outer=false, inner2=!quad;
  for (int q=0;q<T.Norbit;q++) { BinaryOrbit& b = T.orbit[q]; auto is = [&](double A, double E, double M) { return fabs(b.sma-A) < 1e-8*A && fabs(b.ecc-E) < 1e-6 && fabs(b.m-M) < 1e-9; };
    if (is(a*ratio, 0.3, 1.5)) inner = b.systemtype=="binary"; if (quad && is(a*ratio*1.3, 0.1, 1.2)) inner2 = b.systemtype=="binary"; if (is(a, e, quad ? 2.7 : 2.0)) outer = b.systemtype == (quad ? "quadruple" : "triple"); }
  c.check(inner && inner2, "inner-orbit", "inner binaries not recovered (%d orbits)", T.Norbit); c.check(outer, "outer-orbit", "outer orbit not recovered (%d orbits)", T.Norbit); c.interesting(); c.state(Hash().d(a).d(e).d(f).i(quad).h);
}

SCENARIO(dynamics, 3, "main loop with sub-systems: stars, masses, centres of mass and orbits after every step") {
  int id = c.choose(6, "system"), integ = c.choose(3, "integrator"), sub = c.choose(3, "sub-system integrator"), pert = c.choose(2, "perturbers"), lev = c.choose(2, "levels"); double sep = c.pick(std::vector<double>{0.05, 0.1});
  static const char* IN[] = {"hermite4","hermite4ts","lfkdk"};
  double nbm = 0.01; Sys S0 = hierarchy(id, sep); int N = S0.size();
  sim::Opts o; o.S("nbody",IN[integ]).S("sub_system_integration",IN[sub]).I("nbody_softening",0).I("sub_systems",1).I("perturbers",pert).I("Npec",3).I("Nlevels",lev ? 4 : 1).F("nbody_mult",nbm).F("subsys_mult",0.05).F("gpesoft",0.1).F("gpehard",1e-5);
  RealSim R("nbody", o, 0, N); put(R, S0); R.setup(); Nbody<ND>& nb = R.nbody();
  ld P0[3]={0,0,0}, C0[3]={0,0,0}, M=0, sc=0; for (auto& s : S0) { M+=s.m; for (int k=0;k<3;k++) { P0[k]+=s.m*s.v[k]; C0[k]+=s.m*s.r[k]; sc+=s.m*fabsl(s.v[k]); } }
  int steps = c.thorough ? 12 : 5; bool sawsys = false; double tp = 0;
  for (int q=0;q<steps;q++) {
    if (R.sim->timestep*(lev ? R.sim->nresync : 1) > 0.5) break;      // cost: the internal motion would need very many sub-steps
    R.step(); c.step(); double t = R.sim->t; c.check(t > tp, "time", "time went from %g to %g", tp, t); tp = t;
    c.check(nb.Nstar == N, "star-count", "%d stars became %d", N, nb.Nstar);
    std::vector<int> seen(N,0); for (int i=0;i<nb.Nnbody;i++) { std::vector<int> st; if (!c.check(collect(R, nb.nbodydata[i], st), "top-unknown", "object %d is unknown", i)) return; for (int s : st) seen[s]++; }
    for (int s=0;s<N;s++) { c.check(seen[s]==1, "partition", "star %d is in %d objects", s, seen[s]); c.check(R.star(s).m == (double)S0[s].m, "star-mass", "mass of star %d changed", s); for (int k=0;k<3;k++) c.check(std::isfinite(R.star(s).r[k]) && std::isfinite(R.star(s).v[k]), "finite", "star %d", s); }
    for (int i=0;i<nb.Nsystem;i++) { SystemParticle<ND>& s = nb.system[i]; sawsys = true; std::vector<int> st; collect(R, &s, st); ld m=0, r[3]={0,0,0}, v[3]={0,0,0}; for (int x : st) { m+=R.star(x).m; for (int k=0;k<3;k++) { r[k]+=(ld)R.star(x).m*R.star(x).r[k]; v[k]+=(ld)R.star(x).m*R.star(x).v[k]; } }
      c.near("com-mass", "system mass", s.m, (double)m, 1e-13); for (int k=0;k<3;k++) { c.near("com-position", "system centre of mass", (double)(r[k]/m), s.r[k], 1e-11, 1.0); c.near("com-velocity", "system velocity", (double)(v[k]/m), s.v[k], 1e-10, 1.0); } }
    if (c.failed) return;
    if (!(t < 3)) break;
    Sys Q = S0; int n = (int)(t/ (0.004*pow(sep, 1.5))) + 40; rk4(Q, ND, false, t, n);
    bool sync = true; for (int i=0;i<nb.Nnbody;i++) sync = sync && nb.nbodydata[i]->tlast == t;
    if (sync) { ld e=0; for (int i=0;i<N;i++) for (int k=0;k<3;k++) e = std::max(e, fabsl(R.star(i).r[k]-Q[i].r[k])); double tol = (id == 3 || id == 5 ? (sub == 2 ? 0.03 : 2e-3)*sep : id == 2 ? 0.02*sep : 2e-3*sep); c.check(e < tol, "orbit", "after %d steps (t=%g) a star is %Lg away from the true solution (separation %g)", q+1, t, e, sep); }
    if (!lev) { ld P[3]={0,0,0}, C[3]={0,0,0}; for (int i=0;i<N;i++) for (int k=0;k<3;k++) { P[k]+=(ld)R.star(i).m*R.star(i).v[k]; C[k]+=(ld)R.star(i).m*R.star(i).r[k]; } for (int k=0;k<3;k++) { c.check(fabsl(P[k]-P0[k]) < (id==2 ? 2e-3L : 1e-7L)*sc, "momentum", "total momentum changed by %Lg", P[k]-P0[k]); c.check(fabsl(C[k]-C0[k]-P0[k]*t) < (id==2 ? 2e-3L : 1e-7L)*(1+sc), "centre-of-mass", "centre of mass is off by %Lg", C[k]-C0[k]-P0[k]*t); } }
    if (c.failed) return;
    c.state(Hash().i(id).d(R.star(0).r[0]).d(t).h);
  }
  if (sawsys) c.interesting();
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
