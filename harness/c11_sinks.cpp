// C11 - sinks.  The real Sinks object inside real SPH and meshless simulations: every small set of gas particles x existing sinks x
// option combination through SearchForNewSinkParticles and sequences of AccreteMassToSinks, judged against a list model and totals in
// extended precision; runs through the real main loops in which sinks form, accrete and overlap.
#include "sim.hpp"
#include "SphNeighbourSearch.h"
#include "MfvNeighbourSearch.h"
using namespace mc;
typedef long double LD;
namespace {
std::string fmt(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
const char* TY[] = {"sph","mfvmuscl","mfvrk"}; const char* TREE[] = {"kdtree","octtree","bruteforce"}; const char* MODE[] = {"fixed","hmult","kernel"};
template<int nd> struct Tot { LD m = 0, p[3] = {0,0,0}, x[3] = {0,0,0}, L[3] = {0,0,0}, am = 0, ap = 0, ax = 0, aL = 0;
  void add(LD w, const double* r, const double* v) { LD R[3] = {0,0,0}, V[3] = {0,0,0}; for (int k=0;k<nd;k++) { R[k] = r[k]; V[k] = v[k]; }
    m += w; am += fabsl(w); for (int k=0;k<3;k++) { p[k] += w*V[k]; ap += fabsl(w*V[k]); x[k] += w*R[k]; ax += fabsl(w*R[k]); }
    for (int k=0;k<3;k++) { int a = (k+1)%3, b = (k+2)%3; L[k] += w*(R[a]*V[b]-R[b]*V[a]); aL += fabsl(w)*(fabsl(R[a]*V[b])+fabsl(R[b]*V[a])); } } };
template<int nd> Tot<nd> total(sim::Sim<nd>& S) { Tot<nd> T; auto& h = S.hydro(); for (int i=0;i<h.Nhydro;i++) { auto& p = S.part(i); if (!p.flags.is_dead()) T.add(p.m, p.r, p.v); }
  for (int s=0;s<S.nbody().Nstar;s++) T.add(S.star(s).m, S.star(s).r, S.star(s).v); for (int s=0;s<S.sim->sinks->Nsink;s++) for (int k=0;k<3;k++) T.L[k] += S.sim->sinks->sink[s].angmom[k]; return T; }
template<int nd> bool same(Ctx& c, const Tot<nd>& A, const Tot<nd>& B, const char* what, bool dyn = true) {
  if (!(fabsl(A.m-B.m) <= 1e-14L*A.am)) { c.fail("mass", "%s: total mass %.17Lg became %.17Lg", what, A.m, B.m); return false; }
  if (!dyn) return true;
  for (int k=0;k<3;k++) { if (!(fabsl(A.p[k]-B.p[k]) <= 1e-13L*A.ap+1e-300L)) { c.fail("momentum", "%s: total momentum %d %.17Lg became %.17Lg", what, k, A.p[k], B.p[k]); return false; }
    if (!(fabsl(A.x[k]-B.x[k]) <= 1e-13L*A.ax+1e-300L)) { c.fail("centre-of-mass", "%s: sum of m*r[%d] %.17Lg became %.17Lg", what, k, A.x[k], B.x[k]); return false; }
    if (nd > 1 && !(fabsl(A.L[k]-B.L[k]) <= 3e-13L*(A.aL+(A.am > 0 ? A.ap*A.ax/A.am : 0))+1e-300L)) { c.fail("angular-momentum", "%s: total angular momentum %d %.17Lg became %.17Lg", what, k, A.L[k], B.L[k]); return false; } }
  return true; }
// --- one simulation object per configuration and process, re-used with particles put back by hand
struct Key { int nd, ty, tree, leaf, Nh, Ns, bc; bool operator<(const Key& o) const { return memcmp(this, &o, sizeof o) < 0; } };
template<int nd> sim::Sim<nd>& get(const Key& k) { static std::map<Key, sim::Sim<nd>*> M; static pid_t me = 0; if (me != getpid()) { M.clear(); me = getpid(); }
  auto*& p = M[k]; if (p) return *p;
  sim::Opts o; o.I("sink_particles", 1).I("create_sinks", 1).F("rho_sink", 1e20).S("nbody", "lfkdk").S("neib_search", TREE[k.tree]).I("Nleafmax", k.leaf).I("zero_mass_flux", 1).S("gas_eos", "energy_eqn").F("gamma_eos", 1.4).I("hydro_forces", 1).I("Nlevels", 3).I("self_gravity", 0);
  if (k.bc) for (int d=0;d<nd;d++) o.box(d, 0.0, 8.0, k.bc == 1 ? "periodic" : "mirror", k.bc == 1 ? "periodic" : "mirror");
  p = new sim::Sim<nd>(TY[k.ty], o, k.Nh, k.Ns); int n = 1; while ((nd == 1 ? n : nd == 2 ? n*n : n*n*n) < k.Nh) n++;
  for (int i=0;i<k.Nh;i++) { sim::Body b; int x = i; for (int d=0;d<nd;d++) { b.r[d] = (x%n+0.5)*(k.bc ? 8.0/n : 0.1); x /= n; } b.m = 1; b.h = k.bc ? 8.0/n : 0.12; b.u = 1; p->set(i, b); }
  for (int i=0;i<k.Ns;i++) { sim::Body b; b.m = 1; b.h = 0.1; b.r[0] = 50+3*i; p->setstar(i, b); }
  p->sim->initial_h_provided = true; p->sim->rebuild_tree = true; p->setup(); return *p; }
const double PL[7][3] = {{2.03,2.01,2.02},{2.61,2.17,2.3},{2.05,3.4,2.9},{4.1,2.2,3.3},{5.9,5.1,4.3},{3.03,2.4,2.2},{2.2,2.31,1.7}};
template<int nd> void blank(sim::Sim<nd>& S, const Key& K, int i, int place, double m, double h) { auto& p = S.part(i); p.flags = type_flag(); p.flags.set(active); p.ptype = gas_type; p.m = m; p.h = h; p.rho = 1; p.u = 1; p.sound = 1; p.gpot = 1; p.level = 0; p.nstep = 4; p.nlast = 0; p.dt = 0.1; p.levelneib = 0; p.sinkid = -1; p.iorig = i;
  for (int k=0;k<nd;k++) { p.r[k] = p.r0[k] = PL[place][k]; p.v[k] = p.v0[k] = 0; p.a[k] = p.a0[k] = 0; } if (auto* q = (K.ty ? static_cast<MeshlessFV<nd>*>(&S.hydro()) : nullptr)) { auto& w = q->GetMeshlessFVParticlePointer(i); for (int v=0;v<nd+2;v++) w.Qcons0[v] = w.dQ[v] = w.dQdt[v] = 0; w.Qcons0[nd] = m; } }
// ------------------------------------------------------------------------------------------------ formation
// attributes of a candidate: 0 dense minimum, 1 denser minimum, 2 exactly at the threshold, 3 below it, 4 not a minimum, 5 dead, 6 in mid-step, 7 densest of all
const char* AN[] = {"dense","denser","at the threshold","below the threshold","no minimum","dead","mid-step","densest"};
template<int nd> void formation(Ctx& c, int N, int motion) {
  Key K; memset(&K, 0, sizeof K); K.nd = nd; K.ty = c.choose(2, "scheme"); K.leaf = 4; K.Nh = nd == 1 ? 12 : nd == 2 ? 16 : 27; K.Ns = 0;
  int mode = c.choose(3, "sink radius mode"); sim::Sim<nd>& S = get<nd>(K); Sinks<nd>& Z = *S.sim->sinks; auto& H = S.hydro(); auto& B = S.nbody();
  int n = c.pick({4, 8, 6}, "time"); int Ns = c.choose(motion ? 2 : 3, "existing sinks"); static const double SR[3] = {0.35, 1.1, 2.0}; double R = mode == 0 ? 0.4 : mode == 1 ? 3.0 : -1;
  struct A { int place, at; double h, m; int ns; }; std::vector<A> a(N); int geo = c.choose(4, "places"); int hp = c.choose(2, "smoothing lengths"); std::string d;
  static const int GE[4][4] = {{0,1,2,3},{1,0,5,4},{3,2,6,0},{4,6,1,5}};
  for (int i=0;i<N;i++) { a[i].at = c.choose(8, "candidate"); a[i].place = GE[geo][i]; a[i].h = hp ? 0.1+0.07*i : 0.2; a[i].m = 0.5+0.3*i; a[i].ns = a[i].at == 6 ? 16 : (i%2 ? 2 : 1); d += fmt("%s ", AN[a[i].at]); }
  int fix = motion ? 0 : c.choose(2, "limit on sinks");
  H.Nhydro = H.Ntot = N; H.Nghost = 0; B.Nstar = B.Nnbody = Ns; Z.Nsink = Ns; Z.rho_sink = 10; Z.sink_radius = mode == 2 ? 1.7 : R; Z.sink_radius_mode = MODE[mode]; Z.Nsinkfixed = fix ? Ns : -1;
  if (mode == 2) Z.sink_radius_mode = "hmult", R = 1.7;
  int mot = motion ? c.choose(4, "motion") : 0;
  for (int s=0;s<Ns;s++) { StarParticle<nd>& t = B.stardata[s]; t = StarParticle<nd>(); for (int k=0;k<nd;k++) { t.r[k] = s ? PL[5][k]+0.21 : PL[3][k]-0.3; t.v[k] = mot&1 ? 0.3*(k+1) : 0; t.a[k] = 0; } t.m = 1+s; t.h = 0.1; B.nbodydata[s] = &t; Z.sink[s] = SinkParticle<nd>(); Z.sink[s].star = &t; Z.sink[s].radius = SR[s]; }
  for (int i=0;i<N;i++) { blank(S, K, i, a[i].place, a[i].m, a[i].h); auto& p = S.part(i); int t = a[i].at; p.rho = t == 3 ? 9.99 : t == 2 ? 10 : t == 1 ? 40+i : t == 7 ? 90-i : t == 4 ? 200+i : t == 5 ? 300+i : t == 6 ? 150+i : 20+i; if (t != 4) p.flags.set(potmin); if (t == 5) { p.flags.set(dead); p.m = 0; } p.nstep = a[i].ns; p.nlast = n-a[i].ns; p.level = a[i].ns == 1 ? 2 : 1; p.dt = 0.1*a[i].ns; p.gpot = 3+i;
    for (int k=0;k<nd;k++) { p.v[k] = mot&2 ? 0.4*((i+k)%3-1) : 0; p.a[k] = mot ? 0.2*((i*2+k)%5-2) : 0; p.v0[k] = p.v[k]-0.01; p.r0[k] = p.r[k]-0.02; p.a0[k] = p.a[k]+0.1; } }
  std::vector<std::array<double,2>> before; Tot<nd> T0 = total(S); std::vector<Particle<nd>*> P; struct Old { double m, r[3], v[3], a[3], r0[3], v0[3], a0[3], rho, gpot, dt; int nstep, nlast, level; bool dead; }; std::vector<Old> O(N);
  for (int i=0;i<N;i++) { auto& p = S.part(i); Old& o = O[i]; o.m = p.m; o.rho = p.rho; o.gpot = p.gpot; o.dt = p.dt; o.nstep = p.nstep; o.nlast = p.nlast; o.level = p.level; o.dead = p.flags.is_dead(); for (int k=0;k<nd;k++) { o.r[k] = p.r[k]; o.v[k] = p.v[k]; o.a[k] = p.a[k]; o.r0[k] = p.r0[k]; o.v0[k] = p.v0[k]; o.a0[k] = p.a0[k]; } }
  auto radius = [&](int i) { return mode == 0 ? 0.4 : R*a[i].h; };
  c.describe(fmt("%dD %s, %d sinks, radius mode %s, places %d, n %d, motion %d: %s", nd, TY[K.ty], Ns, MODE[mode], geo, n, mot, d.c_str()));
  Z.SearchForNewSinkParticles(n, 0.7, &H, &B); c.step();
  // the list model: eligible particles in order of density, each made a sink unless it overlaps one
  struct M { int i; double x[3], R; }; std::vector<M> sk; for (int s=0;s<Ns;s++) { M q; q.i = -1; q.R = SR[s]; for (int k=0;k<nd;k++) q.x[k] = B.stardata[s].r[k]; sk.push_back(q); }
  auto overlaps = [&](int i, int upto) { for (int s=0;s<upto;s++) { double q = 0; for (int k=0;k<nd;k++) q += (O[i].r[k]-sk[s].x[k])*(O[i].r[k]-sk[s].x[k]); double lim = radius(i)+sk[s].R; if (q < lim*lim) return true; } return false; };
  auto eligible = [&](int i) { return !O[i].dead && a[i].at != 4 && O[i].rho >= 10 && n%O[i].nstep == 0; };
  int New = Z.Nsink-Ns; if (B.Nstar != Z.Nsink || B.Nnbody != Z.Nsink || New < 0 || New > N) { c.fail("counts", "%d sinks, %d stars and %d N-body objects after the search (%d before)", Z.Nsink, B.Nstar, B.Nnbody, Ns); return; }
  std::vector<char> gone(N, 0);
  for (int s=Ns;s<Z.Nsink;s++) { StarParticle<nd>* t = Z.sink[s].star; if (t != &B.stardata[s] || B.nbodydata[s] != t) { c.fail("star", "sink %d is not attached to its star", s); return; }
    int who = -1; for (int i=0;i<N;i++) { bool eq = true; for (int k=0;k<nd;k++) eq = eq && t->r[k] == O[i].r[k]; if (eq) who = i; }
    if (who < 0) { c.fail("place", "sink %d formed where no particle was", s); return; }
    if (gone[who] || O[who].dead) { c.fail("twice", "particle %d, dead or a sink already, became sink %d", who, s); return; }
    if (!eligible(who)) { c.fail("eligible", "sink %d formed from particle %d (%s, density %.3g, step %d at %d)", s, who, AN[a[who].at], O[who].rho, O[who].nstep, n); return; }
    if (fabs(Z.sink[s].radius-radius(who)) > 1e-14*radius(who)) { c.fail("radius", "radius %.17g of the new sink should be %.17g", Z.sink[s].radius, radius(who)); return; }
    if (overlaps(who, s)) { c.fail("overlap", "sink %d (particle %d, radius %.3g) overlaps an earlier one", s, who, radius(who)); return; }
    if (!mot) for (int i=0;i<N;i++) if (!gone[i] && eligible(i) && O[i].rho > O[who].rho && !overlaps(i, s)) { c.fail("densest", "sink %d formed from particle %d of density %.4g while %d has %.4g", s, who, O[who].rho, i, O[i].rho); return; }
    M q; q.i = who; q.R = radius(who); for (int k=0;k<nd;k++) q.x[k] = O[who].r[k]; sk.push_back(q); gone[who] = 1;
    bool ok = t->m == O[who].m && t->nstep == O[who].nstep && t->nlast == O[who].nlast && t->level == O[who].level && t->dt == O[who].dt && t->gpot == O[who].gpot; for (int k=0;k<nd;k++) ok = ok && t->v[k] == O[who].v[k] && t->a[k] == O[who].a[k] && t->r0[k] == O[who].r0[k] && t->v0[k] == O[who].v0[k] && t->a0[k] == O[who].a0[k];
    if (!ok) { c.fail("state", "the star of sink %d does not carry the state of particle %d", s, who); return; }
    if (fabs(t->h*H.kernp->kernrange-radius(who)) > 1e-14*radius(who)) { c.fail("smoothing", "star of sink %d has h %.17g for radius %.17g", s, (double) t->h, radius(who)); return; }
    for (int k=0;k<3;k++) if (Z.sink[s].angmom[k] != 0) { c.fail("spin", "new sink %d spins", s); return; }
    auto& p = S.part(who); if (!p.flags.is_dead() || p.m != 0 || p.flags.check(active)) { c.fail("removed", "particle %d became a sink but lives on", who); return; }
    double mm = 0; for (int i=0;i<N;i++) if (!O[i].dead && !gone[i]) { double q2 = 0; for (int k=0;k<nd;k++) q2 += (O[i].r[k]-O[who].r[k])*(O[i].r[k]-O[who].r[k]); if (q2 < radius(who)*radius(who)) mm += O[i].m; }
    if (fabs(mm-Z.sink[s].mmax) > 1e-13) { c.fail("mmax", "mass inside new sink %d is %.15g, not %.15g", s, mm, (double) Z.sink[s].mmax); return; } }
  if (!mot) { if (fix) { if (New) { c.fail("limit", "%d sinks formed although the limit was reached", New); return; } } else for (int i=0;i<N;i++) if (!gone[i] && eligible(i) && !overlaps(i, Z.Nsink)) { c.fail("missed", "particle %d (%s, density %.4g) formed no sink", i, AN[a[i].at], O[i].rho); return; } }
  for (int i=0;i<N;i++) if (!gone[i]) { auto& p = S.part(i); bool ok = p.m == O[i].m && p.flags.is_dead() == O[i].dead; for (int k=0;k<nd;k++) ok = ok && p.r[k] == O[i].r[k] && p.v[k] == O[i].v[k]; if (!ok) { c.fail("bystander", "particle %d was changed by the search", i); return; } }
  same(c, T0, total(S), "formation"); if (New) c.interesting(); c.state(New*100+geo*10+mode);
}
// ------------------------------------------------------------------------------------------------ accretion
// places relative to a first sink at (3,3,3) of radius 0.5 and a second one beside it
const double AP[10][3] = {{3.06,3.01,2.97},{3.21,3.13,2.9},{2.71,2.86,3.1},{3.44,3.05,2.92},{3.48,3.3,3.1},{3.7,3.02,3.01},{2.3,3.3,3.2},{5.5,5.1,4.8},{3.0,3.41,3.0},{3.55,2.93,3.05}};
template<int nd> void accrete(Ctx& c, int N, int depth, int menu) {
  Key K; memset(&K, 0, sizeof K); K.nd = nd; K.ty = c.choose(2, "scheme"); K.tree = menu ? c.choose(3, "tree") : 0; K.leaf = menu ? c.pick({1, 4}, "leaf") : 2; K.Nh = nd == 1 ? 12 : nd == 2 ? 16 : 27; K.Ns = 0;
  sim::Sim<nd>& S = get<nd>(K); Sinks<nd>& Z = *S.sim->sinks; auto& H = S.hydro(); auto& B = S.nbody();
  int smooth = c.choose(3, "accretion"); int Ns = 1+c.choose(3, "sinks"); int vel = c.choose(menu ? 2 : 3, "velocities"); int mass = c.choose(2, "masses");
  H.Nhydro = H.Ntot = N; H.Nghost = 0; B.Nstar = B.Nnbody = Z.Nsink = Ns == 3 ? 2 : Ns; Z.smooth_accretion = smooth > 0; Z.smooth_accrete_frac = smooth == 2 ? 0.3 : 0.01; Z.smooth_accrete_dt = 0.001; Z.alpha_ss = 0.05;
  std::string d; std::vector<int> pl(N), at(N); int last = -1;
  for (int i=0;i<N;i++) { int o = c.choose(10-(N-1-i)-last-1, "place"); pl[i] = last+1+o; last = pl[i]; at[i] = menu && i == 0 ? c.choose(3, "kind") : 0; d += fmt("%d%s ", pl[i], at[i] == 1 ? " dead" : at[i] == 2 ? " tiny" : ""); }
  for (int s=0;s<Z.Nsink;s++) { StarParticle<nd>& t = B.stardata[s]; t = StarParticle<nd>(); for (int k=0;k<nd;k++) { t.r[k] = 3 + (s && !k ? (Ns == 2 ? 0.6 : 2.2) : 0); t.v[k] = vel ? 0.2*(k+1)-0.3*s : 0; t.a[k] = 0.1*k; t.r0[k] = t.r[k]; t.v0[k] = t.v[k]; } t.m = mass ? 20.0 : 0.7; t.h = 0.25; t.invh = 4; t.nstep = s ? 2 : 4; t.level = s ? 1 : 0; t.nlast = 0; t.dt = 0.1; B.nbodydata[s] = &t; Z.sink[s] = SinkParticle<nd>(); Z.sink[s].star = &t; Z.sink[s].radius = 0.5; Z.sink[s].mmax = mass ? 0.4 : 0; }
  double mm = 0; for (int i=0;i<N;i++) { blank(S, K, i, 0, mass ? 1.0 : 0.3+0.2*i, 0.3); auto& p = S.part(i); for (int k=0;k<nd;k++) { p.r[k] = p.r0[k] = AP[pl[i]][k]; p.v[k] = p.v0[k] = vel == 0 ? 0 : vel == 1 ? 0.5*((i+k)%3-1)+0.1 : -(p.r[k]-3) + (k == 0 ? -(p.r[1%nd]-3) : 0); p.a[k] = 0.3*(k-1)+0.1*i; } p.rho = 1+0.5*i; if (at[i] == 1) { p.flags.set(dead); p.flags.unset(active); p.m = 0; } if (at[i] == 2) p.m = 1e-6; p.nstep = i%2 ? 1 : 4; mm += p.m;
    if (auto* q = (K.ty ? static_cast<MeshlessFV<nd>*>(&H) : nullptr)) { auto& w = q->GetMeshlessFVParticlePointer(i); w.Qcons0[nd] = w.m; for (int k=0;k<nd;k++) w.Qcons0[k] = w.m*w.v[k]; } }
  H.mmean = mm/N; H.hmin_sink = 0.25; double maxr = 0; std::string seq;
  S.sim->n = 0; Tot<nd> T = total(S); bool did = false; int now = 0;
  for (int st=0; st<depth; st++) {
    now += 1+c.choose(4, "time"); double dt = c.pick({0.01, 1.0}, "step"); seq += fmt("n%d ", now);
    if (st) { for (int i=0;i<N;i++) { auto& p = S.part(i); for (int k=0;k<nd;k++) p.r[k] += 0.07*(3-p.r[k]); } }
    S.sim->neib->BuildTree(true, 0, 1, 1, dt, &H); N = H.Nhydro; if (!N) { c.prune(); } if (st) T = total(S);// H.Nhydro;
    // what is where before
    std::vector<double> m0(N), q0(N); std::vector<std::array<double,3>> r0(N), v0(N); std::vector<char> dd(N); struct S0 { double m, r[3]; }; std::vector<S0> s0(Z.Nsink);
    
    for (int i=0;i<N;i++) { auto& p = S.part(i); m0[i] = p.m; dd[i] = p.flags.is_dead(); for (int k=0;k<nd;k++) { r0[i][k] = p.r[k]; v0[i][k] = p.v[k]; } if (auto* q = (K.ty ? static_cast<MeshlessFV<nd>*>(&H) : nullptr)) { auto& w = q->GetMeshlessFVParticlePointer(i); q0[i] = w.Qcons0[nd]+w.dQ[nd]; } }
    for (int s=0;s<Z.Nsink;s++) { s0[s].m = B.stardata[s].m; for (int k=0;k<nd;k++) s0[s].r[k] = B.stardata[s].r[k]; }
    c.describe(fmt("%dD %s %s leaf %d, %s accretion, %d sinks%s, velocities %d, masses %d, gas at %s, %s", nd, TY[K.ty], TREE[K.tree], K.leaf, smooth == 0 ? "full" : smooth == 1 ? "smooth" : "smooth (0.3)", Z.Nsink, Ns == 2 ? " overlapping" : "", vel, mass, d.c_str(), seq.c_str()));
    Z.AccreteMassToSinks(now, dt, &H, &B); c.step();
    std::vector<double> lost(N); std::vector<char> ok(N, 0); int nl = 0;
    for (int s=0;s<Z.Nsink;s++) { double rs[3]; // gas may enter only sinks which end their step now
      if (now%B.stardata[s].nstep) { if (B.stardata[s].m != s0[s].m) { c.fail("mid-step", "sink %d in the middle of its step accreted", s); return; } continue; }
      for (int i=0;i<N;i++) { double q = 0; for (int k=0;k<nd;k++) q += (r0[i][k]-s0[s].r[k])*(r0[i][k]-s0[s].r[k]); if (q <= 0.25) ok[i] |= 1<<s; } }
    for (int i=0;i<N;i++) { auto& p = S.part(i); lost[i] = m0[i]-p.m; bool moved = false; for (int k=0;k<nd;k++) moved = moved || p.r[k] != r0[i][k] || p.v[k] != v0[i][k]; if (moved) { c.fail("moved", "gas particle %d was moved by accretion", i); return; }
      if (p.m < 0 || lost[i] < 0) { c.fail("negative", "gas particle %d had mass %.17g and has %.17g", i, m0[i], p.m); return; }
      if (lost[i] > 0) { nl++; did = true; if (dd[i]) { c.fail("dead", "dead particle %d was accreted", i); return; } if (!ok[i]) { c.fail("outside", "particle %d lost %.3g but is in no sink ending its step", i, lost[i]); return; } }
      if (p.flags.is_dead() != (p.m == 0)) { c.fail("dead-flag", "particle %d of mass %.3g is %s", i, (double) p.m, p.flags.is_dead() ? "dead" : "alive"); return; }
      if (p.flags.is_dead() && p.flags.check(active)) { c.fail("dead-active", "accreted particle %d is still active", i); return; }
      if (auto* q = (K.ty ? static_cast<MeshlessFV<nd>*>(&H) : nullptr)) { auto& w = q->GetMeshlessFVParticlePointer(i); if (!p.flags.is_dead() && fabs(w.Qcons0[nd]+w.dQ[nd]-q0[i]+lost[i]) > 1e-14*(q0[i])) { c.fail("conserved-variables", "meshless particle %d lost mass %.17g but its conserved mass changed by %.17g", i, lost[i], q0[i]-(w.Qcons0[nd]+w.dQ[nd])); return; } }
      // all of the gas in a sink that ends its step goes, unless it shares it with another sink in mid-step
      int in = 0; for (int s=0;s<Z.Nsink;s++) { double q2 = 0; for (int k=0;k<nd;k++) q2 += (r0[i][k]-s0[s].r[k])*(r0[i][k]-s0[s].r[k]); if (q2 <= 0.25) in |= 1<<s; }
      if (!smooth && !dd[i] && in && in == ok[i] && p.m != 0) { c.fail("left", "particle %d inside a sink was not accreted", i); return; } }
    double gain = 0; for (int s=0;s<Z.Nsink;s++) { if (!(B.stardata[s].m >= s0[s].m) || !std::isfinite(B.stardata[s].m)) { c.fail("star-mass", "star %d had %.17g and has %.17g", s, s0[s].m, (double) B.stardata[s].m); return; } gain += B.stardata[s].m-s0[s].m;
      for (int k=0;k<nd;k++) if (now%B.stardata[s].nstep == 0 && nl && (B.stardata[s].r0[k] != B.stardata[s].r[k] || B.stardata[s].v0[k] != B.stardata[s].v[k]) && B.stardata[s].m != s0[s].m) { c.fail("start-values", "star %d keeps old start-of-step values after accreting", s); return; } }
    Tot<nd> T1 = total(S); if (!same(c, T, T1, "accretion")) return; T = T1;
    // nearest first: nobody loses part of its mass while a nearer one in the same single sink keeps all of its
    if (Z.Nsink == 1 && smooth) for (int i=0;i<N;i++) for (int j=0;j<N;j++) if (ok[i] && ok[j] && !dd[i] && !dd[j] && lost[i] > 0 && lost[j] == 0) { double a2 = 0, b2 = 0; for (int k=0;k<nd;k++) { a2 += (r0[i][k]-s0[0].r[k])*(r0[i][k]-s0[0].r[k]); b2 += (r0[j][k]-s0[0].r[k])*(r0[j][k]-s0[0].r[k]); } if (b2 < a2) { c.fail("nearest", "particle %d at %.3g accreted before %d at %.3g", i, sqrt(a2), j, sqrt(b2)); return; } }
    c.state(nl*1000+now*10+smooth);
  }
  if (did) c.interesting();
}
// ------------------------------------------------------------------------------------------------ boxes: images of the gas are not accreted
template<int nd> void boxes(Ctx& c) {
  Key K; memset(&K, 0, sizeof K); K.nd = nd; K.ty = c.choose(2, "scheme"); K.leaf = 4; K.Nh = nd == 2 ? 36 : 64; K.Ns = 0; K.bc = 1+c.choose(2, "boundary"); K.tree = c.choose(3, "tree");
  sim::Sim<nd>* Sp; sim::Opts o; o.I("sink_particles", 1).I("create_sinks", 1).F("rho_sink", 1e20).S("nbody", "lfkdk").S("neib_search", TREE[K.tree]).I("Nleafmax", 4).I("zero_mass_flux", 1).S("gas_eos", "energy_eqn").F("gamma_eos", 1.4).I("Nlevels", 1);
  const char* bn = K.bc == 1 ? "periodic" : "mirror"; for (int d=0;d<nd;d++) o.box(d, 0.0, 1.0, bn, bn);
  static const double SP[5][3] = {{0.03,0.5,0.5},{0.97,0.52,0.5},{0.02,0.03,0.04},{0.5,0.48,0.5},{0.1,0.9,0.96}}; int n = nd == 2 ? 8 : 6; int Nh = nd == 2 ? 64 : 216; int sp = c.choose(5, "sink"); double R = c.pick({0.2, 0.11, 0.3}, "radius");
  sim::Sim<nd> S(TY[K.ty], o, Nh, 1); for (int i=0;i<Nh;i++) { sim::Body b; int x = i; for (int d=0;d<nd;d++) { b.r[d] = (x%n+0.5+0.07*sin(i*1.3+d))/n; b.v[d] = 0.1*sin(2.0*i+d); x /= n; } b.m = 1.0/Nh; b.h = 1.1/n; b.u = 1; S.set(i, b); }
  sim::Body b; b.m = 0.5; b.h = R/2; for (int k=0;k<nd;k++) b.r[k] = SP[sp][k]; S.setstar(0, b); S.sim->initial_h_provided = true;
  c.describe(fmt("%dD %s %s box, %s, sink %d radius %.2g", nd, TY[K.ty], bn, TREE[K.tree], sp, R)); S.setup();
  Tot<nd> T = total(S); S.sim->sinks->sink[0].star->nstep = 1; S.sim->sinks->AccreteMassToSinks(1, 0.01, &S.hydro(), &S.nbody()); c.step(); int acc = 0; for (int i=0;i<S.hydro().Nhydro;i++) acc += S.part(i).flags.is_dead(); if (acc) c.interesting(); c.state(acc*10+sp);
  same(c, T, total(S), "accretion near a boundary");
}
// ------------------------------------------------------------------------------------------------ whole runs
template<int nd> void runs(Ctx& c, int steps) {
  int ty = c.choose(3, "scheme"); int tree = c.choose(2, "tree"); int lev = c.pick({1, 3}, "levels"); int smooth = c.choose(2, "accretion"); int nt = c.pick({1, 3}, "tree rebuilds"); int mode = c.choose(2, "radius mode"); int geo = c.choose(3, "clusters"); int cut = c.pick({3, 1}, "threshold"); int Ns = c.choose(2, "stars"); int nb = c.choose(2, "integrator");
  sim::Opts o; o.I("sink_particles", 1).I("create_sinks", 1).S("nbody", nb ? "lfdkd" : "lfkdk").S("neib_search", TREE[tree]).I("Nleafmax", 4).I("zero_mass_flux", 1).S("gas_eos", "energy_eqn").F("gamma_eos", 1.4).I("Nlevels", lev).I("self_gravity", 1).I("smooth_accretion", smooth).S("sink_radius_mode", mode ? "hmult" : "fixed").F("sink_radius", mode ? 2.0 : 0.15).I("ntreebuildstep", nt).I("ntreestockstep", 1).F("courant_mult", 0.1).F("h_converge", 1e-6);
  std::vector<sim::Body> g; int n = nd == 2 ? 5 : 3; int Nc = geo == 0 ? 1 : 2; for (int cl=0; cl<Nc; cl++) for (int i=0;i<(nd == 2 ? n*n : n*n*n);i++) { sim::Body b; int x = i; double q = 0; for (int d=0;d<nd;d++) { double y = (x%n-(n-1)*0.5)/n; q += y*y; b.r[d] = y*(1+0.8*fabs(y)) + 0.01*sin(3.1*i+d) + (d == 0 ? cl*(geo == 1 ? 1.1 : 4.0) : 0.3*cl); x /= n; b.v[d] = 0.1*sin(1.0*i+2*d); } if (q < 0.01) b.m = 1.0; else b.m = 0.7+0.1*cl; b.h = 0.25; b.u = 0.05; g.push_back(b); }
  double msum = 0; for (auto& b : g) msum += b.m; o.F("rho_sink", cut == 3 ? (nd == 2 ? 12.0 : 8.0) : (nd == 2 ? 25.0 : 25.0));
  sim::Sim<nd> S(TY[ty], o, g.size(), Ns); for (size_t i=0;i<g.size();i++) S.set(i, g[i]); if (Ns) { sim::Body b; b.m = 2; b.h = 0.07; b.r[0] = 0.31; b.r[1] = 0.14; S.setstar(0, b); }
  S.sim->initial_h_provided = true; c.describe(fmt("%dD %s %s %d levels%s rebuild every %d, radius mode %s, clusters %d, threshold %d, %d stars", nd, TY[ty], TREE[tree], lev, smooth ? " smooth" : "", nt, MODE[mode], geo, cut, Ns)); S.setup();
  auto& H = S.hydro(); Sinks<nd>& Z = *S.sim->sinks; Tot<nd> T0 = total(S); int ns0 = Z.Nsink, alive0 = H.Nhydro; std::map<int,int> died; bool any = false;
  for (int st=0; st<steps; st++) {
    std::map<int,double> mb; for (int i=0;i<H.Nhydro;i++) { auto& p = S.part(i); mb[p.iorig] = p.flags.is_dead() ? 0 : p.m; }
    int nsb = Z.Nsink; std::vector<double> sm(nsb), smr(nsb); for (int s=0;s<nsb;s++) { sm[s] = Z.sink[s].star->m; }
    S.step(); c.step(); std::set<int> seen; bool wild = false;
    Tot<nd> T = total(S); if (!same(c, T0, T, "run", false)) return;
    for (int i=0;i<H.Nhydro;i++) { auto& p = S.part(i); if (!seen.insert(p.iorig).second) { c.fail("twin", "particle %d exists twice", p.iorig); return; }
      if (p.flags.is_dead()) { if (p.m != 0) { c.fail("dead-mass", "dead particle has mass"); return; } continue; }
      if (p.h > 4) wild = true; if (!mb.count(p.iorig) || mb[p.iorig] <= 0) { c.fail("revived", "particle %d came back to life", p.iorig); return; }
      if (p.m > mb[p.iorig]*(1+1e-15)) { c.fail("grew", "gas particle %d grew from %.17g to %.17g", p.iorig, mb[p.iorig], (double) p.m); return; }
      for (int k=0;k<nd;k++) if (!std::isfinite(p.r[k]) || !std::isfinite(p.v[k])) { c.fail("finite", "particle %d at %g", p.iorig, (double) p.r[k]); return; } }
    if (Z.Nsink != S.nbody().Nstar || S.nbody().Nnbody != Z.Nsink) { c.fail("counts", "%d sinks, %d stars", Z.Nsink, S.nbody().Nstar); return; }
    for (int s=0;s<Z.Nsink;s++) { if (Z.sink[s].star != &S.star(s) || S.nbody().nbodydata[s] != &S.star(s)) { c.fail("star", "sink %d lost its star", s); return; } if (s < nsb && Z.sink[s].star->m < sm[s]) { c.fail("star-mass", "sink %d lost mass", s); return; } }
    for (int s=nsb;s<Z.Nsink;s++) for (int q=0;q<s;q++) { double d2 = 0; for (int k=0;k<nd;k++) d2 += pow(S.star(s).r[k]-S.star(q).r[k], 2); if (sqrt(d2) < 0.9*(Z.sink[s].radius+Z.sink[q].radius)) { c.fail("overlap", "new sink %d at %.3g from %d, radii %.3g %.3g", s, sqrt(d2), q, (double) Z.sink[s].radius, (double) Z.sink[q].radius); return; } }
    // the smoothing lengths and densities of this step are those of the live gas: checked against direct sums at the end of common steps
    if (lev == 1 && !nb && Z.Nsink == 0 && ty == 0) { double inv = 1.0/nd; for (int i=0;i<H.Nhydro;i++) { auto& p = S.part(i); double s = 0; for (int j=0;j<H.Nhydro;j++) { auto& q = S.part(j); double d2 = 0; for (int k=0;k<nd;k++) d2 += (p.r[k]-q.r[k])*(p.r[k]-q.r[k]); s += q.m*H.kernp->w0(sqrt(d2)/p.h)*pow(p.h, -nd); } double lo = 1.2*pow(p.m/(double) S.sim->sinks->rho_sink, inv); if (p.h > lo*(1+1e-9) && !(fabs(p.rho-s) <= 1e-4*s)) { c.fail("density", "particle %d h %.4g: density %.6g, sum over the live gas %.6g", p.iorig, (double) p.h, (double) p.rho, s); return; } } }
    if (Z.Nsink > ns0) any = true;
    c.state(Z.Nsink*1000+H.Nhydro); int left[2] = {0,0}, per = g.size()/Nc; for (int i=0;i<H.Nhydro;i++) if (!S.part(i).flags.is_dead()) left[S.part(i).iorig/per]++; for (int q=0;q<Nc;q++) if (left[q] < (nd == 2 ? 12 : 16)) wild = true;
    if (wild) break;      // too few particles are left for a smoothing length to exist
  }
  if (any || H.Nhydro < alive0) c.interesting();
}
}
SCENARIO(form1, 4, "formation in one dimension") { formation<1>(c, 3, 0); }
SCENARIO(form3, 4, "formation in three dimensions") { formation<3>(c, 3, 0); }
SCENARIO(form2_motion, 4, "formation among moving particles and sinks") { formation<2>(c, 3, 1); }
SCENARIO_T(form3_four, 4, "four candidates") { formation<3>(c, 4, 0); }
SCENARIO_T(form2_four, 4, "four candidates, moving") { formation<2>(c, 4, 1); }
SCENARIO(acc3, 4, "accretion, sequences") { accrete<3>(c, c.thorough ? 4 : 3, c.thorough ? 3 : 2, 0); }
SCENARIO(acc2, 4, "accretion, sequences") { accrete<2>(c, 3, 2, 0); }
SCENARIO(acc1, 4, "accretion, sequences") { accrete<1>(c, 3, 2, 0); }
SCENARIO(acc3_trees, 4, "accretion, trees and kinds") { accrete<3>(c, 4, c.thorough ? 2 : 1, 1); }
SCENARIO(box2, 2, "accretion near boundaries") { boxes<2>(c); }
SCENARIO(box3, 2, "accretion near boundaries") { boxes<3>(c); }
SCENARIO(run3, 3, "whole runs") { runs<3>(c, c.thorough ? 16 : 6); }
SCENARIO(run2, 3, "whole runs") { runs<2>(c, c.thorough ? 16 : 6); }
int main(int a, char** v) { return mc::main(a, v); }
