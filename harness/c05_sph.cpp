// C05: real grad-h SPH objects on every combination of arrangement x boundaries x options: smoothing lengths, densities, correction
// factors, accelerations, heating, divergence and viscosity rates against direct sums over all periodic and mirror images;
// conservation of momentum and energy; independence of order, tree and of which particles are active.
#include "sim.hpp"
#include "SmoothingKernel.h"
#include "SphNeighbourSearch.h"
#include "Ghosts.h"
using namespace mc;
namespace {
std::string fmt(const char* f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
enum { PER, MIR, WAL, OPN, MO };
const char* BL[] = {"periodic","mirror","wall","open","mirror"}; const char* BR[] = {"periodic","mirror","wall","open","open"};
const char* TREE[] = {"kdtree","octtree","bruteforce"}; const char* KER[] = {"m4","quintic","gaussian"};
struct Cfg { int ker = 0, tab = 0, bound[3] = {3,3,3}, tree = 0, leaf = 3, avisc = 1, acond = 0, eos = 0, grav = 0, given = 1, Nlev = 1; double conv = 1e-10, hfac = 1.2; };
template<int nd> sim::Opts opts(const Cfg& f, const double* L) {
  sim::Opts o; for (int k=0;k<nd;k++) o.box(k, 0.0, L[k], BL[f.bound[k]], BR[f.bound[k]]);
  o.S("neib_search", TREE[f.tree]).I("Nleafmax", f.leaf).F("h_fac", f.hfac).F("h_converge", f.conv).S("kernel", KER[f.ker]).I("tabulated_kernel", f.tab).S("gas_eos", f.eos == 1 ? "isothermal" : f.eos == 2 ? "barotropic" : "energy_eqn").F("gamma_eos", 1.4).F("alpha_visc", 0.8).F("beta_visc", 1.7).F("alpha_visc_min", 0.1);
  o.S("avisc", f.avisc ? "mon97" : "none").S("time_dependent_avisc", f.avisc == 2 ? "mm97" : f.avisc == 3 ? "cd2010" : "none").S("acond", f.acond == 1 ? "wadsley2008" : f.acond == 2 ? "price2008" : "none").I("self_gravity", f.grav).I("Nlevels", f.Nlev).I("ntreebuildstep", 1).I("ntreestockstep", 1).F("thetamaxsqd", 1e-10); return o;
}
template<int nd> struct Set { std::vector<sim::Body> b; double L[3]; };
// n^nd particles at spacing 1/n[0]; positions, velocities and states by patterns
template<int nd> Set<nd> lattice(const int* n, int geo, int vel, int st, double hfac) {
  Set<nd> s; int N = 1; for (int k=0;k<nd;k++) { N *= n[k]; s.L[k] = double(n[k])/n[0]; } double d = 1.0/n[0];
  for (int i=0;i<N;i++) { sim::Body b; int x = i, q[3]; for (int k=0;k<nd;k++) { q[k] = x%n[k]; x /= n[k]; }
    for (int k=0;k<nd;k++) { double w = geo == 0 ? 0 : geo == 1 ? 0.2*sin(1.7*i+2.3*k) : geo == 2 ? 0.3*sin(1.0+i*i+3*k) : geo > 3 ? 0.3*sin((0.7+0.31*geo)*i*i+(2+geo)*k+geo) : 0, p = (q[k]+0.5+w)/n[k]; if (geo == 3) { double y = (q[k]+0.5+0.1*sin(2.1*i+k))/n[k]; p = 0.35*y + 0.65*y*y*y; } b.r[k] = p*s.L[k];
      b.v[k] = vel == 0 ? 0.3*b.r[k]*(k == 0) : vel == 1 ? -0.8*sin(6.283185307179586*b.r[k]/s.L[k]+k) : (i%2 ? 0.9 : -0.8) + 0.3*k*cos(i); }
    b.m = (st == 1 ? (i%3 ? 1.0 : 2.5) : 1.0)/N; b.u = st == 0 ? 1.0+0.3*sin(1+i*i) : st == 1 ? 1 + 0.5*sin(6.28*b.r[0]+1) : (i%4 == 0 ? 5.0 : 0.4); b.h = hfac*d; s.b.push_back(b); }
  return s;
}
template<int nd> struct Image { int j; double r[nd], v[nd]; };
template<int nd> struct Go {
  Cfg f; Set<nd> s; sim::Sim<nd> S; int N; Sph<nd>* sph; SphSimulation<nd>* ss; std::vector<int> who;
  Go(const Cfg& f, const Set<nd>& s, const std::vector<int>& ord) : f(f), s(s), S("sph", opts<nd>(f, s.L), s.b.size(), 0), N(s.b.size()), who(ord) {
    for (int i=0;i<N;i++) { sim::Body b = s.b[ord[i]]; if (f.given == 2) b.h *= 0.3; if (f.given == 3) b.h *= 2.2; S.set(i, b); }
    sph = static_cast<Sph<nd>*>(&S.hydro()); ss = static_cast<SphSimulation<nd>*>(S.sim); S.sim->initial_h_provided = f.given > 0; S.setup(); }
  GradhSphParticle<nd>& p(int i) { return static_cast<GradhSphParticle<nd>&>(S.part(i)); }
  // the phases of the main loop between the moving of particles and the end of their steps, for the particles marked active
  void compute(bool props = true) {
    ss->sphneib->UpdateActiveParticleCounters(sph); ss->LocalGhosts->CopyHydroDataToGhosts(S.sim->simbox, sph); if (props) ss->sphneib->UpdateAllSphProperties(sph, S.sim->nbody); sph->ZeroAccelerations();
    if (f.grav) ss->sphneib->UpdateAllSphForces(sph, S.sim->nbody, S.sim->simbox, S.sim->ewald); else ss->sphneib->UpdateAllSphHydroForces(sph, S.sim->nbody, S.sim->simbox); }
  std::vector<Image<nd>> images() { std::vector<Image<nd>> v; for (int j=0;j<N;j++) { Image<nd> m; m.j = j; for (int k=0;k<nd;k++) { m.r[k] = p(j).r[k]; m.v[k] = p(j).v[k]; } std::vector<Image<nd>> l{m};
      for (int k=0;k<nd;k++) { size_t n = l.size(); for (size_t q=0;q<n;q++) for (int side=0;side<2;side++) { Image<nd> x = l[q]; const char* b = side ? BR[f.bound[k]] : BL[f.bound[k]]; if (!strcmp(b, "periodic")) x.r[k] += side ? s.L[k] : -s.L[k]; else if (!strcmp(b, "mirror")) { x.r[k] = 2*(side ? s.L[k] : 0) - x.r[k]; x.v[k] = -x.v[k]; } else continue; l.push_back(x); } }
      v.insert(v.end(), l.begin(), l.end()); } return v; }
  bool small() { for (int i=0;i<N;i++) for (int k=0;k<nd;k++) if (strcmp(BL[f.bound[k]], "open") && strcmp(BL[f.bound[k]], "wall") && p(i).h*sph->kernp->kernrange > 0.5*s.L[k]) return false; return true; }
};
std::string cname(const Cfg& f, int nd) { std::string q = fmt("%dD %s%s %s leaf %d, visc %d cond %d eos %d%s hfac %g conv %g h %s, ", nd, f.tab ? "tabulated " : "", KER[f.ker], TREE[f.tree], f.leaf, f.avisc, f.acond, f.eos, f.grav ? " self-gravity" : "", f.hfac, f.conv, f.given == 0 ? "guessed" : f.given == 1 ? "given" : f.given == 2 ? "small" : "large"); for (int k=0;k<nd;k++) q += std::string(k ? "x" : "") + BL[f.bound[k]] + "/" + BR[f.bound[k]]; return q; }
template<class F> void run(Ctx& c, F fn) { try { fn(); } catch (GandalfError& e) { if (e.msg.find("Smoothing length too large") == std::string::npos) throw; c.prune(); } }
// every sum of particle i from its definition
template<int nd> struct Sums { bool tie; double rho, omega, zeta, a[3], dudt, divv, dalpha, aa; int lev; };
template<int nd> Sums<nd> sums(Go<nd>& g, const std::vector<Image<nd>>& im, int i, double hprev) {
  Sums<nd> s; SmoothingKernel<nd>& K = *g.sph->kernp; auto& P = g.p(i); double h = P.h; const double al = 0.8, be = 1.7; s.tie = false; s.rho = s.omega = s.zeta = s.dudt = s.divv = s.aa = 0; s.lev = 0; for (int k=0;k<3;k++) s.a[k] = 0; double kr = K.kernrange, alm = P.alpha;
  for (auto& m : im) { auto& Q = g.p(m.j); double d2 = 0, dr[3], dvdr = 0; for (int k=0;k<nd;k++) { dr[k] = m.r[k]-P.r[k]; d2 += dr[k]*dr[k]; } double r = sqrt(d2), q = r/h; bool self = m.j == i && r == 0;
    if (fabs(q-kr) < 1e-4 || fabs(r/Q.h-kr) < 1e-4) s.tie = true; if (q < kr) { s.rho += Q.m*K.w0_s2(q*q)/pow(h, nd); s.omega += -Q.m*(nd*K.w0_s2(q*q) + q*K.w1(q))/pow(h, nd+1); s.zeta += Q.m*K.wzeta_s2(q*q)/(h*h); }
    if (self || (q >= kr && r/Q.h >= kr)) continue;
    for (int k=0;k<nd;k++) { dr[k] /= r; dvdr += (m.v[k]-P.v[k])*dr[k]; }
    double wi = K.w1(r/h)/pow(h, nd+1), wj = K.w1(r/Q.h)/pow(Q.h, nd+1), A = P.pressure*P.invomega/(P.rho*P.rho)*wi + Q.pressure*Q.invomega/(Q.rho*Q.rho)*wj, D = Q.m*P.pressure*P.invomega/(P.rho*P.rho)*dvdr*wi; 
    if (dvdr < 0) { double w = 0.25*(wi+wj)*(1/P.rho+1/Q.rho); if (g.f.avisc) { double a = g.f.avisc == 1 ? al : 0.5*(alm+Q.alpha), vs = P.sound+Q.sound-be*a*dvdr; A -= a*vs*dvdr*w; D -= 0.5*Q.m*a*vs*dvdr*dvdr*w; }
      if (g.f.acond == 1) D += Q.m*dvdr*(Q.u-P.u)*(wi/P.rho+wj/Q.rho); if (g.f.acond == 2) D += 0.5*Q.m*(P.u-Q.u)*w*(1/P.rho+1/Q.rho)*sqrt(fabs(P.pressure-Q.pressure)); }
    s.dudt += D; s.divv -= Q.m*dvdr*wi/P.rho; for (int k=0;k<nd;k++) { s.a[k] += Q.m*A*dr[k]; } s.aa += fabs(Q.m*A); if (r < kr*(1-1e-9)*std::max(h, (double) Q.h)) s.lev = std::max(s.lev, Q.level); }
  s.dalpha = 0.1*P.sound*(0.1-P.alpha)/h + std::max(-s.divv, 0.0)*(al-P.alpha); return s;
}
template<int nd> bool checki(Ctx& c, Go<nd>& g, const std::vector<Image<nd>>& im, int i, const char* when) {
  auto& P = g.p(i); Sums<nd> s = sums<nd>(g, im, i, 0); if (s.tie && g.f.ker == 2) return true;   // the truncated Gaussian jumps at its edge
  double t = 40*g.f.conv + 1e-12, td = g.f.tab ? 2e-2 : 0; if (g.f.tab) t += 1e-2; double h = g.f.hfac*pow(P.m/P.rho, 1.0/nd); c.step();
  if (!(fabs(h-P.h) <= (g.f.tab ? 1e-2 : 1e-12)*h)) { c.fail("h-rho", "%s: particle %d has h %.15g, density %.15g wants %.15g", when, i, (double) P.h, (double) P.rho, h); return false; }
  if (!(fabs(s.rho-P.rho) <= t*P.rho)) { c.fail("density", "%s: particle %d has density %.15g, the sum over its neighbours is %.15g (h %g)", when, i, (double) P.rho, s.rho, (double) P.h); return false; }
  double om = 1/(1 + P.h/(nd*P.rho)*s.omega), ze = -P.h/(nd*P.rho)*s.zeta*om; 
  if (!(fabs(om-P.invomega) <= (t+td)*20*fabs(om)*std::max(1.0, fabs(om)))) { c.fail("omega", "%s: particle %d has 1/omega %.15g, by definition %.15g", when, i, (double) P.invomega, om); return false; }
  if (!(fabs(ze-P.zeta) <= (t+td)*50*fabs(ze)*std::max(1.0, fabs(om)) + 1e-14)) { c.fail("zeta", "%s: particle %d has zeta %.15g, by definition %.15g", when, i, (double) P.zeta, ze); return false; }
  if (g.f.eos == 0 && !(fabs(P.pressure-0.4*P.rho*P.u) <= 1e-12*P.pressure && fabs(P.sound-sqrt(1.4*0.4*P.u)) <= 1e-12*P.sound)) { c.fail("thermal", "%s: particle %d pressure %.15g sound %.15g for density %.15g and energy %.15g", when, i, (double) P.pressure, (double) P.sound, (double) P.rho, (double) P.u); return false; }
  double e = g.f.tab ? 1e-2 : 1e-11; if (!g.f.grav) for (int k=0;k<nd;k++) if (!(fabs(s.a[k]-P.a[k]) <= e*s.aa)) { c.fail("acceleration", "%s: particle %d acceleration %d is %.15g, the sum over pairs is %.15g", when, i, k, (double) P.a[k], s.a[k]); return false; }
  if (!(fabs(s.dudt-P.dudt) <= e*(fabs(s.dudt)+s.aa))) { c.fail("heating", "%s: particle %d du/dt is %.15g, the sum over pairs is %.15g", when, i, (double) P.dudt, s.dudt); return false; }
  if (!(fabs(s.divv-P.div_v) <= e*(fabs(s.divv)+s.aa))) { c.fail("divergence", "%s: particle %d div v is %.15g, the sum is %.15g", when, i, (double) P.div_v, s.divv); return false; }
  if (g.f.avisc == 2 && !(fabs(s.dalpha-P.dalphadt) <= e*(1+fabs(s.dalpha)+s.aa))) { c.fail("viscosity-rate", "%s: particle %d dalpha/dt is %.15g, by definition %.15g (div v %g)", when, i, (double) P.dalphadt, s.dalpha, s.divv); return false; }
  if (g.f.avisc == 3 && !(P.alpha >= 0 && P.alpha <= 0.8+1e-12)) { c.fail("viscosity-range", "%s: particle %d has alpha %g", when, i, (double) P.alpha); return false; }
  return true;
}
template<int nd> bool dims(Ctx& c, Cfg& f, int* n) {    // boundaries and lattice: closed directions need enough particles for the kernel
  int bc = c.choose(nd == 1 ? 4 : 6, "boundaries"); for (int k=0;k<3;k++) { f.bound[k] = OPN; n[k] = nd == 1 ? 10 : nd == 2 ? 5 : 3; }
  int big = nd == 1 ? 10 : nd == 2 ? 8 : 7;
  switch (bc) { case 0: break; case 1: f.bound[0] = PER; n[0] = big; break; case 2: f.bound[0] = MIR; break; case 3: f.bound[0] = MO; break; case 4: f.bound[0] = nd == 2 ? PER : MIR; f.bound[1] = PER; if (nd == 2) n[0] = big; n[1] = big; break; case 5: for (int k=0;k<nd;k++) f.bound[k] = k%2 ? MO : MIR; break; }
  if (bc == 1 || bc == 4) f.hfac = nd == 1 ? 1.0 : 0.8; if (nd == 3) f.hfac = 0.85; if ((bc == 1 || bc == 4) && f.ker) return false; if (f.grav && bc) return false;
  return true; }
Cfg variant(Ctx& c, int nd) {
  Cfg f; switch (c.choose(nd == 3 ? 15 : 14, "variant")) { case 0: break; case 1: f.ker = 1; break; case 2: f.ker = 2; f.avisc = 2; break; case 3: f.tab = 1; break; case 4: f.avisc = 2; f.acond = 1; break; case 5: f.avisc = 2; f.acond = 2; f.tree = 1; break; case 6: f.avisc = 0; f.acond = 2; f.given = 3; break; case 7: f.eos = 1; f.avisc = 3; break; case 8: f.tree = 1; f.leaf = 1; f.acond = 1; break; case 9: f.tree = 2; f.given = 0; break; case 10: f.conv = 0.01; break; case 11: f.given = 2; f.leaf = 8; f.conv = 1e-4; break; case 12: f.eos = 2; f.tab = 1; f.ker = 1; break; case 13: f.avisc = 3; f.given = 0; f.leaf = 1; break; case 14: f.grav = 1; f.avisc = 2; f.acond = 1; break; } return f; }
std::vector<int> ident(int n) { std::vector<int> v(n); for (int i=0;i<n;i++) v[i] = i; return v; }
template<int nd> void alphas(Go<nd>& g) { for (int i=0;i<g.N;i++) g.p(i).alpha = 0.1 + 0.12*(g.who[i]%5); }
template<int nd> void one(Ctx& c) {
  Cfg f = variant(c, nd); int n[3]; if (!dims<nd>(c, f, n)) c.prune(); int geo = c.choose(c.thorough ? 8 : 4, "positions"), vel = c.choose(3, "velocities"), st = c.choose(3, "states"), steps = c.choose(2, "steps before");
  if (geo == 3 && f.bound[0] == PER) c.prune(); if (!c.thorough && nd > 1 && nd == 3 && (geo+vel+st+steps)%2) c.prune();
  c.describe(cname(f, nd) + fmt(", %dx%dx%d particles, positions %d velocities %d states %d after %d steps", n[0], nd > 1 ? n[1] : 1, nd > 2 ? n[2] : 1, geo, vel, st, steps));
  Set<nd> s = lattice<nd>(n, geo, vel, st, f.hfac); Go<nd> g(f, s, ident(s.b.size()));
  for (int t=0;t<2*steps;t++) { g.S.step(); for (int i=0;i<g.N;i++) if (!(g.p(i).u > 0)) { c.prune(); return; } }
  alphas<nd>(g); for (int i=0;i<g.N;i++) { g.p(i).flags.set(active); g.p(i).level = (i*3)%5; } g.compute(); if (!g.small()) { c.prune(); return; }
  auto im = g.images(); for (int i=0;i<g.N;i++) if (!checki<nd>(c, g, im, i, "all active")) return;
  // the largest level among the neighbours
  for (int i=0;i<g.N;i++) { Sums<nd> x = sums<nd>(g, im, i, 0); if (g.p(i).levelneib < x.lev) { c.fail("levelneib", "particle %d has a neighbour on level %d but levelneib %d", i, x.lev, g.p(i).levelneib); return; } }
  bool closed[3]; double T[3] = {0,0,0}, TA = 0, E = 0, EA = 0; bool mir = false; for (int k=0;k<nd;k++) { closed[k] = f.bound[k] == PER || f.bound[k] == OPN; if (!closed[k]) mir = true; }
  for (int i=0;i<g.N;i++) { auto& P = g.p(i); for (int k=0;k<nd;k++) { T[k] += P.m*P.a[k]; TA += fabs(P.m*P.a[k]); E += P.m*P.v[k]*P.a[k]; EA += fabs(P.m*P.v[k]*P.a[k]); } E += P.m*P.dudt; EA += fabs(P.m*P.dudt); }
  for (int k=0;k<nd;k++) if (closed[k] && fabs(T[k]) > (f.grav ? 1e-7 : f.tab ? 1e-3 : 1e-12)*TA*g.N) { c.fail("momentum", "forces in direction %d add up to %.3g of %.3g", k, T[k], TA); return; }
  if (f.eos == 0 && !f.grav && fabs(E) > (f.tab ? 1e-3 : 1e-12)*EA*g.N) { c.fail("energy", "kinetic and thermal energy change at a rate of %.3g of %.3g", E, EA); return; }
  if (g.N > 3) c.interesting(); c.state((uint64_t) ((geo*100+vel*10+st)*1000003ull + (uint64_t) (g.p(0).h*1e6)));
}
SCENARIO(sums1, 4, "1D: options x boundaries x arrangements") { run(c, [&] { one<1>(c); }); }
SCENARIO(sums2, 4, "2D: options x boundaries x arrangements") { run(c, [&] { one<2>(c); }); }
SCENARIO(sums3, 4, "3D: options x boundaries x arrangements") { run(c, [&] { one<3>(c); }); }
// any subset of the particles active: theirs are recomputed to the same values, the others keep theirs
template<int nd> void subset(Ctx& c) {
  Cfg f; f.tree = c.choose(3, "tree"); f.leaf = 1+2*c.choose(3, "leaf"); f.avisc = 2; f.grav = nd == 3 ? c.choose(2, "gravity") : 0; int n[3] = {nd == 1 ? 8 : nd == 2 ? 4 : 3, nd == 2 ? 3 : 3, 2}; int bc = c.choose(3, "boundaries"); if (bc) { f.bound[0] = bc == 1 ? MIR : PER; if (bc == 2) { n[0] = 8; f.hfac = nd == 1 ? 1.0 : 0.8; } } if (nd == 3) f.hfac = 0.85; int geo = 1 + c.choose(2, "positions"); int st = c.choose(3, "states");
  if (f.grav && bc) c.prune(); 
  Set<nd> s = lattice<nd>(n, geo, 2, st, f.hfac); int N = s.b.size(); std::vector<int> act(N); int pat = c.choose(nd == 1 ? (1 << 8) : N + 4, "active particles"); if (pat == 0 && nd == 1) c.prune(); if (!c.thorough && nd == 1 && (pat+geo+st+f.leaf/2)%2) c.prune();
  for (int i=0;i<N;i++) act[i] = nd == 1 ? pat>>(i%8)&1 : pat < N ? i == pat : pat == N ? i%2 : pat == N+1 ? i < N/2 : pat == N+2 ? i%3 == 0 : i%3 != 0;
  c.describe(cname(f, nd) + fmt(", %d particles, positions %d states %d, active pattern %d", N, geo, st, pat)); Go<nd> g(f, s, ident(N)); alphas<nd>(g); for (int i=0;i<N;i++) g.p(i).level = 0; for (int i=0;i<N;i++) g.p(i).flags.set(active); g.compute(); if (!g.small()) { c.prune(); return; }
  struct Sv { double v[12]; int lev; }; auto get = [&](int i) { auto& P = g.p(i); Sv x; int m = 0; for (int k=0;k<nd;k++) x.v[m++] = P.a[k]; for (int k=0;k<nd;k++) x.v[m++] = P.atree[k]; x.v[m++] = P.dudt; x.v[m++] = P.div_v; x.v[m++] = P.dalphadt; x.v[m++] = P.rho; x.v[m++] = P.h; x.v[m++] = P.gpot; x.lev = P.levelneib; return x; }; std::vector<Sv> a(N); for (int i=0;i<N;i++) a[i] = get(i);
  for (int i=0;i<N;i++) { if (!act[i]) g.p(i).flags.unset(active); g.p(i).level = act[i] ? 2 : 1; if (!act[i]) g.p(i).levelneib = 0; } g.compute(); auto im = g.images();
  for (int i=0;i<N;i++) { Sv b = get(i); c.step(); bool nb = false; int lv = 0; for (auto& m : im) { double d2 = 0; for (int k=0;k<nd;k++) d2 += (m.r[k]-g.p(i).r[k])*(m.r[k]-g.p(i).r[k]); double R = g.sph->kernp->kernrange*std::max(g.p(i).h, g.p(m.j).h)*(1-1e-9); if (d2 < R*R && !(m.j == i && d2 == 0)) { if (act[m.j]) nb = true; lv = std::max(lv, act[m.j] ? 2 : 1); } }
    for (int k=0;k<2*nd+6;k++) { double sc = fabs(a[i].v[k]); for (int q=0;q<2*nd+6;q++) if (q < nd || (q >= nd && q < 2*nd && k >= nd && k < 2*nd)) sc = std::max(sc, fabs(a[i].v[q])); if (act[i] ? !(fabs(b.v[k]-a[i].v[k]) <= 3e-8*sc+1e-12) : b.v[k] != a[i].v[k]) { c.fail(act[i] ? "active-value" : "inactive-value", "%s particle %d: quantity %d is %.15g with all particles active, now %.15g", act[i] ? "active" : "inactive", i, k, a[i].v[k], b.v[k]); return; } }
    if (!act[i] && nb && b.lev < 2) { c.fail("levelneib", "inactive particle %d has an active neighbour on level 2 but levelneib %d", i, b.lev); return; } if (act[i] && b.lev < lv) { c.fail("levelneib", "active particle %d has a neighbour on level %d but levelneib %d", i, lv, b.lev); return; } }
  c.interesting();
}
SCENARIO(subset1, 4, "1D: every set of active particles") { run(c, [&] { subset<1>(c); }); }
SCENARIO(subset2, 4, "2D: active sets") { run(c, [&] { subset<2>(c); }); }
SCENARIO(subset3, 4, "3D: active sets, hydrodynamics with and without gravity") { run(c, [&] { subset<3>(c); }); }
// other order, other tree: the same values
template<int nd> void same(Ctx& c) {
  Cfg f = variant(c, nd); int n[3]; if (!dims<nd>(c, f, n)) c.prune(); int geo = c.choose(c.thorough ? 8 : 4, "positions"), vel = c.choose(3, "velocities"), st = c.choose(3, "states"), how = c.choose(4, "change"); if (geo == 3 && f.bound[0] == PER) c.prune(); if (!c.thorough && nd > 1 && (geo+vel+st+how)%(nd == 2 ? 2 : 4)) c.prune(); if (f.conv > 1e-9 || f.tab || f.ker == 2 || (f.avisc == 3 && nd == 3)) c.prune();
  Set<nd> s = lattice<nd>(n, geo, vel, st, f.hfac); int N = s.b.size(); std::vector<int> ord = ident(N); Cfg f2 = f; switch (how) { case 0: std::reverse(ord.begin(), ord.end()); break; case 1: for (int i=0;i<N;i++) ord[i] = (i*11+3)%N; break; case 2: f2.tree = (f.tree+1)%3; f2.leaf = 5; break; case 3: f2.tree = (f.tree+2)%3; f2.leaf = 1; std::swap(ord[1], ord[N-1]); break; } { std::vector<char> u(N, 0); for (int x : ord) { if (u[x]) { for (int i=0;i<N;i++) ord[i] = (i*13+3)%N; break; } u[x] = 1; } }
  c.describe(cname(f, nd) + fmt(", %d particles, positions %d velocities %d states %d, change %d", N, geo, vel, st, how)); std::vector<std::array<double,10>> A[2]; for (int r=0;r<2;r++) { Go<nd> g(r ? f2 : f, s, r ? ord : ident(N)); A[r].resize(N); g.S.step(); g.S.step(); for (int i=0;i<N;i++) { auto& P = g.p(i); auto& a = A[r][g.who[i]]; int m = 0; for (int k=0;k<nd;k++) { a[m++] = P.r[k]; a[m++] = P.v[k]; } a[m++] = P.u; a[m++] = P.rho; a[m++] = P.h; a[m++] = P.alpha; if (!(P.u > 0)) { c.prune(); return; } } c.step(); }
  for (int i=0;i<N;i++) for (int k=0;k<2*nd+4;k++) { double d = fabs(A[0][i][k]-A[1][i][k]); if (!(d <= (f.grav ? 1e-7 : 1e-8)*(1+fabs(A[0][i][k])))) { c.fail("same", "particle %d: quantity %d is %.15g in one run and %.15g in the other", i, k, A[0][i][k], A[1][i][k]); return; } } c.interesting();
}
SCENARIO(same1, 4, "1D: two steps with other orders and trees") { run(c, [&] { same<1>(c); }); }
SCENARIO(same2, 4, "2D: two steps with other orders and trees") { run(c, [&] { same<2>(c); }); }
SCENARIO(same3, 4, "3D: two steps with other orders and trees") { run(c, [&] { same<3>(c); }); }
}
int main(int a, char** v) { return mc::main(a, v); }
