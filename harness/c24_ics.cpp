// C24 - initial conditions fill the requested region with the requested matter.
// The real generators and the real Simulation::GenerateIC are run on complete grids of particle numbers, boxes, densities and
// velocities; the random number generator is replaced by one whose draws are enumerated choices (generators) or by a fixed
// low-discrepancy sequence (set-ups).
#include "sim.hpp"
#include "Ic.h"
#include "RandomNumber.h"
#include "InlineFuncs.h"
#include <array>
using namespace mc; typedef long double ld; typedef std::vector<double> V;
struct Draws : RandomNumber {             // every draw is a choice of the explorer
  Ctx& c; const V& g; int n = 0, cap; Draws(Ctx& c_, const V& g_, int cap_) : c(c_), g(g_), cap(cap_) {}
  double next() { if (++n > cap) c.prune(); return g[c.choose(g.size(), "draw")]; }
  int intrand() { return (int)(next()*1000); } long longintrand() { return (long)(next()*1000); } double floatrand() { return next(); } double doublerand() { return next(); } double gaussrand(double m, double s) { return m + s*(next()-0.5); } void PrintRandomNumberRange() {}
};
struct Weyl : RandomNumber {              // fixed sequence, recorded
  double x, a; V seen; Weyl(double s) : x(s), a(0.6180339887498949) {}
  double next() { x += a; x -= floor(x); a += 0.0137; if (a > 0.9) a -= 0.5; seen.push_back(x); return x; }
  int intrand() { return (int)(next()*1e6); } long longintrand() { return (long)(next()*1e6); } double floatrand() { return next(); } double doublerand() { return next(); } double gaussrand(double m, double s) { return m + s*(next()-0.5); } void PrintRandomNumberRange() {}
};
static const char* LAT[] = {"cubic_lattice", "hexagonal_lattice"};

// ---- generators ------------------------------------------------------------------------------------
template<int nd> void distinct(Ctx& c, const V& r, double tol) {
  int N = r.size()/nd; std::vector<std::array<double,3>> p(N); for (int i=0;i<N;i++) { p[i]={0,0,0}; for (int k=0;k<nd;k++) p[i][k]=r[nd*i+k]; }
  std::vector<int> o(N); for (int i=0;i<N;i++) o[i]=i; std::sort(o.begin(), o.end(), [&](int a, int b) { return p[a][0] < p[b][0]; });
  for (int a=0;a<N;a++) for (int b=a+1;b<N && p[o[b]][0]-p[o[a]][0] < tol;b++) { ld d=0; for (int k=0;k<3;k++) d+=powl(p[o[a]][k]-p[o[b]][k],2); c.check(sqrtl(d) > tol, "distinct", "particles %d and %d coincide", o[a], o[b]); }
}
template<int nd> void lattice(Ctx& c) {
  int hex = c.choose(2, "lattice"), norm = hex ? 1 : c.choose(2, "normalise"); int top = c.thorough ? (nd==1?40:nd==2?12:7) : (nd==1?12:nd==2?6:4);
  int n[3]={1,1,1}; for (int k=0;k<nd;k++) n[k] = 1 + c.choose(top, "n"); if (hex) for (int k=1;k<nd;k++) if (n[k]%2) c.prune();      // periodic packing needs an even number of rows and layers
  int bi = c.choose(3, "box"); double lo = bi==0 ? 0 : bi==1 ? -1.25 : 3.0, L0 = bi==0 ? 1 : bi==1 ? 2.5 : 1e-3, f[3] = {1, bi==1?0.6:2.0, bi==2?0.3:1.5};
  DomainBox<nd> b; double L[3]={0,0,0}; double sp = L0/n[0]; double want[3];
  for (int k=0;k<nd;k++) { L[k] = hex ? (k==0 ? n[0]*sp : k==1 ? n[1]*sp*sqrt(3.)/2 : n[2]*sp*sqrt(6.)/3) : norm ? n[k]*sp : (k ? L0*f[k] : L0); want[k] = L[k]/n[k]; b.min[k]=lo+0.1*k*L0; b.max[k]=b.min[k]+L[k]; }
  int N = n[0]*n[1]*n[2]; V r(nd*N+3, -777.0);
  if (hex) Ic<nd>::AddHexagonalLattice(N, n, b, true, r.data()); else Ic<nd>::AddCubicLattice(N, n, b, norm, r.data());
  c.step(N); for (int k=0;k<3;k++) c.check(r[nd*N+k] == -777.0, "overrun", "writes beyond %d particles", N); r.resize(nd*N); if (N > 3) c.interesting();
  for (int i=0;i<N;i++) for (int k=0;k<nd;k++) c.check(r[nd*i+k] > b.min[k]-1e-9*L[k] && r[nd*i+k] < b.max[k]+1e-9*L[k], "inside", "%s %dx%dx%d: particle %d has coordinate %d = %g outside [%g,%g]", LAT[hex], n[0], n[1], n[2], i, k, r[nd*i+k], b.min[k], b.max[k]);
  if (c.failed) return;
  // regular when tiled: every particle sees the same set of neighbour vectors (cubic: exactly +-spacing along each axis)
  if (!hex) { for (int i=0;i<N;i++) for (int k=0;k<nd;k++) { double x = (r[nd*i+k]-b.min[k])/want[k] - 0.5; c.check(fabs(x-floor(x+0.5)) < 1e-8, "regular", "particle %d is off the lattice by %g in dimension %d", i, x-floor(x+0.5), k); } distinct<nd>(c, r, 0.5*std::min(std::min(want[0], nd>1?want[1]:1e9), nd>2?want[2]:1e9)); }
  else { // contact distance and contact number with periodic images: 2 / 6 / 12
    int full = nd==1?2:nd==2?6:12; for (int i=0;i<N;i++) { int cnt=0; for (int j=0;j<N;j++) { int R=2, lim[3]={R,nd>1?R:0,nd>2?R:0}; for (int ix=-lim[0];ix<=lim[0];ix++) for (int iy=-lim[1];iy<=lim[1];iy++) for (int iz=-lim[2];iz<=lim[2];iz++) { if (i==j && !ix && !iy && !iz) continue; ld d=0; int s[3]={ix,iy,iz}; for (int k=0;k<nd;k++) d += powl((ld)r[nd*j+k]-r[nd*i+k]+s[k]*(ld)L[k],2); d=sqrtl(d)/sp; c.check(d > 1-1e-8L, "contact", "particles %d and %d are %Lg spacings apart in the tiled lattice", i, j, d); if (d < 1+1e-8L) cnt++; } }
      c.check(cnt == full, "contact-number", "%dx%dx%d: particle %d touches %d neighbours in the tiled lattice, not %d", n[0], n[1], n[2], i, cnt, full); if (c.failed) return; } }
  c.state(Hash().i(nd).i(hex).i(norm).i(N).i(bi).h);
}
SCENARIO(lattice1, 2, "1D lattices") { lattice<1>(c); }
SCENARIO(lattice2, 3, "2D lattices: every lattice size up to the bound, boxes") { lattice<2>(c); }
SCENARIO(lattice3, 3, "3D lattices") { lattice<3>(c); }

template<int nd> void latsphere(Ctx& c) {
  int hex = c.choose(2, "lattice"), N = 1 + c.choose(c.thorough ? 400 : 90, "N"); double rad = c.pick(V{1.0, 0.02, 7.5}), g = c.pick(V{0.0, 0.31}); double ctr[3] = {0.5*rad*(g>0), -2*rad*(g>0), 0.1*(g>0)};
  V r(nd*N+3, -777.0); Weyl w(g); int n = Ic<nd>::AddLatticeSphere(N, ctr, rad, LAT[hex], r.data(), &w); c.step(N);
  for (int k=0;k<3;k++) c.check(r[nd*N+k] == -777.0, "overrun", "writes beyond %d particles", N);
  if (!c.check(n >= (N < (1<<nd) ? 0 : 1) && n <= N, "sphere-count", "%dD %s sphere of %d: %d reported", nd, LAT[hex], N, n)) return; if (n > 3) c.interesting();
  for (int i=0;i<nd*n;i++) if (!c.check(r[i] != -777.0, "sphere-unset", "value %d is not set", i)) return;
  ld far = 0; for (int i=0;i<n;i++) { ld d=0; for (int k=0;k<nd;k++) d+=powl((ld)r[nd*i+k]-ctr[k],2); far=std::max(far, sqrtl(d)); } c.check(far <= rad*(1+1e-9L), "sphere-inside", "a particle is at %Lg of radius %g", far, rad); c.check(n < 6 || far > (n<30?0.5L:0.7L)*rad, "sphere-filled", "%d particles only fill %Lg of radius %g", n, far, rad);
  V q(r.begin(), r.begin()+nd*n); ld dm=1e99; for (int i=0;i<n;i++) for (int j=0;j<i;j++) { ld d=0; for (int k=0;k<nd;k++) d+=powl((ld)q[nd*i+k]-q[nd*j+k],2); dm=std::min(dm,d); }
  if (n > 1) c.check(dm > 0, "sphere-distinct", "two particles coincide");
  if (n >= (nd==1?2:nd==2?7:13)) { ld mul = hex && nd==3 ? 3 : 1; for (int i=0;i<n;i++) for (int j=0;j<i;j++) { ld d=0; for (int k=0;k<nd;k++) d+=powl((ld)q[nd*i+k]-q[nd*j+k],2); ld x=mul*d/dm; if (!c.check(fabsl(x-floorl(x+0.5L)) < 1e-5L, "sphere-regular", "%dD %s sphere N=%d: squared distance of %d and %d is %Lg of the smallest", nd, LAT[hex], N, i, j, x/mul)) return; }
    // density of the lattice: n particles of the lattice cell volume must fill the sphere
    ld cell = nd==1 ? 1 : nd==2 ? (hex ? sqrtl(3)/2 : 1) : (hex ? sqrtl(0.5L) : 1); ld vol = (nd==1 ? 2 : nd==2 ? M_PIl : 4*M_PIl/3)*powl(rad,nd); ld fill = n*cell*powl(sqrtl(dm),nd)/vol; if (n >= 20) c.check(fill > 0.55L && fill < 1.6L, "sphere-density", "%d lattice cells fill %Lg of the sphere", n, fill); }
  c.check(n == N || n >= N - (nd==1 ? 1 : nd==2 ? 12 + (int)sqrt(N) : 48 + (int)pow(N,0.7)), "sphere-few", "%d of %d requested particles", n, N);
  c.state(Hash().i(nd).i(hex).i(n).d(far).h);
}
SCENARIO(sphere1, 2, "1D lattice spheres: every particle number") { latsphere<1>(c); }
SCENARIO(sphere2, 2, "2D lattice spheres") { latsphere<2>(c); }
SCENARIO(sphere3, 2, "3D lattice spheres") { latsphere<3>(c); }

template<int nd> void rnd(Ctx& c) {
  static const V g{0.0, 0.3, 0.5, 0.999999999}; int N = 1 + c.choose(nd==1 ? 3 : 2, "N"), sph = c.choose(2, "sphere"); Draws d(c, g, nd==3 ? 6 : 5); V r(nd*N+3, -777.0);
  double lo[3]={-1,2,0.5}, hi[3]={3,2.5,10}, ctr[3]={0.3,-4,11}, rad=0.7; DomainBox<nd> b; for (int k=0;k<nd;k++) { b.min[k]=lo[k]; b.max[k]=hi[k]; }
  if (sph) Ic<nd>::AddRandomSphere(N, ctr, rad, r.data(), &d); else Ic<nd>::AddRandomBox(N, b, r.data(), &d);
  c.step(); c.interesting(); for (int k=0;k<3;k++) c.check(r[nd*N+k] == -777.0, "overrun", "writes beyond %d particles", N);
  for (int i=0;i<N;i++) { ld s=0; for (int k=0;k<nd;k++) { double x=r[nd*i+k]; if (!sph) c.check(x >= lo[k] && x <= hi[k], "random-inside", "coordinate %d of particle %d is %g outside the box", k, i, x); else s+=powl((ld)x-ctr[k],2); } if (sph) c.check(sqrtl(s) <= rad*(1+1e-12L), "random-inside", "particle %d at %Lg of radius %g", i, sqrtl(s), rad); }
  if (!sph) { // extreme draws reach the extreme corners: the whole box can be filled
    int q = c.pos; bool zero=true, one=true; for (int i=q-nd*N;i<q;i++) { zero = zero && c.ch[i]==0; one = one && c.ch[i]==3; } for (int k=0;k<nd;k++) { if (zero) c.near("random-corner", "lower corner", r[k], lo[k], 1e-8, 1.0); if (one) c.near("random-corner", "upper corner", r[k], hi[k], 1e-7, 1.0); } }
  c.state(Hash().i(nd).i(sph).d(r[0]).d(r[nd*N-1]).h);
}
SCENARIO(random1, 2, "1D random generators, every sequence of draws") { rnd<1>(c); }
SCENARIO(random2, 3, "2D") { rnd<2>(c); }
SCENARIO(random3, 3, "3D") { rnd<3>(c); }

// ---- set-ups ---------------------------------------------------------------------------------------
template<int nd> struct Gen {
  Parameters P; Simulation<nd>* s; Weyl w; bool threw = false; std::string what;
  Gen(const char* ic, sim::Opts o, double seed = 0.123, const char* type = "sph") : w(seed) {
    sim::boot(); sim::scratch(); P.stringparams["ic"]=ic; P.intparams["ndim"]=nd; P.intparams["dimensionless"]=1; P.intparams["tabulated_kernel"]=0; P.stringparams["run_id"]="IC"; P.intparams["neib_search"]=1;
    for (auto& x : o.s) P.stringparams[x.first]=x.second; for (auto& x : o.i) P.intparams[x.first]=x.second; for (auto& x : o.f) P.floatparams[x.first]=x.second;
    s = static_cast<Simulation<nd>*>(SimulationBase::SimulationFactory(nd, type, &P)); s->ProcessParameters(); s->randnumb=&w;
    try { s->GenerateIC(); } catch (GandalfError& e) { threw = true; what = e.msg; }
  }
  Particle<nd>& p(int i) { return s->hydro->GetParticlePointer(i); } int N() { return s->hydro->Nhydro; }
};
template<int nd> void massinside(Ctx& c, Gen<nd>& g, int a, int b, double mass, const char* what) { ld m=0; for (int i=a;i<b;i++) { m+=g.p(i).m; c.check(g.p(i).m > 0, "mass-positive", "%s: mass of particle %d", what, i); } c.near("total-mass", what, (double)m, mass, 1e-10); }
template<int nd> void dust(Ctx& c, Gen<nd>& g, int n, double d2g, double vd, bool hasv) {
  if (!c.check(g.N() == 2*n, "dust-count", "%d particles for %d gas", g.N(), n)) return;
  for (int i=0;i<n;i++) { c.check(g.p(i).ptype == gas_type && g.p(i+n).ptype == dust_type, "dust-type", "types %d %d", g.p(i).ptype, g.p(i+n).ptype); c.near("dust-mass", "dust mass", g.p(i+n).m, d2g*g.p(i).m, 1e-12); double q=0; for (int k=0;k<nd;k++) q=std::max(q, fabs(g.p(i+n).r[k]-g.p(i).r[k])); c.check(q < 0.02*g.p(i).h, "dust-place", "dust %d is %g from its gas particle", i, q); if (hasv) c.near("dust-velocity", "velocity", g.p(i+n).v[0], vd, 1e-13, 1.0); }
}
static const V OFF{0.0, 0.7}; static const V LS{1.0, 2.0};

template<int nd> void box(Ctx& c) {
  static const char* D[] = {"random","cubic_lattice","hexagonal_lattice"}; static const char* IC[] = {"box","sedov","dustybox","basic"};
  int ic=c.choose(3,"ic"), d=c.choose(3,"dist"), n=c.pick(std::vector<int>{2,4,6}), bi=c.choose(2), wd = ic==2 ? 1 : ic==1 ? c.choose(2,"dust") : 0; double rho=c.pick(V{1.0,0.3}); int ml=c.choose(2); int nn[3]={n,ml?2*n:n,n};
  double sp = (bi?3.0:1.0)/n; double L[3]; sim::Opts o; ld vol=1; int N=1; for (int k=0;k<nd;k++) { L[k] = d==2 ? (k==0?n*sp:k==1?nn[1]*sp*sqrt(3.)/2:nn[2]*sp*sqrt(6.)/3) : nn[k]*sp; vol*=L[k]; N*=nn[k]; o.box(k, bi?-0.5*L[k]:0.0, bi?0.5*L[k]:L[k], "periodic","periodic"); char b[32]; snprintf(b,32,"Nlattice1[%d]",k); o.I(b,nn[k]); }
  o.S("particle_distribution",D[d]).F("rhofluid1",rho).I("Nhydro",d==0 && ic==0 ? 17 : N).F("press1",0.8).F("vfluid1[0]",1.5).F("vfluid2[0]",-0.25).F("dust_mass_factor",0.4).S("dust_forces", wd?"test_particle":"none").S("drag_law","fixed").F("kefrac",0.0);
  int smooth=0; double kef=0; if (ic==1) { smooth=c.choose(2); kef=c.pick(V{0,0.25}); o.I("smooth_ic",smooth).F("kefrac",kef); }
  Gen<nd> g(IC[ic], o); c.step(); c.interesting(); int Nw = d==0 && ic==0 ? 17 : N;
  if (!c.check(!g.threw, "threw", "%s: %s", IC[ic], g.what.c_str())) return;
  if (!wd && !c.check(g.N()==Nw, "count", "%s: %d particles, %d requested", IC[ic], g.N(), Nw)) return;
  if (wd) { dust(c, g, Nw, 0.4, ic==2?-0.25:0, ic==2 || (ic==1 && kef==0)); if (c.failed) return; }
  massinside(c, g, 0, Nw, (double)(ic==0 ? vol : rho*vol), IC[ic]); V r; for (int i=0;i<Nw;i++) for (int k=0;k<nd;k++) r.push_back(g.p(i).r[k]); distinct<nd>(c, r, 1e-6*sp);
  for (int i=0;i<Nw;i++) { Particle<nd>& p=g.p(i); for (int k=0;k<nd;k++) { double lo=bi?-0.5*L[k]:0; c.check(p.r[k] > lo-1e-9 && p.r[k] < lo+L[k]+1e-9, "inside", "%s: particle %d coordinate %d is %g", IC[ic], i, k, p.r[k]); } c.near("equal-mass","mass of one particle",p.m,g.p(0).m,1e-12);
    if (ic==2) { c.near("energy","specific energy",p.u,0.8/rho/(g.P.floatparams["gamma_eos"]-1),1e-12); c.near("velocity","gas velocity",p.v[0],1.5,1e-13); for (int k=1;k<nd;k++) c.near("velocity","gas velocity",p.v[k],0,1e-13,1.0); }
    if (ic==0) for (int k=0;k<nd;k++) c.near("velocity","velocity",p.v[k],0,1e-13,1.0); }
  if (ic==1) { ld e=0, eh=0, ke=0; double rmax=0, rmin=1e9; for (int i=0;i<Nw;i++) { Particle<nd>& p=g.p(i); ld d2=0, v2=0, rv=0; for (int k=0;k<nd;k++) { d2+=p.r[k]*p.r[k]; v2+=p.v[k]*p.v[k]; rv+=p.r[k]*p.v[k]; } double ke1=0.5*p.m*v2; e+=p.m*p.u+ke1; bool hot = fabs(p.m*p.u - 1e-6) > 1e-15; if (hot) { eh+=p.m*p.u+ke1; ke+=ke1; rmax=std::max(rmax,(double)sqrtl(d2)); c.check(kef==0 || fabsl(rv-sqrtl(d2*v2)) < 1e-9, "sedov-radial", "velocity of hot particle %d is not radial", i); } else { rmin=std::min(rmin,(double)sqrtl(d2)); c.near("sedov-cold","cold velocity",(double)v2,0,1e-12,1.0); } }
    if (eh>0) { c.near("sedov-energy","injected energy",(double)eh,1.0,2e-4); c.near("sedov-kinetic","injected kinetic energy",(double)ke,kef,2e-4,1e-6); if (!smooth) c.check(rmax <= rmin+1e-9, "sedov-region", "hot at %g but cold at %g", rmax, rmin); } }
  c.state(Hash().i(nd).i(ic).i(d).i(N).d(rho).i(bi).h);
}
SCENARIO(box1, 3, "box, sedov, dusty box in 1D") { box<1>(c); }
SCENARIO(box2, 3, "2D") { box<2>(c); }
SCENARIO(box3, 3, "3D") { box<3>(c); }

template<int nd> void sphere(Ctx& c) {
  static const char* D[] = {"random","cubic_lattice","hexagonal_lattice"}; static const char* IC[] = {"sphere","noh","evrard","spitzer","bb"};
  int ic=c.choose(nd==3?5:3,"ic"), d=c.choose(3,"dist"), N=c.pick(std::vector<int>{30,57,100}), wd=(ic==2||ic==4)?c.choose(2,"dust"):0; double R=c.pick(V{1.0,0.25,3.0}), M=c.pick(V{1.0,4.0}); double amp=ic==4?c.pick(V{0.0,0.1,0.5}):0.1, av=ic==4?c.pick(V{0.0,1.3}):0;
  sim::Opts o; for (int k=0;k<nd;k++) o.box(k,-10.0,10.0,"open","open"); o.S("particle_distribution",D[d]).I("Nhydro",N).F("radius",R).F("mcloud",M).F("rhofluid1",M).F("press1",0.6).F("thermal_energy",0.05).F("amp",amp).F("angvel",av).F("temp0",1.7).F("mu_bar",2.0).S("dust_forces",wd?"test_particle":"none").S("drag_law","fixed").F("dust_mass_factor",0.4);
  Gen<nd> g(IC[ic], o); c.step(); c.interesting(); if (!c.check(!g.threw, "threw", "%s: %s", IC[ic], g.what.c_str())) return;
  // the same sphere from the generator, with the same draws
  V q(nd*N+1); Weyl w(0.123); double z[3]={0,0,0}; int n=N; if (d) n=Ic<nd>::AddLatticeSphere(N,z,R,D[d],q.data(),&w); else Ic<nd>::AddRandomSphere(N,z,R,q.data(),&w);
  double gam=g.P.floatparams["gamma_eos"]-1, vol=(nd==1?2:nd==2?M_PI:4*M_PI/3)*pow(R,nd); if (wd) { dust(c,g,n,0.4,0,false); if (c.failed) return; } else if (!c.check(g.N()==n, "count", "%s: %d particles, generator gives %d", IC[ic], g.N(), n)) return;
  massinside(c,g,0,n,ic==1?M*vol:M,IC[ic]);
  for (int i=0;i<n;i++) { Particle<nd>& p=g.p(i); ld r2=0,q2=0,rv=0,v2=0; for (int k=0;k<nd;k++) { r2+=(ld)p.r[k]*p.r[k]; q2+=(ld)q[nd*i+k]*q[nd*i+k]; rv+=(ld)p.r[k]*p.v[k]; v2+=(ld)p.v[k]*p.v[k]; } double r=sqrtl(r2), s=sqrtl(q2); c.check(r <= R*(1+1e-9), "inside", "%s: particle %d at %g of radius %g", IC[ic], i, r, R); c.near("equal-mass","mass of one particle",p.m,g.p(0).m,1e-12);
    if (ic==2) c.near("evrard-profile","enclosed mass follows (r/R)^2",pow(r/R,2),pow(s/R,3),1e-5,1e-3); else c.near("radius","radius of a particle",r,s,1e-6,1e-6*R);
    if (ic==0) { c.near("energy","specific energy",p.u,0.6/(M/vol)/gam,1e-12); c.near("velocity","speed",(double)v2,0,1e-14,1.0); }
    if (ic==1) { c.near("energy","specific energy",p.u,0.6/M/gam,1e-12); if (r > 1e-6*R) c.near("noh-velocity","inward unit velocity",(double)(rv/r),-1.0,1e-9); if (r > 1e-6*R) c.near("noh-velocity","speed",(double)v2,1.0,1e-9); }
    if (ic==2) { c.near("energy","specific energy",p.u,0.05*M/R,1e-12); c.near("velocity","speed",(double)v2,0,1e-14,1.0); }
    if (ic==4) { c.near("energy","specific energy",p.u,1.7/gam/2.0,1e-12); c.near("bb-velocity","vx",p.v[0],-av*p.r[1],1e-6,1e-6*R); c.near("bb-velocity","vy",p.v[1],av*p.r[0],1e-6,1e-6*R); c.near("bb-velocity","vz",p.v[nd-1],0,1e-14,1.0); c.near("bb-z","z unchanged",p.r[nd-1],q[nd*i+nd-1],1e-12,R); 
      double Rc=sqrt(q[nd*i]*q[nd*i]+q[nd*i+1]*q[nd*i+1]); if (Rc > 1e-3*R) { double f0=atan2(q[nd*i+1],q[nd*i]), f1=atan2(p.r[1],p.r[0]), e=f1+amp*cos(2*f1)/2-f0; e-=2*M_PI*floor(e/(2*M_PI)+0.5); c.check(fabs(e) < 2e-5, "bb-azimuth", "amp=%g: particle at azimuth %g was moved to %g, which is not the m=2 perturbation (%g)", amp, f0, f1, e); } } }
  c.state(Hash().i(nd).i(ic).i(d).i(n).d(R).d(amp).h);
}
SCENARIO(sph1, 3, "sphere, noh, evrard in 1D") { sphere<1>(c); }
SCENARIO(sph2, 3, "2D") { sphere<2>(c); }
SCENARIO(sph3, 3, "sphere, noh, evrard, spitzer, boss-bodenheimer in 3D") { sphere<3>(c); }

SCENARIO(tubes, 3, "1D shock tubes, contact discontinuities and sound waves") {
  int ic=c.choose(3,"ic"), n1=c.pick(std::vector<int>{1,8,20}), n2=c.pick(std::vector<int>{2,5,16}), iso=c.choose(2), wd=ic!=1?c.choose(2):0; double r1=c.pick(V{1.0,4.0}), r2=c.pick(V{1.0,0.25}), v1=c.pick(V{0,2}), v2=-0.5*v1, p1=0.9, p2=0.2, amp=0; double lo=c.pick(V{-1.0,-3.0}), hi=2.0; static const char* IC[]={"shocktube","cdiscontinuity","soundwave"};
  if (ic==1 && lo!=-1.0) lo=0; if (ic==2) amp=c.pick(V{0,0.05,0.6});
  sim::Opts o; o.box(0,lo,hi,"periodic","periodic").I("Nlattice1[0]",n1).I("Nlattice2[0]",n2).I("Nhydro",n1).F("rhofluid1",r1).F("rhofluid2",r2).F("press1",p1).F("press2",p2).F("vfluid1[0]",v1).F("vfluid2[0]",v2).F("temp0",1.7).F("mu_bar",2.0).F("amp",amp).S("gas_eos",iso?"isothermal":"energy_eqn").S("dust_forces",wd?"test_particle":"none").S("drag_law","fixed").F("dust_mass_factor",0.4);
  Gen<1> g(IC[ic],o); c.step(); c.interesting(); if (!c.check(!g.threw,"threw","%s: %s",IC[ic],g.what.c_str())) return; double gam=g.P.floatparams["gamma_eos"]-1, uiso=1.7/gam/2.0; int n=ic==2?n1:n1+n2;
  if (wd) { dust(c,g,n,0.4,0,false); if (c.failed) return; } else if (!c.check(g.N()==n,"count","%s: %d particles, not %d",IC[ic],g.N(),n)) return;
  if (ic==0) { massinside(c,g,0,n1,r1*(0-lo),"left"); massinside(c,g,n1,n,r2*hi,"right"); for (int i=0;i<n;i++) { bool L=i<n1; c.near("place","position",g.p(i).r[0],L?lo+(i+0.5)*(-lo)/n1:(i-n1+0.5)*hi/n2,1e-12,1.0); c.near("velocity","velocity",g.p(i).v[0],L?v1:v2,1e-13,1.0); c.near("energy","specific energy",g.p(i).u,iso?uiso:(L?p1/r1:p2/r2)/gam,1e-12); c.near("smoothing","first smoothing length",g.p(i).h,1.2*(L?-lo/n1:hi/n2),1e-12); } }
  else if (ic==1) { double b=0.8*hi; massinside(c,g,0,n1,r1*(b-lo),"left"); massinside(c,g,n1,n,r2*(hi-b),"right"); for (int i=0;i<n;i++) { bool L=i<n1; double x=(L?lo+(i+0.5)*(b-lo)/n1:b+(i-n1+0.5)*(hi-b)/n2)-0.4*(hi-lo); if (x<lo) x+=hi-lo; double e=g.p(i).r[0]-x; e-=(hi-lo)*floor(e/(hi-lo)+0.5); c.check(fabs(e)<1e-9,"place","particle %d is %g off",i,e); c.check(g.p(i).r[0]>=lo-1e-12 && g.p(i).r[0]<=hi+1e-12,"inside","particle %d at %g",i,g.p(i).r[0]); c.near("energy","specific energy",g.p(i).u,iso?uiso:(L?p1/r1:p2/r2)/gam,1e-12); c.near("velocity","velocity",g.p(i).v[0],0,1e-13,1.0); } }
  else { double L=hi-lo,k=2*M_PI/L,cs=iso?sqrt(gam*uiso):sqrt((gam+1)*p1/r1); massinside(c,g,0,n,r1*L,"wave"); ld pm=0; auto F=[&](ld x) { return r1*(x-amp/k*cosl(k*x)); }; std::vector<double> x; for (int i=0;i<n;i++) { x.push_back(g.p(i).r[0]); c.check(x[i]>=lo-1e-12 && x[i]<=hi+1e-12,"inside","particle %d at %g",i,x[i]); c.near("wave-velocity","velocity",g.p(i).v[0],cs*amp*sin(k*x[i]),1e-9,1e-9); c.near("energy","specific energy",g.p(i).u,iso?uiso:p1/r1/gam,1e-12); }
    std::sort(x.begin(),x.end()); for (int i=0;i<n;i++) { ld a=x[i], b=i+1<n?x[i+1]:x[0]+L; c.near("wave-density","mass between neighbours",(double)(F(b)-F(a)),r1*L/n,1e-8); } (void)pm; }
  c.state(Hash().i(ic).i(n).d(r1).d(r2).d(v1).d(amp).i(iso).h);
}

SCENARIO(planes, 3, "2D set-ups: Kelvin-Helmholtz, Rayleigh-Taylor, Gresho, shear flow, 2D shock") {
  int ic=c.choose(5,"ic"), n=c.pick(std::vector<int>{4,6,8}), m=c.pick(std::vector<int>{4,8}); double Ly=c.pick(V{1.0,2.0}), r1=c.pick(V{1.0,0.5}), r2=2.0; double lo=-0.5, loy=ic==1||ic==4?0.0:-0.5*Ly; if (ic==4) { lo=0; if (m != n*Ly) c.prune(); } static const char* IC[]={"khi","rti","gresho","shearflow","shock2d"};
  sim::Opts o; o.box(0,lo,lo+1,"periodic","periodic"); o.box(1,loy,loy+Ly,ic==1?"mirror":"periodic",ic==1?"mirror":"periodic"); o.I("Nlattice1[0]",n).I("Nlattice1[1]",m).I("Nlattice2[0]",n+2).I("Nlattice2[1]",m+2).F("rhofluid1",r1).F("rhofluid2",r2).F("press1",0.9).F("press2",0.7).F("vfluid1[0]",0.5).F("vfluid2[0]",-0.75).F("amp",0.1).F("lambda",0.5).S("particle_distribution","cubic_lattice").I("use_fixed_spacing",1);
  Gen<2> g(IC[ic],o); c.step(); c.interesting(); if (!c.check(!g.threw,"threw","%s: %s",IC[ic],g.what.c_str())) return; double gam=g.P.floatparams["gamma_eos"]-1; int n1=n*m,n2=(n+2)*(m+2);
  V r; for (int i=0;i<g.N();i++) { for (int k=0;k<2;k++) r.push_back(g.p(i).r[k]); c.check(fabs(g.p(i).r[0]-lo-0.5)<=0.5+1e-9 && g.p(i).r[1]>=loy-1e-9 && g.p(i).r[1]<=loy+Ly+1e-9,"inside","%s: particle %d at %g %g",IC[ic],i,g.p(i).r[0],g.p(i).r[1]); } distinct<2>(c,r,1e-6);
  if (ic==0) { if (!c.check(g.N()==n1+n2,"count","khi: %d",g.N())) return; massinside(c,g,0,n1,r1*0.5*Ly,"first fluid"); massinside(c,g,n1,n1+n2,r2*0.5*Ly,"second fluid"); double sg=0.05/sqrt(2.); for (int i=0;i<g.N();i++) { bool A=i<n1; double y=g.p(i).r[1]; bool in=fabs(y)<0.25*Ly; c.check(in != A,"khi-layer","particle %d of fluid %d is at y=%g",i,A?1:2,y); c.near("velocity","vx",g.p(i).v[0],A?0.5:-0.75,1e-13); c.near("energy","energy",g.p(i).u,(A?0.9/r1:0.7/r2)/gam,1e-12); c.near("khi-seed","vy",g.p(i).v[1],0.1*sin(2*M_PI*g.p(i).r[0]/0.5)*(exp(-pow((y+0.25)/sg,2)/2)+exp(-pow((y-0.25)/sg,2)/2)),1e-9,1e-6); } }
  if (ic==1) { if (!c.check(g.N()==n1+n2,"count","rti: %d",g.N())) return; for (int i=0;i<g.N();i++) { double y=g.p(i).r[1], vol=0.5*Ly/(i<n1?n1:n2); c.near("rti-mass","mass",g.p(i).m,vol*(r1+(r2-r1)/(1+exp(-(y-0.5)/0.025))),1e-9); c.check((y<0.5*Ly)==(i<n1),"rti-layer","particle %d at %g",i,y); c.near("rti-seed","vy",g.p(i).v[1],y>=0.3&&y<=0.7?0.1*(1+cos(8*M_PI*(g.p(i).r[0]+0.25)))*(1+cos(5*M_PI*(y-0.5))):0,1e-9,1e-6); } }
  if (ic==2) { if (!c.check(g.N()==n1,"count","gresho: %d",g.N())) return; massinside(c,g,0,n1,Ly,"gresho"); for (int i=0;i<n1;i++) { double x=g.p(i).r[0],y=g.p(i).r[1],R=sqrt(x*x+y*y),vp=R<0.2?5*R:R<0.4?2-5*R:0,p=R<0.2?5+12.5*R*R:R<0.4?9+12.5*R*R-20*R+4*log(R/0.2):3+4*log(2.); if (fabs(R-0.2)<1e-6||fabs(R-0.4)<1e-6) continue; c.near("gresho-v","vx",g.p(i).v[0],-vp*y/R,1e-9,1e-9); c.near("gresho-v","vy",g.p(i).v[1],vp*x/R,1e-9,1e-9); c.near("gresho-p","pressure",g.p(i).u*gam,p,1e-9); } }
  if (ic==3) { if (!c.check(g.N()==n1,"count","shearflow: %d",g.N())) return; massinside(c,g,0,n1,r1*Ly,"shear"); for (int i=0;i<n1;i++) { c.near("shear-v","vx",g.p(i).v[0],0.1*sin(2*M_PI/Ly*g.p(i).r[1]),1e-9,1e-9); c.near("shear-v","vy",g.p(i).v[1],0,1e-13,1.0); c.near("energy","energy",g.p(i).u,0.9/r1/gam,1e-12); } }
  if (ic==4) { ld m0=0,m1=0; for (int i=0;i<g.N();i++) (g.p(i).u > 1.06/gam ? m1 : m0) += g.p(i).m; c.near("shock2d-mass","dense fluid",(double)m0,0.875*Ly,1e-9); c.near("shock2d-mass","light fluid",(double)m1,0.125*0.125*Ly,1e-9); }
  c.state(Hash().i(ic).i(n).i(m).d(Ly).d(r1).h);
}

SCENARIO(cubes, 2, "3D set-ups: self-gravitating waves and slabs, shear flow, Plummer spheres, blob") {
  int ic=c.choose(5,"ic"), n=c.pick(std::vector<int>{4,6}); double L=c.pick(V{1.0,2.5}), r1=c.pick(V{1.0,0.3}), amp=c.pick(V{0.0,0.1,0.5}); static const char* IC[]={"ewaldsine","ewaldsine2","shearflow","plummer","blob"};
  int nn[3]={n,n+2,n-2}; double hl[3]={0.5*L,0.5*L*1.5,0.5*L*0.8}; if (ic==4) { nn[1]=nn[2]=n; hl[1]=hl[2]=hl[0]; } sim::Opts o; for (int k=0;k<3;k++) { o.box(k,-hl[k],hl[k],ic==3?"open":"periodic",ic==3?"open":"periodic"); char b[32]; snprintf(b,32,"Nlattice1[%d]",k); o.I(b,nn[k]); }
  o.F("rhofluid1",r1).F("rhofluid2",2.0).F("amp",amp).F("press1",0.9).S("particle_distribution","cubic_lattice").I("Nhydro",n*n).I("Nstar",n+3).F("gasfrac",amp>0?1.0:0.0).F("starfrac",1.0).F("mplummer",r1).F("rplummer",L).F("radius",ic==4?0.3*L:8*L).F("rstar",0.01).F("mach",2.7); if (ic==3 && amp==0) o.I("Nhydro",0);
  Gen<3> g(IC[ic],o); c.step(); c.interesting(); if (!c.check(!g.threw,"threw","%s: %s",IC[ic],g.what.c_str())) return; int N=nn[0]*nn[1]*nn[2]; double vol=8*hl[0]*hl[1]*hl[2], gam=g.P.floatparams["gamma_eos"]-1;
  if (ic<3) { if (!c.check(g.N()==N,"count","%s: %d particles, not %d",IC[ic],g.N(),N)) return; massinside(c,g,0,N,r1*vol,IC[ic]); V r; for (int i=0;i<N;i++) for (int k=0;k<3;k++) { r.push_back(g.p(i).r[k]); c.check(fabs(g.p(i).r[k])<=hl[k]+1e-9,"inside","%s: particle %d coordinate %d is %g",IC[ic],i,k,g.p(i).r[k]); } distinct<3>(c,r,1e-6); double kx=2*M_PI/L;
    std::map<long,std::vector<double>> rows; for (int i=0;i<N;i++) { for (int k=1;k<3;k++) { double x=(g.p(i).r[k]+hl[k])/(2*hl[k])*nn[k]-0.5; c.check(fabs(x-floor(x+0.5))<1e-8,"lattice","particle %d is off the lattice",i); } long key=lround(1e6*g.p(i).r[1])*100000007L+lround(1e6*g.p(i).r[2]); rows[key].push_back(g.p(i).r[0]); c.near("energy","energy",g.p(i).u,0.9/r1/gam,1e-12); for (int k=0;k<3;k++) c.near("velocity","velocity",g.p(i).v[k],ic==2&&k==0?amp*sin(2*M_PI/(2*hl[1])*g.p(i).r[1]):0,1e-9,1e-9); if (ic==1) c.near("density","mass",g.p(i).m,r1*vol/N*(1+amp*sin(kx*g.p(i).r[0])),1e-10); }
    c.check((int)rows.size()==nn[1]*nn[2],"rows","%zu rows",rows.size()); if (ic==0) for (auto& q : rows) { auto& x=q.second; std::sort(x.begin(),x.end()); auto F=[&](double a) { return r1*(a-amp/kx*cos(kx*a)); }; for (size_t i=0;i<x.size();i++) { double a=x[i],b=i+1<x.size()?x[i+1]:x[0]+L; c.near("wave-density","mass between neighbours",F(b)-F(a),r1*L/n,1e-8); } } }
  if (ic==3) { int Nh=amp>0?n*n:0,Ns=n+3; if (!c.check(g.N()==Nh && g.s->nbody->Nstar==Ns,"count","plummer: %d gas %d stars",g.N(),g.s->nbody->Nstar)) return; ld mg=0,ms=0; for (int i=0;i<Nh;i++) mg+=g.p(i).m; for (int i=0;i<Ns;i++) { StarParticle<3>& s=g.s->nbody->stardata[i]; ms+=s.m; ld r=0,v=0; for (int k=0;k<3;k++) { r+=s.r[k]*s.r[k]; v+=s.v[k]*s.v[k]; } c.check(r<=64*L*L*(1+1e-9),"inside","star %d at %Lg",i,sqrtl(r)); c.check(v/2 <= r1/sqrtl(r+L*L)*(1+1e-9),"plummer-bound","star %d is not bound",i); } for (int i=0;i<Nh;i++) { ld r=0; for (int k=0;k<3;k++) r+=g.p(i).r[k]*g.p(i).r[k]; c.check(r<=64*L*L*(1+1e-9),"inside","gas %d",i); c.near("plummer-u","gas energy balances the potential",g.p(i).u*gam,(double)(r1/6/sqrtl(r+L*L)),1e-9); } c.near("total-mass","gas",(double)mg,Nh?0.5*r1:0,1e-10); c.near("total-mass","stars",(double)ms,Nh?0.5*r1:r1,1e-10); }
  if (ic==4) { double R=0.3*L, vs=4*M_PI/3*R*R*R; ld mb=0,msp=0; int nb=0; for (int i=0;i<g.N();i++) { double d=0; for (int k=0;k<3;k++) d+=g.p(i).r[k]*g.p(i).r[k]; d=sqrt(d); bool in=d<=R*(1+1e-9); (in?msp:mb)+=g.p(i).m; if (!in) nb++; c.near("blob-u","energy",g.p(i).u,0.9/(in?2.0:r1)/gam,1e-12); if (!in) c.near("blob-v","wind",g.p(i).v[0],2.7*sqrt((gam+1)*0.9/r1),1e-12); else c.near("blob-v","blob at rest",g.p(i).v[0],0,1e-13,1.0); } c.near("total-mass","wind",(double)mb,r1*(vol-vs),1e-10); double mp=r1*(vol-vs)/nb; int want=(int)(2.0*vs/mp); c.check(msp<=2.0*vs*(1+1e-9) && msp>=std::max(0.0,want-48-pow(want,0.7))*mp,"blob-mass","blob has mass %Lg for %g",msp,2.0*vs); }
  c.state(Hash().i(ic).i(n).d(L).d(r1).d(amp).h);
}

// ---- binaries --------------------------------------------------------------------------------------
static void elements(Ctx& c, const double* r1, const double* v1, double m1, const double* r2, const double* v2, double m2, double a, double e, double Mw, double ph, double th, double ps, const char* w) {
  ld x[3],u[3],d=0,v=0,xu=0,M=m1+m2; for (int k=0;k<3;k++) { x[k]=(ld)r1[k]-r2[k]; u[k]=(ld)v1[k]-v2[k]; d+=x[k]*x[k]; v+=u[k]*u[k]; xu+=x[k]*u[k]; } d=sqrtl(d);
  ld E=v/2-M/d, L[3], ev[3], l=0, ee=0; for (int k=0;k<3;k++) L[k]=x[(k+1)%3]*u[(k+2)%3]-x[(k+2)%3]*u[(k+1)%3]; for (int k=0;k<3;k++) { ev[k]=(u[(k+1)%3]*L[(k+2)%3]-u[(k+2)%3]*L[(k+1)%3])/M-x[k]/d; l+=L[k]*L[k]; ee+=ev[k]*ev[k]; } l=sqrtl(l); ee=sqrtl(ee);
  c.near("binary-sma",w,(double)(-M/(2*E)),a,3e-6/(1-e)); c.near("binary-ecc",w,(double)ee,e,2e-6,1.0); c.near("binary-angmom",w,(double)l,sqrt((double)M*a*(1-e*e)),2e-6);
  ld A[3][3]; EulerAngleMatrix<ld>(ph,th,ps,A); ld R[3][3]; // independent: product of the three elementary rotations
  ld Rx[3][3]={{1,0,0},{0,cosl(ph),sinl(ph)},{0,-sinl(ph),cosl(ph)}},Ry[3][3]={{cosl(th),0,-sinl(th)},{0,1,0},{sinl(th),0,cosl(th)}},Rz[3][3]={{cosl(ps),sinl(ps),0},{-sinl(ps),cosl(ps),0},{0,0,1}},T[3][3]; for (int i=0;i<3;i++) for (int j=0;j<3;j++) { T[i][j]=0; for (int k=0;k<3;k++) T[i][j]+=Ry[i][k]*Rx[k][j]; } for (int i=0;i<3;i++) for (int j=0;j<3;j++) { R[i][j]=0; for (int k=0;k<3;k++) R[i][j]+=Rz[i][k]*T[k][j]; }
  for (int k=0;k<3;k++) { c.near("binary-plane",w,(double)(L[k]/l),(double)R[k][2],1e-6,1.0); if (e>0.01) c.near("binary-pericentre",w,(double)(ev[k]/ee),(double)R[k][0],2e-5/e,1.0); }
  ld ca=d/a, cosE=e>0.01?(1-ca)/e:0; if (e>0.01) { ld Ea=acosl(std::max(-1.0L,std::min(1.0L,cosE))); if (xu<0) Ea=2*M_PIl-Ea; ld Mm=Ea-e*sinl(Ea), q=Mm-Mw; q-=2*M_PIl*floorl(q/(2*M_PIl)+0.5L); c.check(fabsl(q)<1e-4L,"binary-phase","%s: mean anomaly %Lg, drawn %g",w,Mm,Mw); }
  else { ld f=atan2l(R[0][1]*x[0]+R[1][1]*x[1]+R[2][1]*x[2],R[0][0]*x[0]+R[1][0]*x[1]+R[2][0]*x[2]), q=f-Mw; q-=2*M_PIl*floorl(q/(2*M_PIl)+0.5L); c.check(fabsl(q)<1e-5L,"binary-phase","%s: angle %Lg, drawn %g",w,f,Mw); }
}
SCENARIO(binaries, 3, "binary, triple and quadruple stars: every orbital element, phase and orientation") {
  int ic=c.choose(3,"ic"); double a=c.pick(V{1.0,0.1}), e=c.pick(V{0.0,0.3,0.8}), q=c.pick(V{1.0,0.2}), ph=c.pick(V{0,0.6}), th=c.pick(V{0,1.1}), ps=c.pick(V{0,2.0}), seed=c.pick(V{0.0,0.2,0.35,0.61,0.83}); static const char* IC[]={"binary","triple","quadruple"};
  sim::Opts o; o.F("abin",a).F("ebin",e).F("abin2",a*0.02).F("ebin2",0.5*e).F("m1",1.0).F("m2",q).F("m3",0.4).F("m4",0.3*q).F("phirot",ph).F("thetarot",th).F("psirot",ps).S("nbody","hermite4").I("Nstar",ic+2);
  Gen<3> g(IC[ic],o,seed,"nbody"); c.step(); c.interesting(); if (!c.check(!g.threw,"threw","%s",g.what.c_str())) return; Nbody<3>& nb=*g.s->nbody; if (!c.check(nb.Nstar==ic+2,"count","%d stars",nb.Nstar)) return; StarParticle<3>* s=nb.stardata; V d; for (double x : g.w.seen) d.push_back(2*M_PI*x); if (!c.check((int)d.size()==ic+1,"draws","%zu phases drawn",d.size())) return;
  ld M=0,R[3]={0,0,0},W[3]={0,0,0}; double want[4]={1.0,q,0.4,0.3*q}; for (int i=0;i<nb.Nstar;i++) { c.near("binary-mass","star mass",s[i].m,want[i],1e-13); M+=s[i].m; for (int k=0;k<3;k++) { R[k]+=(ld)s[i].m*s[i].r[k]; W[k]+=(ld)s[i].m*s[i].v[k]; } } for (int k=0;k<3;k++) { c.near("binary-com","centre of mass",(double)R[k],0,1e-12,1.0); c.near("binary-com","momentum",(double)W[k],0,1e-12,10.0); }
  auto com=[&](int i,int j,double* r,double* v) { double m=s[i].m+s[j].m; for (int k=0;k<3;k++) { r[k]=(s[i].m*s[i].r[k]+s[j].m*s[j].r[k])/m; v[k]=(s[i].m*s[i].v[k]+s[j].m*s[j].v[k])/m; } return m; };
  if (ic==0) elements(c,s[0].r,s[0].v,s[0].m,s[1].r,s[1].v,s[1].m,a,e,d[0],ph,th,ps,"binary");
  else { double r[3],v[3],m=com(0,1,r,v); elements(c,s[0].r,s[0].v,s[0].m,s[1].r,s[1].v,s[1].m,a*0.02,0.5*e,d[1],ph,th,ps,"inner"); if (ic==1) elements(c,r,v,m,s[2].r,s[2].v,s[2].m,a,e,d[0],ph,th,ps,"outer"); else { double r2[3],v2[3],m2=com(2,3,r2,v2); elements(c,s[2].r,s[2].v,s[2].m,s[3].r,s[3].v,s[3].m,a*0.02,0.5*e,d[2],ph,th,ps,"second inner"); elements(c,r,v,m,r2,v2,m2,a,e,d[0],ph,th,ps,"outer"); } }
  c.state(Hash().i(ic).d(a).d(e).d(seed).d(ph).d(th).d(ps).h);
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
