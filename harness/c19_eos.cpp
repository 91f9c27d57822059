// C19 - equations of state.  Exhaustive over EOS kind x dimension x parameters x density x energy grid on the real
// EOS classes; every thermodynamic relation is evaluated on every combination.
// NEEDS: SimUnits Parameters Exception IsothermalEOS AdiabaticEOS PolytropicEOS BarotropicEOS Barotropic2EOS LocallyIsothermal DiscLocallyIsothermal MCRadiationEOS IonisingRadiationEOS RadwsEOS OpacityTable
#include <exception>
#include <stdexcept>
#include "Exception.h"
#include "mc.hpp"
#include "SimUnits.h"
#include "Parameters.h"
#include "EOS.h"
#include "OpacityTable.h"
#include "Nbody.h"
using namespace mc;
namespace {
void boot() { static bool b = false; if (!b) { ExceptionHandler::makeExceptionHandler(python); b = true; } }
const double MSUN=1.98892e30, AU=1.4959787e11, G=6.67384e-11, KB=1.3806503e-23, MH=1.66054e-27;

struct Setup { Parameters P; SimUnits U; double tscale = 1, rcgs = 1, ucgs = 1, kcgs = 1; };
void setup(Setup& s, bool phys) {
  s.P.intparams["dimensionless"] = phys ? 0 : 1;
  if (phys) {
    auto& sp = s.P.stringparams;
    sp["routunit"]="au"; sp["moutunit"]="m_sun"; sp["kappaoutunit"]="cm2_g"; sp["rhooutunit"]="g_cm3"; sp["uoutunit"]="J_kg"; sp["tempoutunit"]="K";
    double t2 = AU*AU*AU/(G*MSUN), v2 = AU*AU/t2;
    s.tscale = MH*v2/KB; s.rcgs = 1e-3*MSUN/(AU*AU*AU); s.ucgs = 1e4*v2; s.kcgs = 10*AU*AU/MSUN;
  }
  s.U.SetupUnits(&s.P);
}
const double TOL = 1e-10;

template<int nd> void common(Ctx& c, const char* who, EOS<nd>& e, EosParticleProxy<nd> p, double gam, double cs2fac, double mu) {
  std::string w = who;
  p.u = e.SpecificInternalEnergy(p);
  double u = p.u, P = e.Pressure(p), T = e.Temperature(p), cs = e.SoundSpeed(p), S = e.EntropicFunction(p);
  c.step(6);
  c.check(std::isfinite(u) && u > 0, "positive", "%s: internal energy %g for rho=%g", who, u, p.rho);
  c.check(std::isfinite(P) && P > 0, "positive", "%s: pressure %g for rho=%g u=%g", who, P, p.rho, u);
  c.check(std::isfinite(T) && T > 0, "positive", "%s: temperature %g for rho=%g u=%g", who, T, p.rho, u);
  c.check(std::isfinite(cs) && cs > 0, "positive", "%s: sound speed %g for rho=%g u=%g", who, cs, p.rho, u);
  c.check(std::isfinite(S) && S > 0, "positive", "%s: entropic function %g for rho=%g u=%g", who, S, p.rho, u);
  std::string k = w + ":pressure"; c.near(k.c_str(), (k+" = (gamma-1) rho u").c_str(), P, (gam-1)*p.rho*u, TOL);
  k = w + ":soundspeed"; c.near(k.c_str(), (k+"^2").c_str(), cs*cs, cs2fac*P/p.rho, TOL);
  k = w + ":entropy"; c.near(k.c_str(), (k+" = P/rho^gamma").c_str(), S, (gam-1)*u*std::pow((double)p.rho, 1-gam), 1e-9);
  k = w + ":temperature"; c.near(k.c_str(), (k+" = mu P/rho").c_str(), T, mu*P/p.rho, TOL);
  p.p = P;
  k = w + ":inverse"; c.near(k.c_str(), (k+": energy from pressure").c_str(), e.InternalEnergyFromPressure(p), u, TOL);
  k = w + ":idempotent"; c.near(k.c_str(), k.c_str(), e.SpecificInternalEnergy(p), u, TOL);
  StateVector<nd> sv; e.ConstructStateVector(p, sv);
  k = w + ":state"; double E = p.rho*u;
  for (int d=0; d<nd; d++) { E += 0.5*p.rho*p.v[d]*p.v[d]; c.near(k.c_str(), "momentum", sv.Ucons.momentum[d], p.rho*p.v[d], TOL); c.near(k.c_str(), "velocity", sv.Wprim.velocity[d], p.v[d], 0); }
  c.near(k.c_str(), "density", sv.Wprim.density, p.rho, 0); c.near(k.c_str(), "cons. density", sv.Ucons.density, p.rho, 0);
  c.near(k.c_str(), "pressure", sv.Wprim.pressure, P, 0); c.near(k.c_str(), "energy density", sv.Ucons.energy, E, TOL); c.near(k.c_str(), "sound speed", sv.sound_speed, cs, TOL);
  c.state(Hash().s(w).d(u).d(P).d(T).d(cs).h);
}
template<int nd> EosParticleProxy<nd> proxy(double rho, double u) { EosParticleProxy<nd> p; p.rho = rho; p.u = u; for (int d=0; d<nd; d++) { p.r[d] = 0.3+0.1*d; p.v[d] = 0.7 - 1.1*d; } return p; }

template<int nd> void simple(Ctx& c) {
  boot();
  static const std::vector<double> gams = {1.1, 1.4, 5./3., 2.0, 3.0}, mus = {1.0, 0.6, 2.35}, t0s = {1.0, 10.0, 1e4};
  int kind = c.choose(5, "kind"); bool phys = c.flip("physical units");
  double gam = c.pick(gams, "gamma"), mu = c.pick(mus, "mu"), T0 = c.pick(t0s, "temp0"); 
  Setup s; setup(s, phys);
  double rb = phys ? 1e-14 : 100.0;
  s.P.floatparams["gamma_eos"] = gam; s.P.floatparams["mu_bar"] = mu; s.P.floatparams["temp0"] = T0; s.P.floatparams["rho_bary"] = rb;
  double eta = kind==4 ? c.pick(std::vector<double>{1.05, 1.4, 2.0, 3.0}, "eta") : 1.4; s.P.floatparams["eta_eos"] = eta;
  double K = kind==4 ? c.pick(std::vector<double>{0.02, 1.0, 37.0}, "K") : 1; s.P.floatparams["Kpoly"] = K;
  double T = T0/s.tscale, rho0 = rb/s.rcgs;
  std::vector<double> xs = {1e-8, 1e-3, 0.1, 0.5, 1-1e-9, 1.0, 1+1e-9, 2.0, 30.0, 1e4, 1e9};
  int ix = c.choose((int)xs.size(), "density"); double rho = rho0*xs[ix];
  c.interesting();
  if (kind == 0) { Isothermal<nd> e(&s.P, &s.U); auto p = proxy<nd>(rho, 3.);
    common<nd>(c, "isothermal", e, p, gam, 1.0, mu);
    c.near("isothermal:temperature", "isothermal temperature is temp0", e.Temperature(p), T, TOL); c.near("isothermal:energy", "u", e.SpecificInternalEnergy(p), T/(gam-1)/mu, TOL); }
  else if (kind == 1) { Adiabatic<nd> e(&s.P, &s.U);
    for (double u : {1e-10, 1e-3, 1.0, 4.2, 1e5}) { auto p = proxy<nd>(rho, u); common<nd>(c, "adiabatic", e, p, gam, gam, mu);
      c.near("adiabatic:energy", "adiabatic internal energy is the particle's", e.SpecificInternalEnergy(p), u, 0); } }
  else if (kind == 2 || kind == 3) {
    EOS<nd>* e = kind==2 ? (EOS<nd>*) new Barotropic<nd>(&s.P, &s.U) : (EOS<nd>*) new Barotropic2<nd>(&s.P, &s.U);
    const char* n = kind==2 ? "barotropic" : "barotropic2";
    auto p = proxy<nd>(rho, 3.);
    common<nd>(c, n, *e, p, gam, 1.0, mu);
    double x = rho/rho0, Tx = kind==2 ? T*(1+std::pow(x, gam-1)) : (x < 1 ? T : T*std::pow(x, gam-1));
    std::string k = std::string(n) + ":definition";
    c.near(k.c_str(), "temperature", e->Temperature(p), Tx, 1e-8);
    // limits
    auto lo = proxy<nd>(rho0*1e-60, 3.), hi = proxy<nd>(rho0*1e40, 3.), hi2 = proxy<nd>(rho0*2e40, 3.);
    k = std::string(n) + ":limit";
    c.near(k.c_str(), "isothermal limit", e->Temperature(lo), T, 2e-6);
    c.near(k.c_str(), "adiabatic limit", std::log(e->Temperature(hi2)/e->Temperature(hi))/std::log(2.), gam-1, 1e-3);
    // continuity and monotonicity at the local density
    auto a = proxy<nd>(rho*(1-1e-9), 3.), b = proxy<nd>(rho*(1+1e-9), 3.);
    k = std::string(n) + ":continuous";
    c.near(k.c_str(), "temperature across a density step of 2e-9", e->Temperature(a), e->Temperature(b), 1e-7);
    c.near(k.c_str(), "energy across a density step of 2e-9", e->SpecificInternalEnergy(a), e->SpecificInternalEnergy(b), 1e-7);
    auto d = proxy<nd>(rho*3, 3.);
    c.check(e->Temperature(d) >= e->Temperature(p)*(1-1e-12), k.c_str(), "temperature falls with density");
    delete e; }
  else { Polytropic<nd> e(&s.P, &s.U); double r = xs[ix];       // dimensionless density
    auto p = proxy<nd>(r, 3.); common<nd>(c, "polytropic", e, p, eta, 1.0, 1.0);
    c.near("polytropic:definition", "P = K rho^eta", e.Pressure(p), K*std::pow(r, eta), 1e-9);
    c.near("polytropic:definition", "u = K rho^(eta-1)/(eta-1)", e.SpecificInternalEnergy(p), K*std::pow(r, eta-1)/(eta-1), 1e-9); }
}
SCENARIO(gas1, 3, "isothermal/adiabatic/barotropic/barotropic2/polytropic x units x gamma x mu x temp0 x density (1d)") { simple<1>(c); }
SCENARIO(gas2, 3, "same, 2d") { simple<2>(c); }
SCENARIO(gas3, 3, "same, 3d") { simple<3>(c); }

template<int nd> Nbody<nd>* mocknbody(std::vector<StarParticle<nd>>& st) {
  static char* mem = (char*)calloc(1, sizeof(Nbody<nd>)); Nbody<nd>* n = (Nbody<nd>*)mem; n->stardata = st.data(); n->Nstar = st.size(); return n; }

template<int nd> void local(Ctx& c) {
  boot(); Setup s; bool phys = c.flip("physical"); setup(s, phys);
  double gam = c.pick(std::vector<double>{1.4, 5./3.}), mu = c.pick(std::vector<double>{1., 2.35});
  double T0 = c.pick(std::vector<double>{1., 280.}), q = c.pick(std::vector<double>{0.5, 0.75, 1.0, 0.0}), Tmin = c.pick(std::vector<double>{1e-3, 50.});
  s.P.floatparams["gamma_eos"]=gam; s.P.floatparams["mu_bar"]=mu; s.P.floatparams["temp0"]=T0; s.P.floatparams["templaw"]=q; s.P.floatparams["tempmin"]=Tmin;
  static const double pos[4][3] = {{0,0,0},{5,0.5,-1},{-3,4,2},{0.25,-0.125,7}};
  int mask = 1 + c.choose(15, "stars"); 
  std::vector<StarParticle<nd>> st; for (int i=0; i<4; i++) if (mask>>i&1) { StarParticle<nd> x; for (int d=0; d<nd; d++) x.r[d] = pos[i][d]; st.push_back(x); }
  static const double pp[6][3] = {{0.1,0,0},{1,1,1},{-2.9,4.1,2},{40,-3,2},{0.3,0.2,6.5},{2.4,0.4,-0.3}};
  int ip = c.choose(6, "position");
  LocallyIsothermal<nd> e(&s.P, &s.U); e.set_nbody_data(mocknbody<nd>(st));
  auto p = proxy<nd>(0.7, 1.); double best = 1e300; for (int d=0; d<nd; d++) p.r[d] = pp[ip][d];
  for (auto& x : st) { double d2 = 0; for (int d=0; d<nd; d++) d2 += (p.r[d]-x.r[d])*(p.r[d]-x.r[d]); best = std::min(best, d2); }
  double T = std::max(T0/s.tscale*std::pow(std::sqrt(best), -q), Tmin/s.tscale);
  c.interesting();
  c.near("locally_isothermal:definition", "temperature at the distance of the nearest star", e.Temperature(p), T, TOL);
  common<nd>(c, "locally_isothermal", e, p, gam, 1.0, mu);
  double R = 0.25; s.P.floatparams["DiscIcQ"]=q; s.P.floatparams["DiscIcHr"]=0.05; s.P.floatparams["DiscIcRin"]=R;
  DiscLocallyIsothermal<nd> D(&s.P, &s.U); D.set_nbody_data(mocknbody<nd>(st));
  double d2 = 0; for (int d=0; d<nd; d++) d2 += (p.r[d]-st[0].r[d])*(p.r[d]-st[0].r[d]);
  double cs = 0.05*std::sqrt(1/R)*std::pow(std::sqrt(d2)/R, -q);
  c.near("disc_locally_isothermal:definition", "sound speed", D.SoundSpeed(p), cs, TOL);
  common<nd>(c, "disc_locally_isothermal", D, p, gam, 1.0, mu);
}
SCENARIO(local1, 3, "locally isothermal: every subset of 4 stars x 6 positions x laws (1d)") { local<1>(c); }
SCENARIO(local2, 3, "same 2d") { local<2>(c); }
SCENARIO(local3, 3, "same 3d") { local<3>(c); }

template<int nd> void ion(Ctx& c) {
  boot(); Setup s; bool phys = c.flip("physical"); setup(s, phys);
  std::string ge = c.pick(std::vector<std::string>{"energy_eqn","constant_temp","isothermal","barotropic"});
  double gam = c.pick(std::vector<double>{1.4, 5./3.}), mu = c.pick(std::vector<double>{1., 2.35}), mui = c.pick(std::vector<double>{0.5, 0.678});
  double Ti = c.pick(std::vector<double>{1e4, 7000.}), T0 = c.pick(std::vector<double>{10., 100.});
  s.P.stringparams["gas_eos"]=ge; s.P.floatparams["gamma_eos"]=gam; s.P.floatparams["mu_bar"]=mu; s.P.floatparams["mu_ion"]=mui; s.P.floatparams["temp_ion"]=Ti; s.P.floatparams["temp0"]=T0;
  double rb = phys ? 1e-14 : 1.0; s.P.floatparams["rho_bary"] = rb;
  double rho = rb/s.rcgs*c.pick(std::vector<double>{1e-3, 0.7, 20.}), u = c.pick(std::vector<double>{0.01, 3., 500.});
  EOS<nd>* base; if (ge == "isothermal") base = new Isothermal<nd>(&s.P,&s.U); else if (ge == "barotropic") base = new Barotropic<nd>(&s.P,&s.U); else base = new Adiabatic<nd>(&s.P,&s.U);
  MCRadiationEOS<nd> m(&s.P,&s.U); IonisingRadiation<nd> r(&s.P,&s.U);
  c.interesting();
  auto p = proxy<nd>(rho, u);
  auto eq = [&](const char* k, double a, double b) { c.near(k, k, a, b, TOL); };
  double Tc = Ti/s.tscale;
  p.ionfrac = 0; eq("mcrad:neutral-limit", m.Temperature(p), base->Temperature(p)); eq("mcrad:neutral-limit", m.SoundSpeed(p), base->SoundSpeed(p)); eq("mcrad:neutral-limit", m.SpecificInternalEnergy(p), base->SpecificInternalEnergy(p)); eq("mcrad:neutral-limit", m.EntropicFunction(p), base->EntropicFunction(p));
  p.ionfrac = 1; eq("mcrad:ionised-limit", m.Temperature(p), Tc); eq("mcrad:ionised-limit", m.SoundSpeed(p), std::sqrt(Tc/mui)); eq("mcrad:ionised-limit", m.SpecificInternalEnergy(p), Tc/mui/(gam-1));
  for (double f : {0.125, 0.5, 0.9}) { p.ionfrac = f;
    eq("mcrad:mixture", m.Temperature(p), f*Tc+(1-f)*base->Temperature(p)); eq("mcrad:mixture", m.SoundSpeed(p), f*std::sqrt(Tc/mui)+(1-f)*base->SoundSpeed(p));
    eq("mcrad:mixture", m.SpecificInternalEnergy(p), f*Tc/mui/(gam-1)+(1-f)*base->SpecificInternalEnergy(p)); }
  for (int st : {0, 1, 2}) { p.ionstate = st; double b = base->SpecificInternalEnergy(p), v = r.SpecificInternalEnergy(p);
    eq("ionising:energy", v, st == 0 ? b : std::max(b, u)); eq("ionising:temperature", r.Temperature(p), base->Temperature(p)); eq("ionising:soundspeed", r.SoundSpeed(p), base->SoundSpeed(p)); eq("ionising:entropy", r.EntropicFunction(p), base->EntropicFunction(p));
    eq("ionising:pressure", r.Pressure(p), (gam-1)*rho*u); }
  c.step(20); c.state(Hash().d(rho).d(u).d(base->Temperature(p)).h);
  delete base;
}
SCENARIO(ion1, 3, "ionising EOS: base EOS x gamma x mu x temperatures x density x energy x ionisation (1d)") { ion<1>(c); }
SCENARIO(ion3, 3, "same 3d") { ion<3>(c); }

// tabulated EOS
struct Table { int nd, nt; std::vector<double> dens, temp; std::vector<std::vector<double>> u, mu, g, g1, k; };
Table make_table(int variant) {
  Table t; t.nd = 5 + variant; t.nt = 6 + 2*variant;
  for (int i=0; i<t.nd; i++) t.dens.push_back(std::pow(10., -18 + 2*i));
  for (int j=0; j<t.nt; j++) t.temp.push_back(std::pow(10., 0.5 + 0.5*j));
  for (int i=0; i<t.nd; i++) { t.u.emplace_back(); t.mu.emplace_back(); t.g.emplace_back(); t.g1.emplace_back(); t.k.emplace_back();
    for (int j=0; j<t.nt; j++) { double g = 1.66 - 0.05*j/(t.nt-1.) - 0.03*i, mu = 2.4 - 0.1*j - 0.05*i;
      t.g[i].push_back(g); t.g1[i].push_back(g + 0.015 + 0.001*i); t.mu[i].push_back(mu); t.u[i].push_back(8.31e7*t.temp[j]/mu/(g-1)); t.k[i].push_back(0.01*(1+j)*(1+0.3*i)); } }
  return t; }
template<int nd> void radws(Ctx& c) {
  boot(); int variant = c.choose(2, "table"); Setup s; setup(s, true);
  Table t = make_table(variant);
  char fn[64]; snprintf(fn, sizeof fn, "/tmp/c19tabXXXXXX"); int fd = mkstemp(fn); FILE* f = fdopen(fd, "w");
  fprintf(f, "# comment\n# 2\n%d %d 1.25\n", t.nd, t.nt);
  for (int i=0; i<t.nd; i++) for (int j=0; j<t.nt; j++) fprintf(f, "%.15g %.15g %.15g %.15g %.15g %.15g %.15g %.15g %.15g\n", t.dens[i], t.temp[j], t.u[i][j], t.mu[i][j], t.k[i][j], 2*t.k[i][j], 3*t.k[i][j], t.g[i][j], t.g1[i][j]);
  fclose(f);
  s.P.stringparams["radws_table"] = fn; s.P.stringparams["energy_integration"] = "radws"; s.P.floatparams["gamma_eos"] = 1.4;
  Radws<nd> e(&s.P, &s.U); unlink(fn);
  int i = c.choose(t.nd, "density row"), j = c.choose(t.nt, "energy column");
  static const std::vector<double> off = {0.0, 0.6, -0.6, 0.9, -0.9};         // decades around a node that is 2 decades from the next
  static const std::vector<double> uoff = {0.0, 0.2, -0.2};
  double ro = c.pick(off, "density offset"), uo = c.pick(uoff, "energy offset");
  double far = c.choose(3, "beyond"); if (far && !((i==0 || i==t.nd-1) && ro==0)) c.prune();
  if (far == 1) ro = (i==0) ? -7 : 7; if (far == 2) ro = (i==0) ? -0.3 : 0.3;
  double rho = t.dens[i]*std::pow(10., ro)/s.rcgs;
  double uc = t.u[i][j], ulo = j>0 ? t.u[i][j-1] : uc*0.5, uhi = j+1<t.nt ? t.u[i][j+1] : uc*2;
  double uu = uo >= 0 ? uc + uo*(uhi-uc) : uc + uo*(uc-ulo); double u = uu/s.ucgs;
  auto p = proxy<nd>(rho, u); c.interesting(); c.step(8);
  double g = t.g[i][j], g1 = t.g1[i][j], mu = t.mu[i][j];
  c.near("radws:energy", "u", e.SpecificInternalEnergy(p), u, 0);
  c.near("radws:pressure", "P = (gamma(table)-1) rho u", e.Pressure(p), (g-1)*rho*u, 1e-9);
  c.near("radws:soundspeed", "cs^2 = gamma1 P/rho", std::pow(e.SoundSpeed(p),2), g1*(g-1)*u, 1e-9);
  c.near("radws:entropy", "P/rho^gamma", e.EntropicFunction(p), (g-1)*u*std::pow(rho, 1-g), 1e-8);
  c.near("radws:temperature", "T = mu P/rho", e.Temperature(p), (g-1)*u*mu, 1e-9);
  if (uo == 0) c.near("radws:node-temperature", "temperature of a table node (K)", e.Temperature(p)*s.tscale, t.temp[j], 2e-3);
  p.p = e.Pressure(p);
  double back = e.InternalEnergyFromPressure(p);
  if (std::fabs(uo) < 0.1) c.near("radws:inverse", "energy from pressure at a table node", back, u, 1e-9);
  else { double gm = 1e30, gM = 0; for (int q=std::max(0,j-1); q<=std::min(t.nt-1,j+1); q++) { gm = std::min(gm, t.g[i][q]-1); gM = std::max(gM, t.g[i][q]-1); }
    c.check(back <= p.p/rho/gm*(1+1e-9) && back >= p.p/rho/gM*(1-1e-9), "radws:inverse", "energy from pressure %g for P/rho %g outside the range of the adjacent nodes", back, p.p/rho); }
  // opacities of the node
  int id = e.opacity_table->GetIDens(std::log10(rho)), it = e.opacity_table->GetITemp(std::log10(t.temp[j]/s.tscale));
  c.check(id == i, "radws:index", "density index %d for row %d", id, i); c.check(it == j, "radws:index", "temperature index %d for column %d", it, j);
  double k1, k2, k3; e.opacity_table->GetKappa(i, j, k1, k2, k3);
  c.near("radws:kappa", "kappa", k1*s.kcgs, t.k[i][j], 1e-6); c.near("radws:kappa", "kappap", k3*s.kcgs, 3*t.k[i][j], 1e-6);
  c.near("radws:table-energy", "u", e.opacity_table->GetEnergy(i, j)*s.ucgs, t.u[i][j], 1e-6);
  c.check(e.opacity_table->GetIEner(u, (FLOAT)rho) == j && e.opacity_table->GetIEner(u, i) == j, "radws:index", "energy index");
  c.state(Hash().i(i).i(j).d(rho).d(u).h);
}
SCENARIO(radws1, 2, "tabulated EOS: every node x density and energy offsets x beyond the table (1d)") { radws<1>(c); }
SCENARIO(radws3, 2, "same 3d") { radws<3>(c); }
}
int main(int a, char** v) { return mc::main(a, v); }
