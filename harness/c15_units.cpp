// C15 - unit scaling.  Exhaustive over (length in/out) x (mass in/out) x every pair of named units of every
// derived quantity x (input units from the snapshot or not), real SimUnits::SetupUnits against an independent
// dimensional analysis and an independent table of SI values.
// NEEDS: SimUnits Parameters Exception
#include <exception>
#include <stdexcept>
#include "Exception.h"
#include "mc.hpp"
#include "SimUnits.h"
using namespace mc;

namespace {
// independent physical data (SI)
const double PC=3.08568025e16, AU=1.4959787e11, RSUN=6.955e8, REARTH=6.371e6, MSUN=1.98892e30, MJUP=1.8986e27, MEARTH=5.9736e24;
const double YR=3.1556952e7, DAY=86400., LSUN=3.839e26, EV=1.6021765e-19, G=6.67384e-11, KB=1.3806503e-23, MH=1.66054e-27;

struct U { std::string name; double si; };
struct Q { std::string p; double L, M, T; std::vector<U> units; SimUnit SimUnits::* dummy; };
struct Quant { const char* p; int L, M, T; std::vector<U> u; };
const std::vector<Quant>& quants() {
  static const std::vector<Quant> q = {
    {"r",1,0,0,{{"mpc",1e6*PC},{"kpc",1e3*PC},{"pc",PC},{"au",AU},{"r_sun",RSUN},{"r_earth",REARTH},{"km",1e3},{"m",1},{"cm",1e-2},{"",1}}},
    {"m",0,1,0,{{"m_sun",MSUN},{"m_jup",MJUP},{"m_earth",MEARTH},{"kg",1},{"g",1e-3},{"",1}}},
    {"t",0,0,1,{{"gyr",1e9*YR},{"myr",1e6*YR},{"yr",YR},{"day",DAY},{"s",1},{"",1}}},
    {"v",1,0,-1,{{"km_s",1e3},{"au_yr",AU/YR},{"m_s",1},{"cm_s",1e-2},{"",1}}},
    {"a",1,0,-2,{{"km_s2",1e3},{"au_yr2",AU/YR/YR},{"m_s2",1},{"cm_s2",1e-2},{"",1}}},
    {"rho",-3,1,0,{{"m_sun_pc3",MSUN/PC/PC/PC},{"kg_m3",1},{"g_cm3",1e3},{"",1}}},
    {"sigma",-2,1,0,{{"m_sun_pc2",MSUN/PC/PC},{"kg_m2",1},{"g_cm2",10},{"",1}}},
    {"press",-1,1,-2,{{"Pa",1},{"bar",1e5},{"",1}}},
    {"f",1,1,-2,{{"N",1},{"dyn",1e-5},{"",1}}},
    {"E",2,1,-2,{{"J",1},{"erg",1e-7},{"GJ",1e9},{"eV",EV},{"10^40erg",1e33},{"",1}}},
    {"mom",1,1,-1,{{"m_sunkm_s",MSUN*1e3},{"m_sunau_yr",MSUN*AU/YR},{"kgm_s",1},{"gcm_s",1e-5},{"",1}}},
    {"angmom",2,1,-1,{{"m_sunkm2_s",MSUN*1e6},{"m_sunau2_yr",MSUN*AU*AU/YR},{"kgm2_s",1},{"gcm2_s",1e-7},{"",1}}},
    {"angvel",0,0,-1,{{"rad_s",1},{"",1}}},
    {"dmdt",0,1,-1,{{"m_sun_myr",MSUN/YR/1e6},{"m_sun_yr",MSUN/YR},{"kg_s",1},{"g_s",1e-3},{"",1}}},
    {"L",2,1,-3,{{"L_sun",LSUN},{"W",1},{"erg_s",1e-7},{"",1}}},
    {"kappa",2,-1,0,{{"m2_kg",1},{"cm2_g",0.1},{"",1}}},
    {"u",2,0,-2,{{"J_kg",1},{"erg_g",1e-4},{"",1}}},
    {"dudt",2,0,-3,{{"J_kg_s",1},{"erg_g_s",1e-4},{"",1}}},
    {"temp",0,0,0,{{"K",1},{"",1}}},
  };
  return q;
}
SimUnit& unit(SimUnits& s, const std::string& p) {
  if (p=="r") return s.r; if (p=="m") return s.m; if (p=="t") return s.t; if (p=="v") return s.v; if (p=="a") return s.a;
  if (p=="rho") return s.rho; if (p=="sigma") return s.sigma; if (p=="press") return s.press; if (p=="f") return s.f; if (p=="E") return s.E;
  if (p=="mom") return s.mom; if (p=="angmom") return s.angmom; if (p=="angvel") return s.angvel; if (p=="dmdt") return s.dmdt;
  if (p=="L") return s.L; if (p=="kappa") return s.kappa; if (p=="u") return s.u; if (p=="dudt") return s.dudt; return s.temp;
}
Parameters& defaults() { static Parameters* p = 0; if (!p) p = new Parameters(); return *p; }
void boot() { static bool b = false; if (!b) { ExceptionHandler::makeExceptionHandler(python); b = true; } }
const double TOL = 1e-9;

// everything that must hold for one quantity once units are set up
void checkq(Ctx& c, SimUnits& s, const Quant& q, const U& in, const U& out, double Lsi, double Msi, double Tsi) {
  SimUnit& x = unit(s, q.p);
  std::string w = std::string(q.p) + " [" + in.name + "->" + out.name + "]";
  double expect = std::pow(Lsi, q.L)*std::pow(Msi, q.M)*std::pow(Tsi, q.T), cgs = std::pow(100., q.L)*std::pow(1000., q.M);
  if (std::string(q.p) == "temp") { expect = MH*Lsi*Lsi/Tsi/Tsi/KB; cgs = 1; }
  c.near("unit-si-value", (w+" SI value of output unit").c_str(), x.outSI, out.si, 1e-6);
  c.near("unit-si-value", (w+" SI value of input unit").c_str(), x.inSI, in.si, 1e-6);
  std::string k = std::string("scale:") + q.p;
  c.near(k.c_str(), (w+" code unit in SI through output unit").c_str(), x.outscale*x.outSI, expect, TOL);
  c.near(k.c_str(), (w+" code unit in SI through input unit").c_str(), x.inscale*x.inSI, expect, TOL);
  c.near(k.c_str(), (w+" code unit in output unit").c_str(), x.outscale, expect/out.si, 1e-6);
  c.near(k.c_str(), (w+" code unit in input unit").c_str(), x.inscale, expect/in.si, 1e-6);
  c.near((std::string("cgs:")+q.p).c_str(), (w+" code unit in cgs").c_str(), x.outscale*x.outcgs, expect*cgs, TOL);
  for (double v : {1.0, -3.7, 2.5e-13, 8.1e17}) {
    c.near("roundtrip", (w+" input->code->input").c_str(), x.Code_to_InputUnits(x.Input_to_CodeUnits(v)), v, 1e-13);
    c.near("roundtrip", (w+" output->code->output").c_str(), x.Code_to_OutputUnits(x.Output_to_CodeUnits(v)), v, 1e-13);
    c.near("roundtrip", (w+" SI->code->SI").c_str(), x.Code_to_SIUnits(x.SI_to_CodeUnits(v)), v, 1e-13);
    c.near("roundtrip", (w+" CGS->code->CGS").c_str(), x.Code_to_CGSUnits(x.CGS_to_CodeUnits(v)), v, 1e-13);
    c.near(k.c_str(), (w+" value in input unit, seen in output unit").c_str(), x.Code_to_OutputUnits(x.Input_to_CodeUnits(v)), v*in.si/out.si, 1e-6);
    c.near(k.c_str(), (w+" code value in SI").c_str(), x.Code_to_SIUnits(v), v*expect, TOL);
    c.near((std::string("cgs:")+q.p).c_str(), (w+" code value in cgs").c_str(), x.Code_to_CGSUnits(v), v*expect*cgs, TOL);
  }
  c.check(x.inunit == in.name && x.outunit == out.name, "unit-name", "%s: recorded unit names '%s' -> '%s'", w.c_str(), x.inunit.c_str(), x.outunit.c_str());
  for (const U& o : q.u) {
    c.near(k.c_str(), (w+" OutputScale("+o.name+")").c_str(), x.OutputScale(o.name), expect/o.si, 1e-6);
    c.near("unit-si-value", (w+" SIUnit("+o.name+")").c_str(), x.SIUnit(o.name), o.si, 1e-6);
    c.step(1);
  }
  c.state(Hash().d(x.inscale).d(x.outscale).d(x.outcgs).i(q.L).i(q.M).i(q.T).h);
}

SCENARIO(scales, 3, "length in/out x mass in/out x quantity x its in/out units x units read from file or not") {
  boot();
  const auto& Qs = quants();
  const U& ri = c.pick(Qs[0].u, "rin"); const U& ro = c.pick(Qs[0].u, "rout");
  const U& mi = c.pick(Qs[1].u, "min"); const U& mo = c.pick(Qs[1].u, "mout");
  bool readin = c.flip("inputs-from-snapshot");
  if (!readin && (&ri != &Qs[0].u[0] || &mi != &Qs[1].u[0])) c.prune();     // input units are ignored: one choice is enough
  const Quant& q = Qs[c.choose((int)Qs.size(), "quantity")];
  const U* in; const U* out;
  std::string p = q.p;
  if (p == "r") { in = &ri; out = &ro; } else if (p == "m") { in = &mi; out = &mo; }
  else { in = &c.pick(q.u, "in"); out = &c.pick(q.u, "out"); }
  if (!readin && p != "r" && p != "m" && in != &q.u[0]) c.prune();
  Parameters& P = defaults();
  auto& sp = P.stringparams;
  static std::map<std::string,std::string> orig = sp;
  sp = orig;
  P.intparams["dimensionless"] = 0;
  sp["rinunit"] = ri.name; sp["routunit"] = ro.name; sp["minunit"] = mi.name; sp["moutunit"] = mo.name;
  sp[p+"inunit"] = in->name; sp[p+"outunit"] = out->name;
  SimUnits s; s.ReadInputUnits = readin;
  s.SetupUnits(&P);
  c.step(1); c.interesting();
  double Ls = ro.si, Ms = mo.si, Ts = std::sqrt(Ls*Ls*Ls/(G*Ms));
  checkq(c, s, q, readin ? *in : *out, *out, Ls, Ms, Ts);
  // gravitational constant is one in code units
  double t = s.t.Code_to_SIUnits(1.0), l = s.r.Code_to_SIUnits(1.0), m = s.m.Code_to_SIUnits(1.0);
  c.near("G-is-unity", "G in code units", G*m*t*t/(l*l*l), 1.0, TOL);
  t = s.t.inscale*s.t.inSI; l = s.r.inscale*s.r.inSI; m = s.m.inscale*s.m.inSI;
  c.near("G-is-unity", "G in code units (input scales)", G*m*t*t/(l*l*l), 1.0, TOL);
  c.describe(p + " " + in->name + "->" + out->name + " with length " + ri.name + "->" + ro.name + ", mass " + mi.name + "->" + mo.name);
}

SCENARIO(derived, 2, "all derived quantities together: products of converted values equal converted products") {
  boot();
  const auto& Qs = quants();
  const U& ro = c.pick(Qs[0].u, "rout"); const U& mo = c.pick(Qs[1].u, "mout");
  int shift = c.choose(6, "unit-rotation"), ishift = c.choose(6, "in-rotation");
  Parameters& P = defaults(); auto& sp = P.stringparams; static std::map<std::string,std::string> orig = sp; sp = orig;
  P.intparams["dimensionless"] = 0;
  std::vector<const U*> ins, outs;
  for (auto& q : Qs) { int n = q.u.size(); ins.push_back(&q.u[ishift % n]); outs.push_back(&q.u[shift % n]); }
  outs[0] = &ro; outs[1] = &mo;
  for (size_t i=0; i<Qs.size(); i++) { sp[std::string(Qs[i].p)+"inunit"] = ins[i]->name; sp[std::string(Qs[i].p)+"outunit"] = outs[i]->name; }
  SimUnits s; s.ReadInputUnits = true; s.SetupUnits(&P);
  c.step(1); c.interesting();
  double Ls = ro.si, Ms = mo.si, Ts = std::sqrt(Ls*Ls*Ls/(G*Ms));
  for (size_t i=0; i<Qs.size(); i++) checkq(c, s, Qs[i], *ins[i], *outs[i], Ls, Ms, Ts);
  // relations between quantities, in code units
  double l = s.r.SI_to_CodeUnits(7.), m = s.m.SI_to_CodeUnits(11.), t = s.t.SI_to_CodeUnits(13.);
  c.near("relation", "v = r/t", s.v.SI_to_CodeUnits(7./13.), l/t, TOL);
  c.near("relation", "a = r/t^2", s.a.SI_to_CodeUnits(7./169.), l/t/t, TOL);
  c.near("relation", "E = m v^2", s.E.SI_to_CodeUnits(11.*49./169.), m*l*l/t/t, TOL);
  c.near("relation", "P = rho u", s.press.SI_to_CodeUnits(11./343.*49./169.), s.rho.SI_to_CodeUnits(11./343.)*s.u.SI_to_CodeUnits(49./169.), TOL);
  c.near("relation", "f = m a", s.f.SI_to_CodeUnits(11.*7./169.), m*s.a.SI_to_CodeUnits(7./169.), TOL);
  c.near("relation", "L = E/t", s.L.SI_to_CodeUnits(11.*49./169./13.), s.E.SI_to_CodeUnits(11.*49./169.)/t, TOL);
  c.near("relation", "kappa sigma is dimensionless", s.kappa.SI_to_CodeUnits(3.)*s.sigma.SI_to_CodeUnits(5.), 15., TOL);
  c.near("relation", "u = kT/mH", s.temp.SI_to_CodeUnits(KB > 0 ? MH/KB*5. : 0), s.u.SI_to_CodeUnits(5.), TOL);
}

SCENARIO(dimensionless, 2, "dimensionless runs apply no scaling whatever units are named") {
  boot();
  const auto& Qs = quants();
  const U& ro = c.pick(Qs[0].u, "rout"); const U& mo = c.pick(Qs[1].u, "mout"); bool readin = c.flip("read");
  int shift = c.choose(5, "unit-rotation");
  Parameters& P = defaults(); auto& sp = P.stringparams; static std::map<std::string,std::string> orig = sp; sp = orig;
  P.intparams["dimensionless"] = 1;
  for (auto& q : Qs) { sp[std::string(q.p)+"inunit"] = q.u[shift % q.u.size()].name; sp[std::string(q.p)+"outunit"] = q.u[(shift+1) % q.u.size()].name; }
  sp["routunit"] = ro.name; sp["moutunit"] = mo.name;
  SimUnits s; s.ReadInputUnits = readin; s.SetupUnits(&P);
  c.step(1); c.interesting();
  c.check(s.dimensionless, "dimensionless", "flag not recorded");
  for (auto& q : Qs) {
    SimUnit& x = unit(s, q.p);
    c.check(x.inscale == 1 && x.outscale == 1 && x.inSI == 1 && x.outSI == 1 && x.outcgs == 1, "dimensionless", "%s is scaled in a dimensionless run", q.p);
    c.check(x.Code_to_OutputUnits(x.Input_to_CodeUnits(3.25)) == 3.25, "dimensionless", "%s: conversion is not the identity", q.p);
  }
}

SCENARIO(unknown, 1, "an unknown unit name for any quantity is an error, known ones are not") {
  boot();
  const auto& Qs = quants();
  const Quant& q = Qs[c.choose((int)Qs.size(), "quantity")];
  bool in = c.flip("input side");
  std::vector<std::string> bad = {"furlong", "PC", "pc ", "m_sunn", "cgs"};
  for (const U& u : q.u) if (!u.name.empty()) { bad.push_back(u.name + "x"); bad.push_back(" " + u.name); }
  std::string b = c.pick(bad, "name");
  Parameters& P = defaults(); auto& sp = P.stringparams; static std::map<std::string,std::string> orig = sp; sp = orig;
  P.intparams["dimensionless"] = 0;
  sp[std::string(q.p) + (in ? "inunit" : "outunit")] = b;
  SimUnits s; s.ReadInputUnits = true;
  bool threw = false;
  try { s.SetupUnits(&P); } catch (GandalfError&) { threw = true; }
  c.step(1); c.interesting();
  c.check(threw, "unknown-unit", "unit '%s' for quantity %s accepted", b.c_str(), q.p);
  bool threw2 = false;
  try { SimUnits s2; unit(s2, q.p).SIUnit(b); } catch (GandalfError&) { threw2 = true; }
  c.check(threw2, "unknown-unit", "SIUnit('%s') for quantity %s accepted", b.c_str(), q.p);
}
}
int main(int a, char** v) { return mc::main(a, v); }
