// C12 - snapshots written to disk restore the state that was saved (all formats, buffers, malformed files).
#include "sim.hpp"
#include "SphSnapshot.h"
#include "HeaderInfo.h"
#include <fstream>
#include <sstream>
using namespace mc; 
typedef std::string S;

struct P { double r[3], v[3], m, h, rho, u; int type, iorig; bool dead; };
struct St { double r[3], v[3], m, h, radius; };
struct State { int nd; std::vector<P> p; std::vector<St> s; double t, tlast, mmean; int nsteps, nout; };

// menus of values: [0] ordinary, [1] full mantissas and negative signs, [2] large and small magnitudes
double val(int menu, int which, int i) {
  static const double A[3][7] = {{0.25, -1.5, 0.125, 2.0, 1.0, 0.5, 3.0},
                                 {1.0/3, -2.0/7, 0.1234567890123456, 9.876543210987654, 1.1e-3/3, 0.7071067811865476, 3.141592653589793},
                                 {-1.2345678901e-110, 9.8765432109876e+108, -3.3333333333333e-9, 7.77e-120, 1.5e105, 2.2222222222222e-7, 8.1e17}};
  double x = A[menu][(which*3+i*5+1)%7]; return x*(1 + 0.0625*i);
}
double pos(int menu, int which, int i) { return std::fabs(val(menu, which, i)); }
sim::Opts opts(int units, int sinks) {
  sim::Opts o; o.I("dimensionless", units == 0).S("run_id", "C12").I("sink_particles", sinks).S("nbody", "lfkdk");
  if (units == 2) o.S("routunit","au").S("moutunit","m_jup").S("toutunit","yr").S("voutunit","cm_s").S("rhooutunit","kg_m3").S("uoutunit","erg_g");
  return o;
}
State make(int nd, const std::vector<int>& kinds, int ns, int menu, int shift) {
  State z; z.nd = nd; int n = kinds.size();
  for (int i=0;i<n;i++) { P p; for (int k=0;k<3;k++) { p.r[k] = val(menu,k,i+shift); p.v[k] = val(menu,3+k,i+shift); } p.m = pos(menu,1,i+shift); p.h = pos(menu,2,i+shift); p.rho = pos(menu,4,i+shift); p.u = pos(menu,6,i+shift);
    int kd = kinds[i]; p.type = kd%10 == 0 ? gas_type : kd%10 == 1 ? dust_type : kd%10 == 2 ? cdm_type : icm_type; p.dead = kd >= 10; p.iorig = 7*i+3+shift; z.p.push_back(p); }
  for (int i=0;i<ns;i++) { St s; for (int k=0;k<3;k++) { s.r[k] = val(menu,2*k,i+1+shift); s.v[k] = val(menu,k+1,i+2+shift); } s.m = pos(menu,3,i+shift); s.h = pos(menu,5,i+shift); s.radius = pos(menu,0,i+shift); z.s.push_back(s); }
  z.t = pos(menu,5,shift); z.tlast = pos(menu,4,shift); z.mmean = pos(menu,2,shift); z.nsteps = 12345+shift; z.nout = 17+shift; return z;
}
template<int nd> void fill(sim::Sim<nd>& X, const State& z) {
  for (size_t i=0;i<z.p.size();i++) { Particle<nd>& q = X.part(i); const P& p = z.p[i]; for (int k=0;k<nd;k++) { q.r[k] = p.r[k]; q.v[k] = p.v[k]; } q.m = p.m; q.h = p.h; q.rho = p.rho; q.u = p.u; q.ptype = p.type; q.iorig = p.iorig; q.flags = none; if (p.dead) { q.flags.set(dead); q.m = 0; } }
  for (size_t i=0;i<z.s.size();i++) { StarParticle<nd>& q = X.star(i); const St& s = z.s[i]; for (int k=0;k<nd;k++) { q.r[k] = s.r[k]; q.v[k] = s.v[k]; } q.m = s.m; q.h = s.h; q.radius = s.radius; }
  X.sim->t = z.t; X.sim->tsnaplast = z.tlast; X.sim->Nsteps = z.nsteps; X.sim->Noutsnap = z.nout; X.sim->hydro->mmean = z.mmean;
}
// the live particles in the order the file has them: icm, gas, cdm, dust (stable); column files keep the order
std::vector<P> order(const State& z, bool column) {
  std::vector<P> o; for (int ty : {(int) icm_type, (int) gas_type, (int) cdm_type, (int) dust_type}) for (auto& p : z.p) if (!p.dead && (p.type == ty)) o.push_back(p);
  if (column) { o.clear(); for (auto& p : z.p) if (!p.dead) o.push_back(p); }
  return o;
}
bool rel(double a, double b, double tol) { return a == b || std::fabs(a-b) <= tol*std::max(std::fabs(a), std::fabs(b)); }
double tolof(const S& f) { return f == "su" ? 1e-14 : f == "sf" ? 1.2e-10 : f == "slite" ? 1.2e-7 : 1.1e-5; }
const char* longname(const S& f, int alt) { return f == "su" ? (alt ? "seren_unform" : "su") : f == "sf" ? (alt ? "seren_form" : "sf") : f == "slite" ? (alt ? "seren_lite" : "slite") : "column"; }

template<int nd> bool same(Ctx& c, sim::Sim<nd>& X, const State& z, const S& f, const char* how, bool whole) {
  std::vector<P> e = order(z, f == "column"); double T = tolof(f); S k = S(how);
  if (X.sim->hydro->Nhydro != (int) e.size()) { c.fail((k+"-count").c_str(), "%s %s: %d particles saved, %d read", how, f.c_str(), (int) e.size(), X.sim->hydro->Nhydro); return false; }
  if (X.sim->nbody->Nstar != (int) z.s.size()) { c.fail((k+"-count").c_str(), "%s %s: %d stars saved, %d read", how, f.c_str(), (int) z.s.size(), X.sim->nbody->Nstar); return false; }
  auto chk = [&](const char* what, int i, double got, double want) { if (rel(got, want, T)) return true; c.fail((k+"-"+what).c_str(), "%s %s: %s of %d saved as %.17g, read as %.17g", how, f.c_str(), what, i, want, got); return false; };
  for (size_t i=0;i<e.size();i++) { Particle<nd>& q = X.part(i); const P& p = e[i];
    for (int a=0;a<nd;a++) { if (!chk("r", i, q.r[a], p.r[a])) return false; if (!chk("v", i, q.v[a], p.v[a])) return false; }
    if (!chk("m", i, q.m, p.m) || !chk("h", i, q.h, p.h) || !chk("rho", i, q.rho, p.rho) || !chk("u", i, q.u, p.u)) return false;
    if (f != "column") {
      int want = p.type == icm_type ? gas_type : p.type;
      if (q.ptype != want) { c.fail((k+"-type").c_str(), "%s %s: type of %d saved as %d, read as %d", how, f.c_str(), (int) i, p.type, (int) q.ptype); return false; }
      if (q.iorig != p.iorig) { c.fail((k+"-iorig").c_str(), "%s %s: identifier of %d saved as %d, read as %d", how, f.c_str(), (int) i, p.iorig, q.iorig); return false; } }
    if (q.flags.is_dead()) { c.fail((k+"-dead").c_str(), "%s %s: particle %d is dead after reading", how, f.c_str(), (int) i); return false; } }
  for (size_t i=0;i<z.s.size();i++) { StarParticle<nd>& q = X.star(i); const St& s = z.s[i];
    for (int a=0;a<nd;a++) { if (!chk("star-r", i, q.r[a], s.r[a])) return false; if (!chk("star-v", i, q.v[a], s.v[a])) return false; }
    if (!chk("star-m", i, q.m, s.m) || !chk("star-h", i, q.h, s.h)) return false;
    if (f != "column") { if (!chk("star-radius", i, q.radius, s.radius) || !chk("sink-radius", i, X.sim->sinks->sink[i].radius, s.radius)) return false; }
    if (X.sim->sinks->sink[i].star != &X.star(i)) { c.fail((k+"-sinkstar").c_str(), "%s %s: sink %d does not point to its star", how, f.c_str(), (int) i); return false; } }
  if (!chk("t", 0, X.sim->t, z.t)) return false;
  if (whole && f != "column") {
    if (!chk("tsnaplast", 0, X.sim->tsnaplast, z.tlast) || !chk("mmean", 0, X.sim->hydro->mmean, z.mmean)) return false;
    if (X.sim->Nsteps != z.nsteps || X.sim->Noutsnap != z.nout) { c.fail((k+"-numbers").c_str(), "%s %s: steps %d, snapshots %d read as %d, %d", how, f.c_str(), z.nsteps, z.nout, (int) X.sim->Nsteps, (int) X.sim->Noutsnap); return false; } }
  return true;
}
S slurp(const S& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
void spit(const S& f, const S& d) { std::ofstream o(f.c_str(), std::ios::binary); o << d; }

// an independent reader of the published layouts: physical values of one file
struct Phys { int nd; std::vector<int> id; std::vector<long> il; std::vector<double> dd; std::vector<S> units, ids; std::vector<int> iorig; std::vector<std::vector<double> > f; std::vector<std::vector<double> > stars; bool ok; };
Phys parse(const S& d, const S& form, int nhead) {
  Phys q; q.ok = false; size_t at = 0; (void) nhead;
  if (form == "column") { std::istringstream i(d); int nh, ns; double t; if (!(i >> nh >> ns >> q.nd >> t)) return q; q.id = {nh, ns}; q.dd = {t};
    for (int j=0;j<nh+ns;j++) { std::vector<double> v(2*q.nd+4); for (auto& x : v) if (!(i >> x)) return q; (j < nh ? q.f : q.stars).push_back(v); } S rest; if (i >> rest) return q; q.ok = true; return q; }
  bool text = form == "sf"; std::istringstream in(d); bool bad = false; int fw = form == "slite" ? 4 : 8;
  auto raw = [&](size_t n) { S s; if (at+n > d.size()) { bad = true; return S(n, 0); } s = d.substr(at, n); at += n; return s; };
  auto geti = [&] { int x = 0; if (text) { if (!(in >> x)) bad = true; } else memcpy(&x, raw(4).data(), 4); return x; };
  auto getl = [&] { long x = 0; if (text) { if (!(in >> x)) bad = true; } else memcpy(&x, raw(8).data(), 8); return x; };
  auto getd = [&] { double x = 0; if (text) { if (!(in >> x)) bad = true; } else memcpy(&x, raw(8).data(), 8); return x; };
  auto getf = [&] { if (text) return getd(); if (fw == 8) return getd(); float x = 0; memcpy(&x, raw(4).data(), 4); return (double) x; };
  auto gets = [&] { S s; if (text) { if (!(in >> s)) bad = true; } else { s = raw(20); size_t e = s.find_last_not_of(' '); s = e == S::npos ? "" : s.substr(0, e+1); } return s; };
  S tag = gets(); if (tag != (text ? "SERENASCIIDUMPV2" : "SERENBINARYDUMPV3")) return q;
  int prec = geti(); if (!text && prec != fw) return q; q.nd = geti(); if (geti() != q.nd || geti() != q.nd) return q;
  for (int i=0;i<50;i++) q.id.push_back(geti()); for (int i=0;i<50;i++) q.il.push_back(getl()); for (int i=0;i<50;i++) getf(); for (int i=0;i<50;i++) q.dd.push_back(getd());
  if (bad || q.id[19] > 50 || q.id[20] > 50 || q.id[19] < 0 || q.id[20] < 0) return q;
  for (int i=0;i<q.id[19];i++) q.units.push_back(gets()); for (int i=0;i<q.id[20];i++) q.ids.push_back(gets());
  std::vector<std::vector<int> > ty; for (int i=0;i<q.id[20];i++) { std::vector<int> v; for (int j=0;j<5;j++) v.push_back(geti()); ty.push_back(v); }
  int N = q.id[0]; q.f.assign(N, std::vector<double>(2*q.nd+4, 0)); q.iorig.assign(N, -1);
  for (int j=0;j<q.id[20];j++) { const S& n = q.ids[j];
    if (n == "sink_v1") { if (ty[j][2] != q.id[1]) return q; int L = 12+2*q.nd; int e[6] = {2,2,0,L,0,0}; for (int x : e) if (geti() != x) return q;
      for (int s=0;s<q.id[1];s++) { if (text) { S w; in >> w; if (w != "TT") return q; } else { geti(); geti(); } if (geti() != s+1) return q; geti(); std::vector<double> v(L); for (auto& x : v) x = getf(); q.stars.push_back(v); } continue; }
    if (ty[j][1] != 1 || ty[j][2] != N) return q;
    int off = n == "r" ? 0 : n == "v" ? q.nd : n == "m" ? 2*q.nd : n == "h" ? 2*q.nd+1 : n == "rho" ? 2*q.nd+2 : n == "u" ? 2*q.nd+3 : n == "porig" ? -1 : -2; if (off == -2) return q;
    if (ty[j][0] != ((n == "r" || n == "v") ? q.nd : 1)) return q;
    for (int i=0;i<N;i++) { if (off < 0) q.iorig[i] = geti(); else for (int k=0;k<ty[j][0];k++) q.f[i][off+k] = getf(); } }
  if (bad) return q; if (text) { S rest; if (in >> rest) return q; } else if (at != d.size()) return q;
  q.ok = true; return q;
}
template<int nd> bool physical(Ctx& c, sim::Sim<nd>& X, const State& z, const S& f, const S& data) {
  Phys q = parse(data, f, 0); SimUnits& u = X.sim->simunits; double T = tolof(f);
  if (!q.ok) { c.fail("layout", "%s: the file does not have the layout of its format", f.c_str()); return false; }
  std::vector<P> e = order(z, f == "column"); auto bad = [&](const char* w, int i, double got, double want) { if (rel(got, want, T)) return false; c.fail((S("file-")+w).c_str(), "%s: %s of %d in the file %.17g, saved %.17g", f.c_str(), w, i, got, want); return true; };
  if (q.nd != nd || q.id[0] != (int) e.size() || q.id[1] != (int) z.s.size() || q.f.size() != e.size() || q.stars.size() != z.s.size()) { c.fail("file-count", "%s: header says %d particles, %d stars; saved %d, %d", f.c_str(), q.id[0], q.id[1], (int) e.size(), (int) z.s.size()); return false; }
  if (bad("t", 0, q.dd[0], z.t*u.t.outscale)) return false;
  if (f != "column") {
    int cnt[4] = {0,0,0,0}; for (auto& p : e) cnt[p.type == icm_type ? 0 : p.type == gas_type ? 1 : p.type == cdm_type ? 2 : 3]++;
    for (int k=0;k<4;k++) if (q.id[3+k] != cnt[k]) { c.fail("file-types", "%s: number of type %d in header %d, saved %d", f.c_str(), k, q.id[3+k], cnt[k]); return false; }
    if (q.il[0] != z.nout || q.il[1] != z.nsteps || bad("tsnaplast", 0, q.dd[1], z.tlast*u.t.outscale)) { c.fail("file-header", "%s: numbers in header", f.c_str()); return false; }
    if (!u.dimensionless) { if (q.units.size() < 21 || q.units[0] != u.r.outunit || q.units[1] != u.m.outunit || q.units[2] != u.t.outunit || q.units[3] != u.v.outunit || q.units[5] != u.rho.outunit || q.units[19] != u.u.outunit) { c.fail("file-units", "%s: unit names", f.c_str()); return false; } }
    else if (q.units.size()) { c.fail("file-units", "%s: units in a dimensionless file", f.c_str()); return false; } }
  for (size_t i=0;i<e.size();i++) { const P& p = e[i]; auto& v = q.f[i];
    for (int k=0;k<nd;k++) { if (bad("r", i, v[k], p.r[k]*u.r.outscale)) return false; if (f != "slite" && bad("v", i, v[nd+k], p.v[k]*u.v.outscale)) return false; }
    if (bad("m", i, v[2*nd], p.m*u.m.outscale) || bad("h", i, v[2*nd+1], p.h*u.r.outscale) || bad("rho", i, v[2*nd+2], p.rho*u.rho.outscale) || bad("u", i, v[2*nd+3], p.u*u.u.outscale)) return false;
    if ((f == "su" || f == "sf") && q.iorig[i] != p.iorig) { c.fail("file-iorig", "%s: identifier of %d", f.c_str(), (int) i); return false; } }
  for (size_t i=0;i<z.s.size();i++) { const St& s = z.s[i]; auto& v = q.stars[i]; int o = f == "column" ? 0 : 1;
    for (int k=0;k<nd;k++) { if (bad("star-r", i, v[o+k], s.r[k]*u.r.outscale) || bad("star-v", i, v[o+nd+k], s.v[k]*u.v.outscale)) return false; }
    if (bad("star-m", i, v[o+2*nd], s.m*u.m.outscale) || bad("star-h", i, v[o+2*nd+1], s.h*u.r.outscale)) return false;
    if (f != "column" && bad("star-radius", i, v[o+2*nd+2], s.radius*u.r.outscale)) return false; }
  return true;
}
template<int nd> bool readback(sim::Sim<nd>& Y, const S& file, const S& form, int path, Ctx& c) {     // false: refused
  try {
    if (path == 0) { Y.sim->restart = true; { std::ofstream o("C12.restart"); o << form << "\n" << file << "\n"; } Y.sim->GenerateIC(); }
    else if (path == 1) { Y.sim->simparams->stringparams["ic"] = "file"; Y.sim->simparams->stringparams["in_file"] = file; Y.sim->simparams->stringparams["in_file_form"] = form; Y.sim->GenerateIC(); }
    else { if (!Y.sim->ReadSnapshotFile(file, form)) return false; Y.sim->ConvertToCodeUnits(); }
  } catch (GandalfError& e) { c.describe(e.msg); return false; }
  return true;
}
template<int nd> bool buffer(Ctx& c, sim::Sim<nd>& Y, SphSnapshotBase* s, const State& z, const S& f, const S& form) {
  double T = std::max(tolof(f), sizeof(SNAPFLOAT) == 4 ? 1e-6 : 0.0); std::vector<P> e = order(z, f == "column"); SimUnits& u = Y.sim->simunits;
  if (form != "live") { s->ReadSnapshot(form); if (!rel(s->t, z.t, T)) { c.fail("buffer-time", "%s: time of the buffered snapshot %.17g, saved %.17g", f.c_str(), s->t, z.t); return false; } }
  std::vector<P> g, d; for (auto& p : e) { if (f == "column" && form != "live") g.push_back(p); else if (p.type == gas_type || (p.type == icm_type && form != "live")) g.push_back(p); else if (p.type == dust_type) d.push_back(p); }
  struct Q { const char* n; int w; }; Q names[] = {{"x",0},{"y",1},{"z",2},{"vx",3},{"vy",4},{"vz",5},{"m",6},{"h",7},{"rho",8},{"u",9}};
  for (int sp=0;sp<3;sp++) { const char* ty = sp == 0 ? "sph" : sp == 1 ? "dust" : "star"; size_t n = sp == 0 ? g.size() : sp == 1 ? d.size() : z.s.size(); if (!n) continue;
    if (s->GetNparticlesType(ty) != (int) n) { c.fail("buffer-count", "%s: %d particles of type %s in the buffer, saved %d", form.c_str(), s->GetNparticlesType(ty), ty, (int) n); return false; }
    for (auto& q : names) { if (q.w < 6 && q.w%3 >= nd) continue; if (sp == 2 && q.w >= 8) continue; if (sp == 1 && q.w == 9) continue;
      SNAPFLOAT* a; int sz; SNAPFLOAT fac; s->ExtractArray(q.n, ty, &a, &sz, fac, "default");
      if (sz != (int) n) { c.fail("buffer-size", "%s: size of array %s of %s %d, saved %d", form.c_str(), q.n, ty, sz, (int) n); return false; }
      double sc = q.w < 3 ? u.r.outscale : q.w < 6 ? u.v.outscale : q.w == 6 ? u.m.outscale : q.w == 7 ? u.r.outscale : q.w == 8 ? u.rho.outscale : u.u.outscale;
      for (size_t i=0;i<n;i++) { double want; if (sp == 2) { const St& x = z.s[i]; want = q.w < 3 ? x.r[q.w] : q.w < 6 ? x.v[q.w-3] : q.w == 6 ? x.m : x.h; } else { const P& x = (sp ? d : g)[i]; want = q.w < 3 ? x.r[q.w] : q.w < 6 ? x.v[q.w-3] : q.w == 6 ? x.m : q.w == 7 ? x.h : q.w == 8 ? x.rho : x.u; }
        if (!rel((double) a[i]*fac, want*sc, T)) { c.fail((S("buffer-")+q.n).c_str(), "%s %s: %s of %s %d in the buffer %.17g, saved %.17g", f.c_str(), form.c_str(), q.n, ty, (int) i, (double) a[i]*fac, want*sc); return false; } } } }
  return true;
}
const int KINDS[][5] = {{-1},{0,-1},{1,-1},{0,0,-1},{1,0,-1},{10,-1},{10,0,-1},{0,11,1,-1},{1,0,1,0,-1},{2,0,-1},{1,2,0,-1},{3,1,0,-1},{0,10,1,2,-1},{11,1,10,0,-1}};
std::vector<int> kinds(int i) { std::vector<int> v; for (int j=0;j<5 && KINDS[i][j] >= 0;j++) v.push_back(KINDS[i][j]); return v; }
const int NK = sizeof KINDS/sizeof KINDS[0];
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };

template<int nd> void roundtrip(Ctx& c) {
  Quiet quiet; int kd = c.choose(NK, "content"), ns = c.choose(3, "stars"), un = c.choose(3, "units"), menu = c.choose(3, "values"), sk = c.choose(2, "sinks");
  if (un == 2 && menu == 2) return;                                                                    // out of range in these units
  State z = make(nd, kinds(kd), ns, menu, 0); if (z.p.empty() && z.s.empty()) return;
  sim::Sim<nd> X("sph", opts(un, sk), z.p.size(), z.s.size()); fill<nd>(X, z);
  int alt = c.choose(2, "name"); c.interesting();
  { SphSnapshotBase* s = SphSnapshotBase::SphSnapshotFactory("", X.sim, nd); bool dead = false; for (auto& p : z.p) dead |= p.dead; s->CopyDataFromSimulation(); if (!dead && !buffer<nd>(c, X, s, z, "su", "live")) return; delete s; }
  for (S f : {"su", "sf", "column", "slite"}) {
    if (menu == 2 && (f == "slite")) continue;
    S form = longname(f, alt), file = "snap."+f;
    if (!X.sim->WriteSnapshotFile(file, form)) { c.fail("write", "%s: refused", form.c_str()); return; }
    S data = slurp(file); if (!physical<nd>(c, X, z, f, data)) return;
    c.step();
    if (f == "slite") continue;
    for (int path=0; path<3; path++) {
      int other = path == 0 ? 0 : path == 1 ? 6 : 1; 
      sim::Sim<nd> Y("sph", opts(un, sk).S("out_file_form", form), path == 2 ? 1 : other, path == 2 ? ns : other/2);
      if (path == 2) { HeaderInfo h = Y.sim->ReadHeaderSnapshotFile(file, form); std::vector<P> e = order(z, f == "column"); int nd_ = 0; for (auto& p : e) nd_ += p.type == dust_type;
        if (h.ndim != nd || h.Nhydro != (int) e.size() || h.Nstar != ns || !rel(h.t, z.t, tolof(f)) || (f != "column" && h.Ndust != nd_)) { c.fail("header", "%s: header says ndim %d, particles %d, stars %d, dust %d, t %.17g; saved %d %d %d %d %.17g", form.c_str(), h.ndim, h.Nhydro, h.Nstar, h.Ndust, (double) h.t, nd, (int) e.size(), ns, nd_, z.t); return; }
        SphSnapshotBase* s = SphSnapshotBase::SphSnapshotFactory(file, Y.sim, nd); s->fileform = form; if (!rel(s->t, z.t, tolof(f))) { c.fail("buffer-time", "%s: time in the header of the buffered snapshot", form.c_str()); return; }
        if (!buffer<nd>(c, Y, s, z, f, form)) return;
        if (!same<nd>(c, Y, z, f, "buffer-read", false)) return; delete s; continue; }
      if (path == 1 && z.p.empty()) continue;
      if (!readback<nd>(Y, file, form, path, c)) { c.fail("refused", "%s: an intact file was refused", form.c_str()); return; }
      if (!same<nd>(c, Y, z, f, path == 0 ? "restart" : "file-ic", path == 0)) return; c.step();
      if (path == 0) {                                                                                  // and written again: the same file
        if (f == "column") continue; Y.sim->WriteSnapshotFile("again."+f, form); S d2 = slurp("again."+f); State z2 = z; std::vector<P> e = order(z, false); for (auto& p : e) if (p.type == icm_type) p.type = gas_type; z2.p = e; if (!physical<nd>(c, Y, z2, f, d2)) return; } } }
  c.check(true, "done", "");
}
SCENARIO(roundtrip1, 2, "1D: every content x units x values: file contents, restart, file as initial conditions, header, buffer, rewriting") { roundtrip<1>(c); }
SCENARIO(roundtrip2, 2, "2D: every content x units x values") { roundtrip<2>(c); }
SCENARIO(roundtrip3, 2, "3D: every content x units x values") { roundtrip<3>(c); }

// every sequence of reads of three different snapshots into one simulation
template<int nd> void sequence(Ctx& c) {
  Quiet quiet; int un = c.choose(3, "units"); S f = c.pick<S>({"su", "sf", "column"});
  int K[3] = {8, 1, 12}, NS[3] = {0, 2, 1}; std::vector<State> zs; std::vector<S> files;
  for (int i=0;i<3;i++) { State z = make(nd, kinds(K[i]), NS[i], 1, i); sim::Sim<nd> X("sph", opts(un, 0), z.p.size(), z.s.size()); fill<nd>(X, z); S file = "seq"+std::to_string(i); X.sim->WriteSnapshotFile(file, f); zs.push_back(z); files.push_back(file); }
  sim::Sim<nd> Y("sph", opts(un, 0).S("out_file_form", f), 1, 0); std::vector<SphSnapshotBase*> ss(3, nullptr); int depth = c.thorough ? 4 : 3; c.interesting();
  for (int d=0; d<depth; d++) { int i = c.choose(3, "which"); if (!ss[i]) { ss[i] = SphSnapshotBase::SphSnapshotFactory(files[i], Y.sim, nd); }
    if (!buffer<nd>(c, Y, ss[i], zs[i], f, f)) return; if (!same<nd>(c, Y, zs[i], f, "sequence", false)) return; c.step(); }
  c.check(true, "done", "");
}
SCENARIO(sequence2, 2, "every sequence of buffer reads of three snapshots of different content into one simulation") { sequence<2>(c); }
SCENARIO_T(sequence3, 2, "the same in 3D") { sequence<3>(c); }

// every truncation of a file, and files that are not what they are said to be
template<int nd> void cut(Ctx& c) {
  Quiet quiet; S f = c.pick<S>({"su", "sf", "column"}); int un = c.choose(2, "units"), kd = c.pick({1, 4, 0}), ns = c.choose(2, "stars"); int path = c.pick({0, 2}); if (kd == 0 && !ns) return;
  State z = make(nd, kinds(kd), ns, 1, 0); sim::Sim<nd> X("sph", opts(un, 0), z.p.size(), z.s.size()); fill<nd>(X, z); X.sim->WriteSnapshotFile("whole", f); S d = slurp("whole");
  // every byte of the ends and of the tables, every fourth word of the long header
  int stride = (f == "su" ? 4 : 3); size_t n = d.size(); int parts = (n + stride - 1)/stride; int pt = c.choose(parts, "cut"); size_t cutat = (size_t) pt*stride; if (cutat >= n) return; c.interesting();
  sim::Sim<nd> Y("sph", opts(un, 0), 1, 0);
  for (size_t at=cutat; at<std::min(n, cutat+(c.thorough || f != "su" ? stride : 1)); at++) {
    spit("cut", d.substr(0, at)); c.step();
    S dd = d; while (dd.size() && isspace((unsigned char) dd[dd.size()-1])) dd.resize(dd.size()-1); size_t last = dd.size(); while (last && !isspace((unsigned char) dd[last-1])) last--;
    if (f != "su" && at > last) continue;                                              // within the last number of a text file: cannot be told
    if (readback<nd>(Y, "cut", f, path, c)) { c.fail((S("cut-")+f).c_str(), "%s cut to %d of %d bytes was read as data", f.c_str(), (int) at, (int) n); return; }
    Y.sim->hydro->Nhydro = 1; Y.sim->nbody->Nstar = 0; }
  c.check(true, "done", "");
}
SCENARIO(cut1, 3, "1D: every truncation of a file is refused by restart and by the reader") { cut<1>(c); }
SCENARIO_T(cut3, 3, "3D: every truncation of a file is refused") { cut<3>(c); }

SCENARIO(malformed, 2, "missing files, other formats, dimensions, precision and damaged tags are refused") {
  Quiet quiet; S f = c.pick<S>({"su", "sf", "column"}); int kind = c.choose(9, "damage"), path = c.pick({0, 1, 2, 3}); S form = f; c.interesting();
  State z = make(2, kinds(4), 1, 1, 0); sim::Sim<2> X("sph", opts(0, 0), 2, 1); fill<2>(X, z); X.sim->WriteSnapshotFile("bad", f); S d = slurp("bad");
  if (kind == 0) unlink("bad");
  else if (kind == 1) spit("bad", "");
  else if (kind == 2) { if (f == "column") return; d[3] ^= 1; spit("bad", d); if (path == 3) return; }                      // tag
  else if (kind == 3) { sim::Sim<3> W("sph", opts(0, 0), 2, 1); State z3 = make(3, kinds(4), 1, 1, 0); fill<3>(W, z3); W.sim->WriteSnapshotFile("bad", f); }
  else if (kind == 4) { X.sim->WriteSnapshotFile("bad", f == "su" ? "sf" : f == "sf" ? "column" : "sf"); }
  else if (kind == 5) { X.sim->WriteSnapshotFile("bad", f == "su" ? "column" : f == "sf" ? "su" : "su"); }
  else if (kind == 6) { if (f != "su") return; X.sim->WriteSnapshotFile("bad", "slite"); if (path == 3) return; }          // single precision
  else if (kind == 7) form = "nosuchform";
  else { if (path == 3) return; spit("bad", f == "su" ? d.substr(0, 20)+S(400, '\xff') : f == "sf" ? d.substr(0, 100)+"x"+d.substr(101) : "2\n1\n2\nzero\n"); }
  sim::Sim<2> Y("sph", opts(0, 0), 1, 0);
  if (path == 3) { try { Y.sim->ReadHeaderSnapshotFile("bad", form); } catch (GandalfError&) { c.check(true, "done", ""); return; } c.fail((S("header-")+f).c_str(), "damage %d: the header of %s was read", kind, f.c_str()); return; }
  if (readback<2>(Y, "bad", form, path, c)) { c.fail((S("malformed-")+f).c_str(), "damage %d: %s was read as data (path %d)", kind, f.c_str(), path); return; }
  c.check(true, "done", "");
}
int main(int a, char** v) { return mc::main(a, v); }
