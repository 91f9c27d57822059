// C22 - the particle arrays: every sequence of creating, killing, deleting, growing and making ghosts against a plain list
#include "sim.hpp"
#include "RandomNumber.h"
#include "Supernova.h"
using namespace mc;
typedef std::vector<unsigned char> Bytes;
static const char* METHODS[] = {"sph", "mfvmuscl", "mfvrk"};
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
template<int nd> struct W {
  Ctx& c; sim::Sim<nd> X; Hydrodynamics<nd>& h; int serial = 0; struct Rec { Bytes b; double tag; bool dead; int type; }; std::vector<Rec> list; std::string log; int method;
  static sim::Opts opts(int) { sim::Opts o; o.I("sink_particles", 0); for (int k=0;k<nd;k++) o.box(k, 0.0, 1.0, k == 1 ? "mirror" : "periodic", k == 1 ? "mirror" : "periodic"); return o; }
  W(Ctx& c, int m, int n0) : c(c), X(METHODS[m], opts(m), n0, 1), h(X.hydro()), method(m) {
    X.sim->Nlevels = 1; X.sim->level_max = 2; X.sim->level_step = 3; X.sim->n = 16; X.sim->t = 0.5; X.sim->level_max = 2;
    for (int i=0;i<n0;i++) fill(i); h.Ntot = n0; h.Nghost = h.NPeriodicGhost = h.Nmpighost = 0; h.hmin_ghost = 0;
  }
  Bytes bytes(int i) { Bytes b(h.size_hydro_part); memcpy(b.data(), &h.GetParticlePointer(i), b.size()); return b; }
  Particle<nd>& view(Bytes& b) { return *(Particle<nd>*) b.data(); }
  void fill(int i) {                                                                                       // a particle all of whose attributes are its own
    Particle<nd>& p = h.GetParticlePointer(i); unsigned char* q = (unsigned char*) &p; serial++;
    for (int j=0;j<h.size_hydro_part;j++) q[j] = (unsigned char) (j*7 + serial*31 + (j*serial)%5) & 0x3f;
    p.flags = none; p.flags.set(active); p.ptype = serial%3 == 0 ? dust_type : gas_type; p.iorig = i; p.m = 1 + 0.125*serial; p.h = 0.03; p.tlast = 0.25; p.ueq = 1000+serial;
    for (int k=0;k<nd;k++) { p.r[k] = fmod(0.37*serial + 0.11*k + (serial%2 ? 0.02 : 0.0), 1.0); p.v[k] = 0.1*serial - k; }
    list.push_back({bytes(i), p.ueq, false, p.ptype});
  }
  bool judge(const char* what) {
    auto bad = [&](const char* key, const char* f, double a, double b) { char t[300]; snprintf(t, 300, f, a, b); c.fail(key, "%s %dD:%s: %s", METHODS[method], nd, log.c_str(), t); return false; };
    if (h.Nhydro != (int) list.size()) return bad("count", "%g particles, expected %g", h.Nhydro, list.size());
    if (h.Nhydro > h.Nhydromax) return bad("capacity", "%g particles in room for %g", h.Nhydro, h.Nhydromax);
    if (h.Ntot > h.Nhydromax) return bad("capacity", "%g particles and ghosts in room for %g", h.Ntot, h.Nhydromax);
    if (h.Ntot != h.Nhydro + h.Nghost) return bad("totals", "total %g is not the particles plus ghosts (%g)", h.Ntot, h.Nhydro+h.Nghost);
    if ((void*) h.GetParticleArrayUnsafe() != (void*) &h.GetParticlePointer(0)) return bad("pointer", "look-up by index and by array disagree", 0, 0);
    if (method < 1) { if ((void*) &static_cast<Sph<nd>&>(h).GetSphParticlePointer(0) != (void*) &h.GetParticlePointer(0)) return bad("pointer", "look-up of SPH particles disagrees", 0, 0); }
    std::map<double, int> seen;
    for (int i=0;i<h.Nhydro;i++) { Bytes b = bytes(i); double tag = view(b).ueq; if (seen.count(tag)) return bad("duplicate", "particle %g is there twice (slot %g)", tag, i); seen[tag] = i;
      const Rec* r = nullptr; for (auto& x : list) if (x.tag == tag) r = &x; if (!r) return bad("foreign", "slot %g holds particle %g, which was deleted or never made", i, tag);
      if (r->dead != view(b).flags.is_dead()) return bad("dead", "particle %g: dead is %g", tag, view(b).flags.is_dead());
      if (b != r->b) { int o = 0; while (b[o] == r->b[o]) o++; return bad("mixed", "attributes of particle %g changed (byte %g)", tag, o); } }
    for (int i=h.Nhydro;i<h.Ntot;i++) { Particle<nd>& g = h.GetParticlePointer(i); if (!g.flags.is_periodic() && !g.flags.is_mirror()) return bad("ghost", "slot %g of %g ghosts is no ghost", i, h.Nghost);
      int o = i, guard = 0; while (o >= h.Nhydro && guard++ < 10) o = h.GetParticlePointer(o).iorig; if (o < 0 || o >= h.Nhydro || h.GetParticlePointer(o).ueq != g.ueq) return bad("ghost", "ghost in slot %g belongs to no particle (%g)", i, o); }
    (void) what; c.step(); return true;
  }
  bool create(int type) {
    double r[3] = {0.04, 0.5, 0.93}, v[3] = {1.5, -2.5, 0.5}; serial++; log += type == gas_type ? " create-gas" : " create-dust";
    double m = 5+serial, u = 2+serial; int n = h.Nhydro; Particle<nd>& p = h.CreateNewParticle(type, m, u, r, v, X.sim);
    if (&p != &h.GetParticlePointer(n) || h.Nhydro != n+1) { c.fail("create", "%s:%s: the new particle is not at the end", METHODS[method], log.c_str()); return false; }
    bool ok = p.m == m && p.u == u && p.u0 == u && p.ptype == type && p.flags.check(active) && !p.flags.is_dead() && !p.flags.is_periodic() && !p.flags.is_mirror() && p.tlast == X.sim->t && p.level == X.sim->level_max && p.nlast+p.nstep == X.sim->n && p.dudt == 0 && p.dudt0 == 0 && p.dt == 0 && p.sinkid == -1;
    for (int k=0;k<nd;k++) ok = ok && p.r[k] == r[k] && p.r0[k] == r[k] && p.v[k] == v[k] && p.v0[k] == v[k] && p.a[k] == 0 && p.a0[k] == 0;
    if (!ok) { c.fail("created", "%s %dD:%s: the new particle has attributes it was not given: m=%g u=%g u0=%g dudt=%g dudt0=%g dt=%g tlast=%g sinkid=%d type=%d", METHODS[method], nd, log.c_str(), p.m, p.u, p.u0, p.dudt, p.dudt0, p.dt, p.tlast, p.sinkid, p.ptype); return false; }
    for (int i=0;i<n;i++) if (!h.GetParticlePointer(i).flags.is_dead() && h.GetParticlePointer(i).iorig == p.iorig) { c.fail("identifier", "%s %dD:%s: the new particle has the identifier %d of another", METHODS[method], nd, log.c_str(), p.iorig); return false; }
    p.ueq = 1000+serial; list.push_back({bytes(n), p.ueq, false, type}); return true;
  }
  void kill(int i) { Particle<nd>& p = h.GetParticlePointer(i); char t[30]; snprintf(t, 30, " kill-%g", p.ueq-1000); log += t; p.flags.set(dead); p.m = 0; for (auto& x : list) if (x.tag == p.ueq) { view(x.b).flags.set(dead); view(x.b).m = 0; x.dead = true; } }
  bool del() { int n = 0; for (size_t i=0;i<list.size();) { if (list[i].dead) { list.erase(list.begin()+i); n++; } else i++; } log += " delete"; int got = h.DeleteDeadParticles(); if (got != n) { c.fail("deleted", "%s:%s: %d deleted, expected %d", METHODS[method], log.c_str(), got, n); return false; } return true; }
  void grow(int extra) { char t[30]; snprintf(t, 30, " grow%+d", extra); log += t; h.AllocateMemory(h.Nhydromax+extra); }
  void ghosts() { log += " ghosts"; h.Nghost = h.NPeriodicGhost = h.Nmpighost = 0; h.Ntot = h.Nhydro;
    for (int k=0;k<nd;k++) { int real = h.Nhydro, end = h.Ntot; for (int i=0;i<real;i++) if (!h.GetParticlePointer(i).flags.is_dead()) h.CheckBoundaryGhostParticle(i, k, 0.0, X.sim->simbox); if (k > 0) for (int i=real;i<end;i++) h.CheckBoundaryGhostParticle(i, k, 0.0, X.sim->simbox); h.Ntot = h.Nhydro+h.Nghost; } h.NPeriodicGhost = h.Nghost; }
};
template<int nd> void arrays(Ctx& c, int depth) {
  Quiet q; int m = c.choose(3, "method"), n0 = 1 + c.choose(3, "particles"); W<nd> w(c, m, n0); if (!w.judge("start")) return; c.interesting();
  for (int s=0;s<depth;s++) {
    int op = c.choose(6+w.h.Nhydro, "operation");
    if (op == 0) { if (!w.create(gas_type)) return; } else if (op == 1) { if (!w.create(dust_type)) return; } else if (op == 2) { if (!w.del()) return; } else if (op == 3) w.grow(1); else if (op == 4) w.grow(s%2 ? 9 : -1); else if (op == 5) w.ghosts(); else w.kill(op-6);
    if (!w.judge("op")) return;
  }
}
SCENARIO(arrays1, 4, "1D: every sequence of create / kill / delete / grow / ghosts, three methods, 1-3 particles") { arrays<1>(c, c.thorough ? 6 : 4); }
SCENARIO(arrays2, 4, "2D: the same, with a mirror direction (ghosts of ghosts)") { arrays<2>(c, c.thorough ? 5 : 4); }
SCENARIO(arrays3, 4, "3D: the same") { arrays<3>(c, c.thorough ? 5 : 3); }

// every pattern of dead particles through deletion
SCENARIO(patterns, 3, "deletion of every pattern of dead particles among up to 9 (12), three methods") {
  Quiet q; int m = c.choose(3, "method"), n = 1 + c.choose(c.thorough ? 12 : 9, "particles"); W<1> w(c, m, n); unsigned mask = c.choose(1 << n, "dead"); for (int i=0;i<n;i++) if (mask>>i&1) w.kill(i); c.interesting();
  if (!w.judge("killed")) return; if (!w.del()) return; if (!w.judge("deleted")) return; if (!w.del()) return; w.judge("again");
}
// star and sink arrays
SCENARIO(stars, 2, "growth of the star and sink arrays keeps every record") {
  Quiet q; int n = 1 + c.choose(4, "stars"); sim::Sim<3> X("nbody", sim::Opts(), 0, n); auto& nb = X.nbody(); Sinks<3>* sk = X.sim->sinks; sk->AllocateMemory(n); c.interesting();
  for (int i=0;i<n;i++) { unsigned char* p = (unsigned char*) &nb.stardata[i]; for (size_t j=sizeof(void*);j<sizeof(StarParticle<3>);j++) p[j] = (i*13+j*7)&0x3f; nb.stardata[i].m = i+1; sk->sink[i].radius = 10+i; sk->sink[i].menc = 20+i; sk->sink[i].istar = i; }
  std::vector<Bytes> a; std::vector<double> m; for (int i=0;i<n;i++) { Bytes b(sizeof(StarParticle<3>)); memcpy(b.data(), &nb.stardata[i], b.size()); a.push_back(b); }
  for (int s=0;s<4;s++) { int g = c.pick({0, 1, 3, 17}); nb.AllocateMemory(nb.Nstarmax+g); sk->AllocateMemory(sk->Nsinkmax+g);
    for (int i=0;i<n;i++) { if (memcmp(a[i].data(), &nb.stardata[i], a[i].size())) { c.fail("star", "star %d changed when the array grew by %d", i, g); return; } if (sk->sink[i].radius != 10+i || sk->sink[i].menc != 20+i || sk->sink[i].istar != i) { c.fail("sink", "sink %d changed when the array grew by %d", i, g); return; } }
    if (nb.Nstarmax < n || nb.Nnbodymax != nb.Nstarmax+nb.Nsystemmax) { c.fail("room", "star room"); return; } c.step(); }
}
// whole runs with particles killed and created in the middle of steps, at the point where feedback adds particles
struct Live { double m; int type; };
template<int nd> struct Feeder : public SupernovaDriver<nd> {
  std::map<int, Live> live; std::string log, wrong; int op = 0, step = 0, calls = 0; double mnew, hnew; SimulationBase* sim; const char* method;
  Feeder(SimulationBase* s) : SupernovaDriver<nd>(s), sim(s) {}
  void kill(Hydrodynamics<nd>* h, int i) { Particle<nd>& p = h->GetParticlePointer(i); if (p.flags.is_dead()) return; live.erase(p.iorig); p.flags.set(dead); p.m = 0; log += " kill"; sim->rebuild_tree = true; }
  virtual void Update(const int, const int, const int, const FLOAT, Hydrodynamics<nd>* h, NeighbourSearch<nd>*, RandomNumber*) {
    calls++;
    if (op == 1 || op == 3) kill(h, (step*5+3)%h->Nhydro);
    if (op == 3) kill(h, h->Nhydro-1);
    if (op == 2 || op == 3) { double r[3] = {0.431+0.1*step, 0.517, 0.5}, v[3] = {0.05, 0, 0}; Particle<nd>& p = h->CreateNewParticle(gas_type, mnew, 1.0, r, v, sim); p.h = hnew; if (live.count(p.iorig)) wrong = "the new particle has the identifier of another"; live[p.iorig] = {p.m, p.ptype}; log += " create"; }
    op = 0;
  }
};
template<int nd> void run(Ctx& c, bool feed = false) {
  Quiet q; int m = feed ? 1 + c.choose(2, "method") : c.choose(3, "method"), L = c.choose(m == 2 ? 1 : 2, "block steps"), B = c.choose(3, "boundaries"); int nx = nd == 1 ? 16 : 8; int N = nd == 1 ? nx : nx*nx;
  sim::Opts o; for (int k=0;k<nd;k++) o.box(k, 0.0, 1.0, B == 0 ? "open" : B == 1 ? "periodic" : "mirror", B == 0 ? "open" : B == 1 ? "periodic" : "mirror"); o.I("Nlevels", L ? 3 : 1).F("courant_mult", 0.1).I("ntreebuildstep", c.pick({1, 3})).S("gas_eos", "energy_eqn").S("sim", METHODS[m]);
  sim::Sim<nd> X(METHODS[m], o, N, 0);
  for (int i=0;i<N;i++) { sim::Body b; for (int k=0;k<nd;k++) { int j = k == 0 ? i%nx : i/nx; b.r[k] = (j+0.5)/nx + 0.01*sin(3.0*i+k); b.v[k] = 0.2*sin(5.0*i+2*k); } b.m = 1.0/N*(1+0.1*sin(2.0*i)); b.h = 2.0/nx; b.u = 1; X.set(i, b); }
  Feeder<nd> F(X.sim); F.mnew = 1.0/N; F.hnew = 2.0/nx; X.sim->snDriver = &F;
  auto guarded = [&](auto f) { try { f(); } catch (GandalfError& e) { if (e.msg.find("too large") == std::string::npos) throw; c.prune(); } };
  guarded([&]{ X.setup(); }); Hydrodynamics<nd>& h = X.hydro(); for (int i=0;i<h.Nhydro;i++) F.live[h.GetParticlePointer(i).iorig] = {h.GetParticlePointer(i).m, h.GetParticlePointer(i).ptype}; c.interesting();
  if ((int) F.live.size() != N) { c.fail("run-identifiers", "%s: %d particles, %d identifiers", METHODS[m], N, (int) F.live.size()); return; }
  for (int s=0;s<(c.thorough ? 5 : 4);s++) {
    F.op = m == 0 ? c.choose(4, "during the step") : feed ? (s == 1 ? 2 : 0) : c.choose(2, "during the step"); F.step = s;
    guarded([&]{ X.step(); }); F.log += " step"; const char* log = F.log.c_str();
    if (F.wrong.size()) { c.fail("run-identifier", "%s %dD:%s: %s", METHODS[m], nd, log, F.wrong.c_str()); return; }
    std::map<int, Live> now; int dup = 0; for (int i=0;i<h.Nhydro;i++) { Particle<nd>& p = h.GetParticlePointer(i); if (p.flags.is_dead()) continue; dup += now.count(p.iorig); now[p.iorig] = {p.m, p.ptype}; if (!(p.rho > 0) || !std::isfinite(p.r[0]) || !std::isfinite(p.u)) { c.fail("run-state", "%s %dD:%s: particle %d has density %g, u %g, x %g", METHODS[m], nd, log, p.iorig, p.rho, p.u, p.r[0]); return; } }
    if (h.Nhydro > h.Nhydromax || h.Ntot > h.Nhydromax) { c.fail("run-capacity", "%s %dD:%s: %d particles and ghosts in room for %d", METHODS[m], nd, log, h.Ntot, h.Nhydromax); return; }
    if (dup || now.size() != F.live.size()) { c.fail("run-count", "%s %dD:%s: %d live particles (%d duplicates), expected %d", METHODS[m], nd, log, (int) now.size(), dup, (int) F.live.size()); return; }
    for (auto& x : F.live) if (!now.count(x.first) || (m == 0 && now[x.first].m != x.second.m) || now[x.first].type != x.second.type) { c.fail("run-mixed", "%s %dD:%s: particle %d was lost or changed", METHODS[m], nd, log, x.first); return; }
    c.step();
  }
}
SCENARIO(run1, 4, "1D runs of four (five) steps with particles killed / created during them: every choice x method x boundaries x block steps x tree interval") { run<1>(c); }
SCENARIO(run2, 4, "2D: the same") { run<2>(c); }
SCENARIO(feed, 3, "1D runs of the finite-volume methods in which feedback creates a particle") { run<1>(c, true); }
int main(int a, char** v) { return mc::main(a, v); }
