// sim.hpp - drives the real simulation objects of GANDALF through the same entry points as the Python interface
// (SimulationFactory -> PreSetupForPython -> fill particle arrays -> SetupSimulation -> MainLoop).
#ifndef MC_SIM_HPP
#define MC_SIM_HPP
#include <exception>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include "Exception.h"
#include "mc.hpp"
#include "Simulation.h"
#include "Parameters.h"
#include "SimUnits.h"
#include "Hydrodynamics.h"
#include "Sph.h"
#include "MeshlessFV.h"
#include "Nbody.h"
#include "NbodySystemTree.h"
#include "Sinks.h"
#include "Ewald.h"
#include "CodeTiming.h"
#include "Particle.h"
// memory that was never set is visible: it reads as not-a-number, as it may in any run
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xFF, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
// The column-density table (rendering only, decided by C18/C26) takes 0.15 s to fill in every simulation object: left out here.
extern "C" {
void sim_no_los1(void*) asm("_ZN15TabulatedKernelILi1EE18initializeTableLOSEv"); void sim_no_los1(void*) {}
void sim_no_los2(void*) asm("_ZN15TabulatedKernelILi2EE18initializeTableLOSEv"); void sim_no_los2(void*) {}
void sim_no_los3(void*) asm("_ZN15TabulatedKernelILi3EE18initializeTableLOSEv"); void sim_no_los3(void*) {}
}
namespace sim {
inline std::string& base() { static std::string b = [] { char x[4096]; return std::string(getcwd(x, sizeof x)); }(); return b; }
static std::string base_init = base();
// every worker process runs in a directory of its own below the scratch directory the harness was started in
inline void scratch() {
  static pid_t mine = 0; if (mine == getpid()) return; mine = getpid();
  char d[512]; snprintf(d, sizeof d, "%s/w%d", base().c_str(), (int) mine); mkdir(d, 0755); if (chdir(d)) abort();
}
inline void boot() { static pid_t b = 0; if (b != getpid()) { if (!b) ExceptionHandler::makeExceptionHandler(python); b = getpid(); } }

struct Opts {
  std::map<std::string,std::string> s; std::map<std::string,int> i; std::map<std::string,double> f;
  Opts& S(const char* k, const std::string& v) { s[k] = v; return *this; }
  Opts& I(const char* k, int v) { i[k] = v; return *this; }
  Opts& F(const char* k, double v) { f[k] = v; return *this; }
  template<class A> Opts& box(int k, const A& lo, const A& hi, const char* bl, const char* br) {
    char n[64];
    snprintf(n, 64, "boxmin[%d]", k); f[n] = lo; snprintf(n, 64, "boxmax[%d]", k); f[n] = hi;
    snprintf(n, 64, "boundary_lhs[%d]", k); s[n] = bl; snprintf(n, 64, "boundary_rhs[%d]", k); s[n] = br; return *this;
  }
};
struct Body { double r[3], v[3], m, h, u; int ptype; Body() { for (int k=0;k<3;k++) r[k]=v[k]=0; m=1; h=0; u=1; ptype=gas_type; } };

template<int nd> struct Sim {
  Parameters P; Simulation<nd>* sim = nullptr; bool own = true;
  Sim(const char* type, const Opts& o, int Nh, int Ns) {
    boot(); scratch();
    P.stringparams["ic"] = "python"; P.intparams["dimensionless"] = 1;
    P.stringparams["run_id"] = "MC"; P.stringparams["out_file_form"] = "su";
    P.floatparams["tsnapfirst"] = 1e30; P.floatparams["dt_snap"] = 1e30; P.floatparams["tend"] = 1e30;
    P.intparams["tabulated_kernel"] = 0; P.intparams["noutputstep"] = 1 << 30; P.intparams["ndiagstep"] = 1 << 30; P.intparams["nrestartstep"] = 1 << 30;
    P.floatparams["tmax_wallclock"] = 1e30;
    P.intparams["Nhydro"] = Nh; P.intparams["Nstar"] = Ns;
    for (auto& x : o.s) P.stringparams[x.first] = x.second;
    for (auto& x : o.i) P.intparams[x.first] = x.second;
    for (auto& x : o.f) P.floatparams[x.first] = x.second;
    SimulationBase* b = SimulationBase::SimulationFactory(nd, type, &P);
    sim = static_cast<Simulation<nd>*>(b);
    sim->PreSetupForPython();
  }
  Hydrodynamics<nd>& hydro() { return *sim->hydro; }
  Nbody<nd>& nbody() { return *sim->nbody; }
  Particle<nd>& part(int i) { return sim->hydro->GetParticlePointer(i); }
  StarParticle<nd>& star(int i) { return sim->nbody->stardata[i]; }
  void set(int i, const Body& b) {
    Particle<nd>& p = part(i);
    for (int k=0; k<nd; k++) { p.r[k] = b.r[k]; p.v[k] = b.v[k]; }
    p.m = b.m; p.h = b.h; p.u = b.u; p.ptype = b.ptype;
  }
  void setstar(int i, const Body& b) {
    StarParticle<nd>& p = star(i);
    for (int k=0; k<nd; k++) { p.r[k] = b.r[k]; p.v[k] = b.v[k]; }
    p.m = b.m; p.h = b.h; p.invh = b.h > 0 ? 1/b.h : 0;
  }
  void setup() { sim->SetupSimulation(); }
  void step() { sim->MainLoop(); }
};
} // namespace sim
#endif
