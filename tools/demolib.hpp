// drives the real simulation objects the way the Python interface does
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <exception>
#include <stdexcept>
#include "Exception.h"
#include "Simulation.h"
#include "Parameters.h"
#include "SimUnits.h"
#include "Hydrodynamics.h"
#include "Sph.h"
#include "MeshlessFV.h"
#include "Nbody.h"
#include "NbodySystemTree.h"
#include "Sinks.h"
#include "Ewald.h"
#include "Particle.h"
inline void boot() { static bool b = false; if (!b) ExceptionHandler::makeExceptionHandler(python); b = true; }
struct Opts {
  std::map<std::string,std::string> s; std::map<std::string,int> i; std::map<std::string,double> f;
  Opts& S(const char* k, const std::string& v) { s[k] = v; return *this; }
  Opts& I(const char* k, int v) { i[k] = v; return *this; }
  Opts& F(const char* k, double v) { f[k] = v; return *this; }
  Opts& box(int k, double lo, double hi, const char* bl, const char* br) {
    char n[64];
    snprintf(n, 64, "boxmin[%d]", k); f[n] = lo; snprintf(n, 64, "boxmax[%d]", k); f[n] = hi;
    snprintf(n, 64, "boundary_lhs[%d]", k); s[n] = bl; snprintf(n, 64, "boundary_rhs[%d]", k); s[n] = br; return *this;
  }
};
struct Body { double r[3], v[3], m, h, u; int ptype; Body() { for (int k=0;k<3;k++) r[k]=v[k]=0; m=1; h=0; u=1; ptype=gas_type; } };
template<int nd> struct Sim {
  Parameters P; Simulation<nd>* sim;
  Sim(const char* type, const Opts& o, int Nh, int Ns) {
    boot();
    P.stringparams["ic"] = "python"; P.intparams["dimensionless"] = 1; P.stringparams["run_id"] = "DEMO"; P.stringparams["out_file_form"] = "su";
    P.floatparams["tsnapfirst"] = 1e30; P.floatparams["dt_snap"] = 1e30; P.floatparams["tend"] = 1e30;
    P.intparams["tabulated_kernel"] = 0; P.intparams["noutputstep"] = 1 << 30; P.intparams["ndiagstep"] = 1 << 30; P.intparams["nrestartstep"] = 1 << 30;
    P.floatparams["tmax_wallclock"] = 1e30; P.intparams["Nhydro"] = Nh; P.intparams["Nstar"] = Ns;
    for (auto& x : o.s) P.stringparams[x.first] = x.second;
    for (auto& x : o.i) P.intparams[x.first] = x.second;
    for (auto& x : o.f) P.floatparams[x.first] = x.second;
    sim = static_cast<Simulation<nd>*>(SimulationBase::SimulationFactory(nd, type, &P));
    sim->PreSetupForPython();
  }
  Hydrodynamics<nd>& hydro() { return *sim->hydro; }
  Nbody<nd>& nbody() { return *sim->nbody; }
  Particle<nd>& part(int i) { return sim->hydro->GetParticlePointer(i); }
  StarParticle<nd>& star(int i) { return sim->nbody->stardata[i]; }
  void set(int i, const Body& b) { Particle<nd>& p = part(i); for (int k=0; k<nd; k++) { p.r[k] = b.r[k]; p.v[k] = b.v[k]; } p.m = b.m; p.h = b.h; p.u = b.u; p.ptype = b.ptype; }
  void setstar(int i, const Body& b) { StarParticle<nd>& p = star(i); for (int k=0; k<nd; k++) { p.r[k] = b.r[k]; p.v[k] = b.v[k]; } p.m = b.m; p.h = b.h; p.invh = b.h > 0 ? 1/b.h : 0; }
  void setup() { sim->SetupSimulation(); }
  void step() { sim->MainLoop(); }
};
#define EXPECT(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); return 1; } } while (0)
