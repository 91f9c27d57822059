#define STEPS 2
#include "steps.hpp"
// global kick-drift-kick steps in a position-dependent force: reversing the velocities retraces the run; constant acceleration is exact
template<int nd> void reverse(Ctx& c) {
  int ty = 0, N = 1 + c.choose(3, "number"), steps = 1 + c.choose(c.thorough ? 60 : 24, "steps"), o = c.choose(4, "step"), sp = c.choose(3, "spring"); G.edges = 0; G.budget = 0; 
  static double fixed[4]; for (int k=0;k<4;k++) fixed[k] = OPT[o]; G.kspring = sp == 0 ? 10 : sp == 1 ? 300 : -20; 
  c.describe(fmt("%dD %s: %d particles, %d steps there and back, step %g, spring %g", nd, Run<nd>::tyname(ty), N, steps, OPT[o]*G.base, G.kspring));
  Run<nd> r(c, ty, N, 0, 1, 1, 0, 0, "none"); G.O = fixed; std::vector<std::array<double,3>> r0(N), v0(N); r.step(); for (int i=0;i<N;i++) for (int k=0;k<nd;k++) { r0[i][k] = r.S.part(i).r[k]; v0[i][k] = r.S.part(i).v[k]; }
  for (int n=0;n<steps && !c.failed;n++) r.step(); if (c.failed) return;
  for (int i=0;i<N;i++) { Particle<nd>& p = r.S.part(i); for (int k=0;k<nd;k++) { p.v[k] = -p.v[k]; p.v0[k] = -p.v0[k]; r.R[i].v[k] = p.v0[k]; } }
  for (int n=0;n<steps && !c.failed;n++) r.step(); if (c.failed) return;
  for (int i=0;i<N;i++) for (int k=0;k<nd;k++) { if (!c.near("reverse", "position after the return", r.S.part(i).r[k], r0[i][k], 1e-11, 1)) return; if (!c.near("reverse", "velocity after the return", r.S.part(i).v[k], -v0[i][k], 1e-10, 1)) return; }
  if (steps > 3) c.interesting();
}
SCENARIO(reverse1, 3, "kick-drift-kick runs there and back, 1D") { reverse<1>(c); }
SCENARIO(reverse3, 3, "kick-drift-kick runs there and back, 3D") { reverse<3>(c); }
int main(int a, char** v) { return mc::main(a, v); }
