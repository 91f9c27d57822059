// nbref.hpp - independent reference for small stellar systems: direct sums and Taylor series in extended precision.
#ifndef NBREF_HPP
#define NBREF_HPP
#include <vector>
#include <cmath>
namespace nbref {
typedef long double ld;
// M4 (cubic spline) softening, argument q=r/h: force factor F(q) (a = m F(q)/h^2 along r), potential and kernel
inline ld m4_grav(ld q) { if (q < 1) return 4*q/3 - 6*q*q*q/5 + q*q*q*q/2; if (q < 2) return 8*q/3 - 3*q*q + 6*q*q*q/5 - q*q*q*q/6 - 1/(15*q*q); return 1/(q*q); }
inline ld m4_pot(ld q) { if (q < 1) return 7.0L/5 - 2*q*q/3 + 3*q*q*q*q/10 - q*q*q*q*q/10; if (q < 2) return 8.0L/5 - 4*q*q/3 + q*q*q - 3*q*q*q*q/10 + q*q*q*q*q/30 - 1/(15*q); return 1/q; }
inline ld m4_w3(ld q) { ld s = 1/M_PIl; if (q < 1) return s*(1 - 1.5L*q*q + 0.75L*q*q*q); if (q < 2) return s*0.25L*(2-q)*(2-q)*(2-q); return 0; }
struct Star { ld m, h, r[3], v[3], a[3], j[3], s[3], c[3], pot; ld r0[3], v0[3], a0[3], j0[3], s0[3], tlast;
  Star() { m=h=pot=tlast=0; for (int k=0;k<3;k++) r[k]=v[k]=a[k]=j[k]=s[k]=c[k]=r0[k]=v0[k]=a0[k]=j0[k]=s0[k]=0; } };
typedef std::vector<Star> Sys;
// acceleration, jerk, potential of star i from all others
inline void force(const Sys& S, int i, int nd, bool soft, ld* a, ld* j, ld& pot) {
  pot = 0; for (int k=0;k<3;k++) a[k]=j[k]=0;
  for (size_t q=0; q<S.size(); q++) if ((int)q != i) {
    ld dr[3]={0,0,0}, dv[3]={0,0,0}, r2=0, rv=0;
    for (int k=0;k<nd;k++) { dr[k]=S[q].r[k]-S[i].r[k]; dv[k]=S[q].v[k]-S[i].v[k]; r2+=dr[k]*dr[k]; rv+=dr[k]*dv[k]; }
    ld r = sqrtl(r2), M = 1, W = 0, P = 1/r;
    if (soft) { ld h = (S[i].h+S[q].h)/2; M = m4_grav(r/h)*r2/(h*h); W = m4_w3(r/h)/(h*h*h); P = m4_pot(r/h)/h; }
    pot += S[q].m*P;
    for (int k=0;k<nd;k++) { a[k] += S[q].m*M*dr[k]/(r2*r); j[k] += S[q].m*(M/(r2*r)*(dv[k] - 3*rv/r2*dr[k]) + 4*M_PIl*W*rv/r2*dr[k]); }
  }
}
// snap of star i given everybody's current accelerations (point masses)
inline void snap(const Sys& S, int i, int nd, ld* s) {
  for (int k=0;k<3;k++) s[k]=0;
  for (size_t q=0; q<S.size(); q++) if ((int)q != i) {
    ld dr[3]={0,0,0}, dv[3]={0,0,0}, da[3]={0,0,0}, r2=0, rv=0, v2=0, ra=0;
    for (int k=0;k<nd;k++) { dr[k]=S[q].r[k]-S[i].r[k]; dv[k]=S[q].v[k]-S[i].v[k]; da[k]=S[q].a[k]-S[i].a[k]; r2+=dr[k]*dr[k]; rv+=dr[k]*dv[k]; v2+=dv[k]*dv[k]; ra+=dr[k]*da[k]; }
    // d2/dt2 of dr*r2^(-3/2)
    ld p = powl(r2, -1.5L), p1 = -3*rv/r2*p, p2 = -3*(v2+ra)/r2*p + 15*rv*rv/(r2*r2)*p;
    for (int k=0;k<nd;k++) s[k] += S[q].m*(da[k]*p + 2*dv[k]*p1 + dr[k]*p2);
  }
}
// Taylor coefficients of the point-mass problem: fills a, j, s, c of every star from r, v
inline void taylor(Sys& S, int nd) {
  const int O = 6; int N = S.size();
  std::vector<std::vector<std::vector<ld>>> x(N, std::vector<std::vector<ld>>(nd, std::vector<ld>(O+1, 0.0L)));
  for (int i=0;i<N;i++) for (int k=0;k<nd;k++) { x[i][k][0]=S[i].r[k]; x[i][k][1]=S[i].v[k]; }
  for (int n=0; n<=3; n++) {         // x[n+2] = acc[n]/((n+1)(n+2))
    std::vector<std::vector<ld>> acc(N, std::vector<ld>(nd, 0.0L));
    for (int i=0;i<N;i++) for (int q=0;q<N;q++) if (q!=i) {
      std::vector<ld> r2(n+1, 0.0L), p(n+1, 0.0L); std::vector<std::vector<ld>> d(nd, std::vector<ld>(n+1));
      for (int k=0;k<nd;k++) for (int m=0;m<=n;m++) d[k][m] = x[q][k][m]-x[i][k][m];
      for (int m=0;m<=n;m++) for (int k=0;k<nd;k++) for (int l=0;l<=m;l++) r2[m] += d[k][l]*d[k][m-l];
      p[0] = powl(r2[0], -1.5L);
      for (int m=1;m<=n;m++) { ld t=0; for (int l=1;l<=m;l++) t += (-1.5L*l - (m-l))*r2[l]*p[m-l]; p[m] = t/(m*r2[0]); }
      for (int k=0;k<nd;k++) for (int l=0;l<=n;l++) acc[i][k] += S[q].m*d[k][l]*p[n-l];
    }
    for (int i=0;i<N;i++) for (int k=0;k<nd;k++) x[i][k][n+2] = acc[i][k]/((n+1)*(n+2));
  }
  for (int i=0;i<N;i++) for (int k=0;k<nd;k++) { S[i].a[k]=2*x[i][k][2]; S[i].j[k]=6*x[i][k][3]; S[i].s[k]=24*x[i][k][4]; S[i].c[k]=120*x[i][k][5]; }
}
// classical RK4 in extended precision
inline void rk4(Sys& S, int nd, bool soft, ld T, int n) {
  int N = S.size(); ld h = T/n; std::vector<ld> y(6*N), k1(6*N), k2(6*N), k3(6*N), k4(6*N), z(6*N);
  auto rhs = [&](const std::vector<ld>& Y, std::vector<ld>& D) {
    for (int i=0;i<N;i++) for (int k=0;k<3;k++) { S[i].r[k]=Y[6*i+k]; S[i].v[k]=Y[6*i+3+k]; }
    for (int i=0;i<N;i++) { ld a[3], j[3], p; force(S, i, nd, soft, a, j, p); for (int k=0;k<3;k++) { D[6*i+k]=Y[6*i+3+k]; D[6*i+3+k]=a[k]; } } };
  for (int i=0;i<N;i++) for (int k=0;k<3;k++) { y[6*i+k]=S[i].r[k]; y[6*i+3+k]=S[i].v[k]; }
  for (int s=0;s<n;s++) {
    rhs(y,k1); for (int i=0;i<6*N;i++) z[i]=y[i]+h/2*k1[i];
    rhs(z,k2); for (int i=0;i<6*N;i++) z[i]=y[i]+h/2*k2[i];
    rhs(z,k3); for (int i=0;i<6*N;i++) z[i]=y[i]+h*k3[i];
    rhs(z,k4); for (int i=0;i<6*N;i++) y[i]+=h/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]);
  }
  for (int i=0;i<N;i++) for (int k=0;k<3;k++) { S[i].r[k]=y[6*i+k]; S[i].v[k]=y[6*i+3+k]; }
}
} // namespace
#endif
