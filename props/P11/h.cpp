#include "vh.h"
#include "vstd.h"
#include "utils/parse.h"
#include "propagator/propNaxXeon.h"
#include "propagator/propPaxXeon.h"

// Non-relativistic kernels in the folded layout: vector site (x, yc, z) holds in lane s the site (x, yc + s*YC, z).
// Naxion: one array of complex amplitudes; Paxion: real part in m, imaginary part in v, both with ghost zones.
static bool emptyRange;    // only the frame of a call with no slice to update
struct K { long cx, sh, Lx, YC, XC, Sf, Ng, Lz, n3, v3, z0, zF; unsigned bX, bY, bZ; PropParms pp; double dz, c, d; double PC[5]; };

template<typename F> static void setup(K &k, int Ng, int cx, bool lap) {
  k.cx = cx; k.sh = 32/sizeof(F)/cx; k.Ng = Ng;
  long w = lap ? 2*Ng : 1;
  k.YC = v_int("YC", w, 1 << 10, w, w + 2); k.Lx = k.YC*k.sh; k.XC = k.Lx*k.sh; k.Sf = k.Lx*k.Lx;
  k.Lz = v_int("Lz", 1, 1 << 12, 1, 4);
  k.n3 = k.Sf*k.Lz; k.v3 = k.n3 + 2*k.Ng*k.Sf;
  k.z0 = v_int("z0", Ng, 1 << 13, Ng, Ng + 2); k.zF = v_int("zF", 0, 1 << 13, Ng, Ng + 4);
  if (emptyRange) v_assume(k.zF >= Ng && k.zF < k.z0 && k.z0 <= k.Lz + Ng); else v_assume(k.z0 <= k.zF && k.zF <= k.Lz + Ng);
  k.bX = 4; k.bY = v_int("bSizeY", 1, 1 << 10, 1, 6); k.bZ = v_int("bSizeZ", 1, 1 << 10, 1, 4);
  k.pp = PropParms();
  k.pp.Ng = Ng; k.pp.Lx = k.Lx; k.pp.PC = k.PC;
  for (int i = 0; i < Ng; i++) k.PC[i] = v_realn("PC", -1e300, 1e300, -0.3, 0.3);
  k.pp.ood2a = v_realn("ood2", -1e300, 1e300, -1, 1); k.pp.R = v_realn("R", 0.01, 1e6, 0.5, 2); k.pp.massA = v_realn("mA", 0.01, 1e6, 0.5, 2);
  k.pp.beta = v_realn("beta", -1e300, 1e300, -0.5, 0.5); k.pp.ct = v_realn("ct", 0.01, 1e6, 0.5, 3); k.dz = v_realn("dz", 0, 1e6, 0.01, 0.5); k.c = v_realx("c"); k.d = v_realn("d", 0, 10, 0, 1);
}
// component c of the value at site (x, yc + s*YC, z) of a folded array; any x, yc within one period outside of the grid
template<typename F> static double at(const F *m, const K &k, long x, long yc, long s, long z, int c) {
  if (x < 0) x += k.Lx; else if (x >= k.Lx) x -= k.Lx;
  if (yc < 0) { yc += k.YC; s = (s + k.sh - 1) % k.sh; } else if (yc >= k.YC) { yc -= k.YC; s = (s + 1) % k.sh; }
  return m[k.cx*(z*k.Sf + yc*k.XC + x*k.sh + s) + c];
}
// order-2Ng discrete Laplacian, times the squared inverse of the lattice spacing
template<typename F> static double laplacian(const F *m, const K &k, long x, long yc, long s, long z, int c) {
  double l = 0;
  for (int n = 1; n <= k.Ng; n++)
    l += (at(m, k, x + n, yc, s, z, c) + at(m, k, x - n, yc, s, z, c) + at(m, k, x, yc + n, s, z, c) + at(m, k, x, yc - n, s, z, c)
          + at(m, k, x, yc, s, z + n, c) + at(m, k, x, yc, s, z - n, c) - 6*at(m, k, x, yc, s, z, c))*k.PC[n-1];
  return l*k.pp.ood2a;
}
// integral of dt/R(t)^2 from ct to ct + h in a background R ~ t^frw
static double rot(const K &k, double h) {
  double u = 2*k.pp.frw - 1, t = k.pp.ct, R2 = k.pp.R*k.pp.R;
  if (u == 0) return t/R2*log(1 + h/t);
  return t/R2/u*(1 - pow(t, u)/pow(t + h, u));
}
// integral of dt/(mA R) from ct to ct + h when mA R ~ t^n
static double disp(const K &k, double h) {
  double a = k.pp.n - 1, t = k.pp.ct, mR = k.pp.massA*k.pp.R;
  if (a == 0) return t/mR*log(1 + h/t);
  return t/mR/a*(1 - pow(1 + h/t, -a));
}
#define EQ(a, b, l) { if (sizeof(F) == 8) V_EQ(a, b, l); else V_EQF(a, b, l); }
template<typename F> static void kept(const K &k, const F *a, const F *b, bool all) {
  V_FORALL(zb, 0, all ? k.Lz + 2*k.Ng : k.z0) V_FORALL(r, 0, k.cx*k.Sf) V_EQ(a[zb*k.cx*k.Sf + r], b[zb*k.cx*k.Sf + r], "slices before the updated range are kept");
  if (!all) V_FORALL(za, k.zF, k.Lz + 2*k.Ng) V_FORALL(r, 0, k.cx*k.Sf) V_EQ(a[za*k.cx*k.Sf + r], b[za*k.cx*k.Sf + r], "slices after the updated range are kept");
}

template<typename F, int Ng> static void nax(double frw) {
  K k; setup<F>(k, Ng, 2, true); k.pp.frw = frw;
  F *m = v_array<F>("m", 2*k.v3), *m2 = v_array<F>("m2", 2*k.v3), *v = v_array<F>("v", 16);
  F *s0 = v_snap(m2, 2*k.v3), *m0 = v_snap(m, 2*k.v3);
  propagateNaxKernelXeon<V_QCD1_PQ1>(m, v, m2, k.pp, k.dz, k.c, k.d, k.z0*k.Sf, k.zF*k.Sf, sizeof(F) == 8 ? FIELD_DOUBLE : FIELD_SINGLE, k.bX, k.bY, k.bZ);
  v_cover("kernel returns");
  double lc = k.dz*k.d/(2*k.pp.massA*k.pp.R), rc = k.pp.beta/4*rot(k, k.dz*k.d);
  for (int s = 0; s < k.sh; s++) V_FORALL(z, k.z0, k.zF) V_FORALL(yc, 0, k.YC) V_FORALL(x, 0, k.Lx) {
    double mr = at(m, k, x, yc, s, z, 0), mi = at(m, k, x, yc, s, z, 1);
    double pr = mr - lc*laplacian(m, k, x, yc, s, z, 1), pi = mi + lc*laplacian(m, k, x, yc, s, z, 0);     // P + i lc lap P
    double ph = rc*(pr*pr + pi*pi);
    long i = 2*(z*k.Sf + yc*k.XC + x*k.sh + s);
    EQ(m2[i], pr*cos(ph) - pi*sin(ph), "real part: dispersed by the laplacian, then rotated by the self-interaction");
    EQ(m2[i + 1], pi*cos(ph) + pr*sin(ph), "imaginary part: dispersed by the laplacian, then rotated by the self-interaction");
  }
  kept(k, m2, s0, false); kept(k, m, m0, true);
}
template<typename F, int Ng, KickDriftType T> static void pax(double frw, double n, int sign) {
  K k; setup<F>(k, Ng, 1, T == KIDI_LAP); k.pp.frw = frw; k.pp.n = n; k.pp.sign = sign; k.pp.grav = v_realx("grav");
  F *m = v_array<F>("m", k.v3), *v = v_array<F>("v", k.v3), *m2 = v_array<F>("m2", k.v3);
  F *m0 = v_snap(m, k.v3), *v0 = v_snap(v, k.v3), *s0 = v_snap(m2, k.v3);
  propagatePaxKernelXeon<T>(m, v, m2, k.pp, k.dz, k.z0*k.Sf, k.zF*k.Sf, sizeof(F) == 8 ? FIELD_DOUBLE : FIELD_SINGLE, k.bX, k.bY, k.bZ);
  v_cover("kernel returns");
  double lc = sign*disp(k, k.dz)/2, rc = sign*k.pp.beta/8*rot(k, k.dz), gc = -k.pp.massA*k.pp.grav*k.dz;
  for (int s = 0; s < k.sh; s++) V_FORALL(z, k.z0, k.zF) V_FORALL(yc, 0, k.YC) V_FORALL(x, 0, k.Lx) {
    long i = z*k.Sf + yc*k.XC + x*k.sh + s;
    if (T == KIDI_LAP) {
      EQ(v[i], v0[i] + lc*laplacian(m0, k, x, yc, s, z, 0), "one part kicked by the laplacian of the other");
    } else {
      double mr = m0[i], mi = v0[i], ph = rc*(mr*mr + mi*mi) + (T == KIDI_POT_GRAV ? gc*m2[i] : 0);
      EQ(m[i], mr*cos(ph) - mi*sin(ph), "real part rotated by the self-interaction and gravity");
      EQ(v[i], mi*cos(ph) + mr*sin(ph), "imaginary part rotated by the self-interaction and gravity");
    }
  }
  kept(k, v, v0, false); kept(k, m, m0, T == KIDI_LAP); kept(k, m2, s0, true);
}
template<typename F> static void naxN(int Ng, double w) { switch (Ng) { case 1: nax<F,1>(w); break; case 2: nax<F,2>(w); break; case 3: nax<F,3>(w); break; case 4: nax<F,4>(w); break; case 5: nax<F,5>(w); break; } }
template<typename F> static void lapN(int Ng, double w, double n, int s) { switch (Ng) { case 1: pax<F,1,KIDI_LAP>(w, n, s); break; case 2: pax<F,2,KIDI_LAP>(w, n, s); break; case 3: pax<F,3,KIDI_LAP>(w, n, s); break; case 4: pax<F,4,KIDI_LAP>(w, n, s); break; case 5: pax<F,5,KIDI_LAP>(w, n, s); break; } }
// background exponent: 0 any but 1/2, 1 exactly 1/2
static double frwOf(int c) { if (c) return 0.5; double f = v_realn("frw", 0.51, 6, 0.6, 3); return f; }
// cfg = Ng + 10*single + 100*(frw = 1/2)
V_ENTRY(h_nax) { double w = frwOf(cfg/100); if (cfg/10%10) naxN<float>(cfg%10, w); else naxN<double>(cfg%10, w); }
// cfg = Ng + 10*single + 100*(0 general, 1 mass times scale factor grows linearly) + 1000*(negative sign)
V_ENTRY(h_lap) {
  double n = cfg/100%10 ? 1. : v_realn("n", 1.01, 20, 1.1, 5); int s = cfg/1000 ? -1 : 1;
  if (cfg/10%10) lapN<float>(cfg%10, 1.5, n, s); else lapN<double>(cfg%10, 1.5, n, s);
}
// cfg = gravity + 10*single + 100*(frw = 1/2)
V_ENTRY(h_pot) {
  double w = frwOf(cfg/100);
  if (cfg%10) { if (cfg/10%10) pax<float,1,KIDI_POT_GRAV>(w, 2, 1); else pax<double,1,KIDI_POT_GRAV>(w, 2, 1); }
  else { if (cfg/10%10) pax<float,2,KIDI_POT>(w, 2, 1); else pax<double,2,KIDI_POT>(w, 2, 1); }
}
V_ENTRY(h_empty) {
  emptyRange = true;
  switch (cfg) { case 0: naxN<double>(1, 1.5); break; case 1: naxN<float>(1, 1.5); break; case 2: lapN<double>(1, 1.5, 2, 1); break; case 3: pax<float,1,KIDI_POT>(1.5, 2, 1); break; }
  emptyRange = false;
}
