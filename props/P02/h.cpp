#include "vh.h"
#include "vstd.h"
#include "propagator/propThetaXeon.h"

// Axion angle kernels in the folded layout: vector site (x, yc, z) holds in lane s the site (x, yc + s*YC, z).
template<typename F> struct P_ { static const int sh = 32/sizeof(F); static const FieldPrecision p = sizeof(F) == 8 ? FIELD_DOUBLE : FIELD_SINGLE; };

static bool emptyRange;    // only the frame of a call with no slice to update
struct K { long sh, Lx, YC, XC, Sf, Ng, Lz, n3, v3, z0, zF; unsigned bX, bY, bZ; PropParms pp; double dz, c, d; double PC[5]; };

template<typename F> static void setup(K &k, int Ng) {
  k.sh = P_<F>::sh; k.Ng = Ng;
  k.YC = v_int("YC", 2*Ng, 1 << 10, 2*Ng, 2*Ng + 2); k.Lx = k.YC*k.sh; k.XC = k.Lx*k.sh; k.Sf = k.Lx*k.Lx;
  k.Lz = v_int("Lz", 1, 1 << 12, 1, 4);
  k.n3 = k.Sf*k.Lz; k.v3 = k.n3 + 2*k.Ng*k.Sf;
  k.z0 = v_int("z0", Ng, 1 << 13, Ng, Ng + 2); k.zF = v_int("zF", 0, 1 << 13, Ng, Ng + 4);
  if (emptyRange) v_assume(k.zF >= Ng && k.zF < k.z0 && k.z0 <= k.Lz + Ng); else v_assume(k.z0 <= k.zF && k.zF <= k.Lz + Ng);
  k.bX = 4; k.bY = v_int("bSizeY", 1, 1 << 10, 1, 6); k.bZ = v_int("bSizeZ", 1, 1 << 10, 1, 4);
  k.pp = PropParms();
  k.pp.Ng = Ng; k.pp.Lx = k.Lx; k.pp.PC = k.PC;
  for (int i = 0; i < Ng; i++) k.PC[i] = v_realx("PC");
  k.pp.ood2a = v_realx("ood2"); k.pp.R = v_realn("R", 0.01, 1e6, 0.5, 3); k.pp.Rpp = v_realx("Rpp"); k.pp.massA2 = v_realx("mA2");
  k.dz = v_realx("dz"); k.c = v_realx("c"); k.d = v_realx("d");
}
// value at site (x, y = yc + s*YC, z) of a folded array; any x, yc within one period outside of the grid
template<typename F> static F at(const F *m, const K &k, long x, long yc, long s, long z) {
  if (x < 0) x += k.Lx; else if (x >= k.Lx) x -= k.Lx;
  if (yc < 0) { yc += k.YC; s = (s + k.sh - 1) % k.sh; } else if (yc >= k.YC) { yc -= k.YC; s = (s + 1) % k.sh; }
  return m[z*k.Sf + yc*k.XC + x*k.sh + s];
}
#ifdef V_SYM
extern "C" double v_mod(double x, double md);
#else
static bool nearTie;     // rounding may choose either representative there
static double v_mod(double x, double md) { if (fabs(fabs(2*x) - md) < 1e-3*md) nearTie = true; return 2*x < -md ? x + md : 2*x > md ? x - md : x; }
#endif
template<typename F, int Ng> static void theta(VqcdType V, int pot, bool wMod) {
  K k; setup<F>(k, Ng);
  F *m = v_array<F>("m", k.v3), *v = v_array<F>("v", k.n3), *m2 = v_array<F>("m2", k.v3);
  F *v0 = v_snap(v, k.n3), *s0 = v_snap(m2, k.v3);
  propThetaKernelXeon(m, v, m2, k.pp, k.dz, k.c, k.d, k.z0*k.Sf, k.zF*k.Sf, P_<F>::p, k.bX, k.bY, k.bZ, wMod, V);
  v_cover("kernel returns");
  for (int s = 0; s < k.sh; s++) V_FORALL(z, k.z0, k.zF) V_FORALL(yc, 0, k.YC) V_FORALL(x, 0, k.Lx) {
    double M = at(m, k, x, yc, s, z), lap = 0;
    double tp = sizeof(F) == 8 ? 2*M_PI*k.pp.R : (double) (float) (2.*M_PI*(float) k.pp.R);
    for (int n = 1; n <= Ng; n++) if (wMod)
      lap += (v_mod(double(at(m, k, x + n, yc, s, z)) - M, tp) + v_mod(at(m, k, x - n, yc, s, z) - M, tp) + v_mod(at(m, k, x, yc + n, s, z) - M, tp) + v_mod(at(m, k, x, yc - n, s, z) - M, tp)
             + v_mod(at(m, k, x, yc, s, z + n) - M, tp) + v_mod(at(m, k, x, yc, s, z - n) - M, tp))*(k.PC[n-1]*k.pp.ood2a);
    else
      lap += (double(at(m, k, x + n, yc, s, z)) + at(m, k, x - n, yc, s, z) + at(m, k, x, yc + n, s, z) + at(m, k, x, yc - n, s, z)
             + at(m, k, x, yc, s, z + n) + at(m, k, x, yc, s, z - n) - 6*M)*(k.PC[n-1]*k.pp.ood2a);
    double R = k.pp.R, pt = pot == 0 ? 0 : pot == 1 ? sin(M*(1/R)) : M*(1/R);
    double acc = lap - k.pp.massA2*R*R*R*pt + k.pp.Rpp*M;
    long i = z*k.Sf + yc*k.XC + x*k.sh + s;
    double vn = v0[i - Ng*k.Sf] + acc*(k.dz*k.c);
    double mn = M + vn*(k.dz*k.d); if (wMod) mn = v_mod(mn, tp);
#ifndef V_SYM
    if (nearTie) { nearTie = false; continue; }
#endif
    if (sizeof(F) == 8) {
      V_EQ(v[i - Ng*k.Sf], vn, "velocity kicked by dz*c times (laplacian - mA2 R^3 V' + R''/R psi)");
      V_EQ(m2[i], mn, "field drifted by dz*d times the new velocity");
    } else {
      V_EQF(v[i - Ng*k.Sf], vn, "velocity kicked by dz*c times (laplacian - mA2 R^3 V' + R''/R psi)");
      V_EQF(m2[i], mn, "field drifted by dz*d times the new velocity");
    }
  }
  V_FORALL(zb, 0, k.z0 - Ng) V_FORALL(r, 0, k.Sf) V_EQ(v[zb*k.Sf + r], v0[zb*k.Sf + r], "velocities before the updated range are kept");
  V_FORALL(za, k.zF - Ng, k.Lz) V_FORALL(r, 0, k.Sf) V_EQ(v[za*k.Sf + r], v0[za*k.Sf + r], "velocities after the updated range are kept");
  V_FORALL(mb, 0, k.z0) V_FORALL(r, 0, k.Sf) V_EQ(m2[mb*k.Sf + r], s0[mb*k.Sf + r], "target field before the updated range is kept");
  V_FORALL(ma, k.zF, k.Lz + 2*Ng) V_FORALL(r, 0, k.Sf) V_EQ(m2[ma*k.Sf + r], s0[ma*k.Sf + r], "target field after the updated range is kept");
}
template<typename F> static void thetaN(int Ng, VqcdType V, int pot, bool w) {
  switch (Ng) { case 1: theta<F,1>(V, pot, w); break; case 2: theta<F,2>(V, pot, w); break; case 3: theta<F,3>(V, pot, w); break; case 4: theta<F,4>(V, pot, w); break; case 5: theta<F,5>(V, pot, w); break; }
}
// cfg = Ng + 10*precision + 100*potential + 1000*wrapped differences
V_ENTRY(h_theta) {
  int Ng = cfg%10, pr = cfg/10%10, pot = cfg/100%10; bool w = cfg >= 1000;
  VqcdType V = pot == 0 ? V_QCD0 : pot == 1 ? V_QCDC : pot == 2 ? V_QCDL : V_QCD1; int p = pot == 3 ? 1 : pot;
  if (pr == 0) thetaN<double>(Ng, V, p, w); else thetaN<float>(Ng, V, p, w);
}

// a range with no slice changes nothing
V_ENTRY(h_empty) {
  emptyRange = true;
  if (cfg == 0) thetaN<double>(1, V_QCD1, 1, false); else if (cfg == 1) thetaN<float>(1, V_QCDC, 1, false); else thetaN<double>(1, V_QCDC, 1, true);
  emptyRange = false;
}

// the period wrap used by the wrapped kernels: x, x + md or x - md, whichever is smallest in magnitude
V_ENTRY(h_mod) {
  double md = v_realn("md", 0.01, 1e6, 0.01, 2);
  if (cfg == 0) {
    double *x = v_array<double>("x", 4), r[4];
    for (int i = 0; i < 4; i++) v_assume(2*x[i] != md && 2*x[i] != -md);
    __m256d a = _mm256_loadu_pd(x), d = _mm256_set1_pd(md);
    _mm256_storeu_pd(r, _mm256_mod_pd(a, d));
    v_cover("wrap returns");
    for (int i = 0; i < 4; i++) V_EQ(r[i], (2*x[i] < -md ? x[i] + md : 2*x[i] > md ? x[i] - md : x[i]), "the wrapped difference is the representative of smallest magnitude among x - md, x, x + md");
  } else {
    float *x = v_array<float>("x", 8), r[8], mf = md;
    for (int i = 0; i < 8; i++) v_assume(2*x[i] != mf && 2*x[i] != -mf);
    __m256 a = _mm256_loadu_ps(x), d = _mm256_set1_ps(mf);
    _mm256_storeu_ps(r, _mm256_mod_ps(a, d));
    v_cover("wrap returns");
    for (int i = 0; i < 8; i++) V_EQF(r[i], (2*x[i] < -mf ? x[i] + mf : 2*x[i] > mf ? x[i] - mf : x[i]), "the wrapped difference is the representative of smallest magnitude among x - md, x, x + md");
  }
}
