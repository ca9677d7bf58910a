#include "vh.h"
#include "vstd.h"
#include "propagator/propXeon.h"

// Complex scalar kernels in the folded layout: vector site (x, yc, z) holds in lane s the complex site (x, yc + s*YC, z).
template<typename F> struct P_ { static const int sh = 16/sizeof(F); static const FieldPrecision p = sizeof(F) == 8 ? FIELD_DOUBLE : FIELD_SINGLE; };
static bool emptyRange;    // only the frame of a call with no slice to update
struct K { long sh, Lx, YC, XC, Sf, Ng, Lz, n3, v3, z0, zF; unsigned bX, bY, bZ; PropParms pp; double dz, c, d; double PC[5]; };

template<typename F> static void setup(K &k, int Ng) {
  k.sh = P_<F>::sh; k.Ng = Ng;
  k.YC = v_int("YC", 2*Ng, 1 << 10, 2*Ng, 2*Ng + 2); k.Lx = k.YC*k.sh; k.XC = k.Lx*k.sh; k.Sf = k.Lx*k.Lx;
  k.Lz = v_int("Lz", 1, 1 << 12, 1, 4);
  k.n3 = k.Sf*k.Lz; k.v3 = k.n3 + 2*k.Ng*k.Sf;
  k.z0 = v_int("z0", Ng, 1 << 13, Ng, Ng + 2); k.zF = v_int("zF", 0, 1 << 13, Ng, Ng + 4);
  if (emptyRange) v_assume(k.zF >= Ng && k.zF < k.z0 && k.z0 <= k.Lz + Ng); else v_assume(k.z0 <= k.zF && k.zF <= k.Lz + Ng);
  k.bX = 4; k.bY = v_int("bSizeY", 1, 1 << 10, 1, 6); k.bZ = v_int("bSizeZ", 1, 1 << 10, 1, 4);
  k.pp = PropParms();
  k.pp.Ng = Ng; k.pp.Lx = k.Lx; k.pp.PC = k.PC;
  for (int i = 0; i < Ng; i++) k.PC[i] = v_realx("PC");
  k.pp.ood2a = v_realx("ood2"); k.pp.R = v_realn("R", 0.01, 1e6, 0.5, 2); k.pp.Rpp = v_realx("Rpp"); k.pp.Rp = v_realx("Rp");
  k.pp.massA2 = v_realx("mA2"); k.pp.lambda = v_realx("lambda"); k.pp.gamma = v_realn("gamma", 0, 1e6, 0, 0.6); k.pp.dectime = v_realn("dectime", -1, 1e6, -1, 2);
  k.dz = v_realn("dz", 0, 1e6, 0, 0.9); k.c = v_realn("c", 0, 10, 0, 1); k.d = v_realx("d");
}
// component c of the value at site (x, yc + s*YC, z) of a folded array; any x, yc within one period outside of the grid
template<typename F> static double at(const F *m, const K &k, long x, long yc, long s, long z, int c) {
  if (x < 0) x += k.Lx; else if (x >= k.Lx) x -= k.Lx;
  if (yc < 0) { yc += k.YC; s = (s + k.sh - 1) % k.sh; } else if (yc >= k.YC) { yc -= k.YC; s = (s + 1) % k.sh; }
  return m[2*(z*k.Sf + yc*k.XC + x*k.sh + s) + c];
}
#define EQ(a, b, l) { if (sizeof(F) == 8) V_EQ(a, b, l); else V_EQF(a, b, l); }
struct C2 { double r, i; };

// the accelerated velocity at one site: what the equations of motion say
template<typename F, int V> static C2 kick(const K &k, const F *m, const F *v0, long x, long yc, long s, long z, bool low) {
  double mr = at(m, k, x, yc, s, z, 0), mi = at(m, k, x, yc, s, z, 1), ar = 0, ai = 0;
  long i = 2*((z - k.Ng)*k.Sf + yc*k.XC + x*k.sh + s);
  double vr = v0[i], vi = v0[i + 1];
  for (int c = 0; c < 2; c++) {
    double lap = 0;
    for (int n = 1; n <= k.Ng; n++)
      lap += (at(m, k, x + n, yc, s, z, c) + at(m, k, x - n, yc, s, z, c) + at(m, k, x, yc + n, s, z, c) + at(m, k, x, yc - n, s, z, c)
             + at(m, k, x, yc, s, z + n, c) + at(m, k, x, yc, s, z - n, c) - 6*(c ? mi : mr))*(k.PC[n-1]*k.pp.ood2a);
    (c ? ai : ar) = lap;
  }
  double R = k.pp.R, R2 = R*R, mA2 = k.pp.massA2, p2 = mr*mr + mi*mi, dzc = k.dz*k.c;
  if (!(V & V_EVOL_THETA)) {
    double f = k.pp.lambda*(p2 - R2) - k.pp.Rpp;
    ar -= mr*f; ai -= mi*f;
  }
  if (!(V & V_EVOL_RHO) || low) switch (V & V_QCD) {
    case V_QCD1: ar += mA2*R*R2; break;
    case V_QCD2: ar += mA2*R2/2*mr; ai -= mA2*R2/2*mi; break;
    case V_QCDC: case V_QCDL: { double q = mA2*R2*R2*mi/sqrt(p2*p2*p2); ar += q*mi; ai -= q*mr; } break;
  }
  if (V & V_EVOL_THETA) {            // only the angular part evolves
    double ta = (ai*mr - ar*mi)/p2, tv = (vi*mr - vr*mi)/p2;
    ar = -mi*ta + mr*k.pp.Rpp; ai = mr*ta + mi*k.pp.Rpp;
    vr = -mi*tv + mr*k.pp.Rp;  vi = mr*tv + mi*k.pp.Rp;
  }
  double G = k.pp.gamma/R; if (k.pp.dectime > 0) G *= R2/k.pp.dectime;
  double mola = G*dzc/2;
  C2 o;
  if ((V & V_DAMP) == V_DAMP_RHO) {
    double e = mola/(1 + mola)/p2*(2*(vr*mr + vi*mi - p2*k.pp.Rp) + (ar*mr + ai*mi)*dzc);
    o.r = vr + ar*dzc - e*mr; o.i = vi + ai*dzc - e*mi;
  } else if ((V & V_DAMP) == V_DAMP_ALL) {
    o.r = (vr*(1 - mola) + ar*dzc)/(1 + mola); o.i = (vi*(1 - mola) + ai*dzc)/(1 + mola);
  } else { o.r = vr + ar*dzc; o.i = vi + ai*dzc; }
  if (V & V_EVOL_RHO) {              // only the radial part evolves
    double r = (o.r*mr + o.i*mi)/p2;
    o.r = r*mr; o.i = r*mi;
  }
  return o;
}
#ifdef V_SYM
static bool tame(double, double) { return true; }
#else
static bool tame(double r, double i) { return r*r + i*i > 0.04; }     // rounding swamps the comparison near a zero of the field
#endif

template<typename F, int Ng, int V> static void prop(bool low) {
  K k; setup<F>(k, Ng);
  F *m = v_array<F>("m", 2*k.v3), *v = v_array<F>("v", 2*k.n3), *m2 = v_array<F>("m2", 2*k.v3);
  F *v0 = v_snap(v, 2*k.n3), *s0 = v_snap(m2, 2*k.v3);
  if (low) updateVXeon<(VqcdType) V>(m, v, k.pp, k.dz, k.c, k.z0*k.Sf, k.zF*k.Sf, P_<F>::p, k.bX, k.bY, k.bZ);
  else propagateKernelXeon<(VqcdType) V>(m, v, m2, k.pp, k.dz, k.c, k.d, k.z0*k.Sf, k.zF*k.Sf, P_<F>::p, k.bX, k.bY, k.bZ);
  v_cover("kernel returns");
  for (int s = 0; s < k.sh; s++) V_FORALL(z, k.z0, k.zF) V_FORALL(yc, 0, k.YC) V_FORALL(x, 0, k.Lx) {
    double mr = at(m, k, x, yc, s, z, 0), mi = at(m, k, x, yc, s, z, 1);
    if (!tame(mr, mi)) continue;
    C2 e = kick<F, V>(k, m, v0, x, yc, s, z, low);
    long i = 2*(z*k.Sf + yc*k.XC + x*k.sh + s), j = i - 2*Ng*k.Sf;
    EQ(v[j], e.r, "velocity (real part) kicked by the acceleration, projected and damped as selected");
    EQ(v[j + 1], e.i, "velocity (imaginary part) kicked by the acceleration, projected and damped as selected");
    if (!low) {
      EQ(m2[i], mr + e.r*(k.dz*k.d), "field (real part) drifted by the new velocity");
      EQ(m2[i + 1], mi + e.i*(k.dz*k.d), "field (imaginary part) drifted by the new velocity");
    }
  }
  V_FORALL(zb, 0, k.z0 - Ng) V_FORALL(r, 0, 2*k.Sf) V_EQ(v[zb*2*k.Sf + r], v0[zb*2*k.Sf + r], "velocities before the updated range are kept");
  V_FORALL(za, k.zF - Ng, k.Lz) V_FORALL(r, 0, 2*k.Sf) V_EQ(v[za*2*k.Sf + r], v0[za*2*k.Sf + r], "velocities after the updated range are kept");
  V_FORALL(mb, 0, low ? k.Lz + 2*Ng : k.z0) V_FORALL(r, 0, 2*k.Sf) V_EQ(m2[mb*2*k.Sf + r], s0[mb*2*k.Sf + r], "target field before the updated range is kept");
  if (!low) V_FORALL(ma, k.zF, k.Lz + 2*Ng) V_FORALL(r, 0, 2*k.Sf) V_EQ(m2[ma*2*k.Sf + r], s0[ma*2*k.Sf + r], "target field after the updated range is kept");
}
template<typename F, int V> static void propN(int Ng, bool low) { switch (Ng) { case 1: prop<F,1,V>(low); break; case 2: prop<F,2,V>(low); break; case 3: prop<F,3,V>(low); break; case 4: prop<F,4,V>(low); break; case 5: prop<F,5,V>(low); break; } }
template<int V> static void propP(int cfg, bool low) { if (cfg/10%10 == 0) propN<double, V>(cfg%10, low); else propN<float, V>(cfg%10, low); }
// cfg = Ng + 10*precision + 100*potential
#define VARS X(0, V_QCD0_PQ1) X(1, V_QCD0_PQ1_THETA) X(2, V_QCD0_PQ1_RHO) X(3, V_QCD0_PQ1_DRHO) X(4, V_QCD0_PQ1_DRHO_RHO) X(5, V_QCD0_PQ1_DALL) X(6, V_QCD0_PQ1_DALL_THETA) \
  X(7, V_QCD1_PQ1) X(8, V_QCD1_PQ1_THETA) X(9, V_QCD1_PQ1_RHO) X(10, V_QCD1_PQ1_DRHO) X(11, V_QCD1_PQ1_DRHO_RHO) X(12, V_QCD1_PQ1_DALL) X(13, V_QCD1_PQ1_DALL_THETA) \
  X(14, V_QCD2_PQ1) X(15, V_QCD2_PQ1_THETA) X(16, V_QCD2_PQ1_RHO) X(17, V_QCD2_PQ1_DRHO) X(18, V_QCD2_PQ1_DRHO_RHO) X(19, V_QCD2_PQ1_DALL) X(20, V_QCD2_PQ1_DALL_THETA) \
  X(21, V_QCDC_PQ1) X(22, V_QCDC_PQ1_THETA) X(23, V_QCDC_PQ1_RHO) X(24, V_QCDC_PQ1_DRHO) X(25, V_QCDC_PQ1_DRHO_RHO) X(26, V_QCDC_PQ1_DALL) X(27, V_QCDC_PQ1_DALL_THETA)

#define X(n, V) case n: propP<V>(cfg, false); break;
V_ENTRY(h_prop) { switch (cfg/100) { VARS } }
#undef X
#define X(n, V) case n: if (!(V & V_EVOL_THETA)) propP<V>(cfg, true); break;
V_ENTRY(h_kick) { switch (cfg/100) { VARS } }

// drift of the field by the velocity, low-memory and first-stage variant; v starts at the first updated slice
template<typename F> static void drift() {
  K k; setup<F>(k, 1); k.Ng = v_int("Ng", 1, 8, 1, 3);
  k.v3 = k.n3 + 2*k.Ng*k.Sf;
  k.z0 = k.Ng; k.zF = k.Lz + k.Ng;
  F *m = v_array<F>("m", 2*k.v3), *v = v_array<F>("v", 2*k.n3), *m0 = v_snap(m, 2*k.v3), *v0 = v_snap(v, 2*k.n3);
  updateMXeon(m, v, k.dz, k.d, k.Lx, k.z0*k.Sf, k.zF*k.Sf, P_<F>::p, k.bX, k.bY, k.bZ);
  v_cover("kernel returns");
  V_FORALL(z, 0, k.Lz) V_FORALL(r, 0, 2*k.Sf) {
    EQ(m[(z + k.z0)*2*k.Sf + r], m0[(z + k.z0)*2*k.Sf + r] + v0[z*2*k.Sf + r]*(k.dz*k.d), "every component drifted by dz*d times its velocity");
  }
  V_FORALL(zb, 0, k.z0) V_FORALL(r, 0, 2*k.Sf) V_EQ(m[zb*2*k.Sf + r], m0[zb*2*k.Sf + r], "front ghost slices are kept");
  V_FORALL(za, k.zF, k.Lz + 2*k.Ng) V_FORALL(r, 0, 2*k.Sf) V_EQ(m[za*2*k.Sf + r], m0[za*2*k.Sf + r], "back ghost slices are kept");
  V_FORALL(zv, 0, k.Lz) V_FORALL(r, 0, 2*k.Sf) V_EQ(v[zv*2*k.Sf + r], v0[zv*2*k.Sf + r], "velocities are kept");
}
V_ENTRY(h_drift) { if (cfg == 0) drift<double>(); else drift<float>(); }
// the quadratic ("linear force") potential is documented to stand for the cosine one in the complex field
V_ENTRY(h_lin) { propP<V_QCDL_PQ1>(cfg, false); }
// a range with no slice changes nothing
V_ENTRY(h_empty) { emptyRange = true; propP<V_QCD0_PQ1>(1 + 10*(cfg%2), cfg >= 2); emptyRange = false; }
