#include "vh.h"
#include "vstd.h"
#define _TUNABLE_
struct Tunable { template<typename S> void setName(const S &) {} template<typename S> void appendName(const S &) {} void add(double, double) {} const char *Name() { return ""; } };
#define private public
#define protected public
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "utils/logger.h"
#include "utils/memAlloc.h"
#include "utils/profiler.h"
#include "energy/energyXeon.cpp"
#undef opCode_P
#undef opCode_N
#undef opCode
#undef Align
#undef _PREFIX_
#include "energy/energyThetaXeon.cpp"
#include "energy/energy.cpp"
#undef private
#undef protected

static double uf(const char *n, double z) { return v_ufn(n, z, 0, 0); }
double Cosmos::Rp(double ct) { return uf("Rp", ct); }                    // R'/R (P06)
double Scalar::AxionMassSq() { double x = uf("mA", *z); return x*x; }
double Scalar::LambdaP() { return uf("lambda", *z); }
#define EQ(a, b, l) do { if (G.p == FIELD_DOUBLE) V_EQ(a, b, l); else V_EQF(a, b, l); } while (0)
// a sum over the vectors of the field equals the sum of what each site contributes
template<typename T> static void sumEq(double total, long Lz, long YC, long Lx, T f, const char *lab);

struct W { Scalar *f; int p, sh; long Lx, YC, XC, Sf, Lz, Ng; bool cx, mod; double R, Rp, z, mA2, lam, d2, shift; VqcdType V; EnType E; char *str; void *M, *Vv, *M2; int ghosts, folds, i0, i1; double *other, *recv; };
static W G;
static bool masked(long x, long yc, long s, long z) { return G.str[x + (yc + s*G.YC)*G.Lx + z*G.Sf] & STRING_MASK; }
#ifdef V_SYM
extern "C" void v_split(bool);
extern "C" double v_sumterm(double total, long k, long n);
template<typename T> static void sumEq(double total, T f, const char *lab) {
  V_FORALL(z, 0, G.Lz) V_FORALL(yc, 0, G.YC) V_FORALL(x, 0, G.Lx) {
    double e = 0;
    v_split(x == 0); v_split(x == G.Lx - 1); v_split(yc == 0); v_split(yc == G.YC - 1);
    if (G.E & EN_MASK) for (int s = 0; s < G.sh; s++) v_split(masked(x, yc, s, z));
    for (int s = 0; s < G.sh; s++) e += f(x, yc, s, z);
    V_EQ(v_sumterm(total, (z*G.YC + yc)*G.Lx + x, G.Lz*G.YC*G.Lx), e, lab);
  }
}
extern "C" double v_mod(double x, double md);
#else
#define v_split(x)
static bool nearTie;
static double v_mod(double x, double md) { if (fabs(fabs(2*x) - md) < 1e-3*md) nearTie = true; return 2*x < -md ? x + md : 2*x > md ? x - md : x; }
template<typename T> static void sumEq(double total, T f, const char *lab) {
  double e = 0, q = 0;
  for (long z = 0; z < G.Lz; z++) for (long yc = 0; yc < G.YC; yc++) for (long x = 0; x < G.Lx; x++) for (int s = 0; s < G.sh; s++) { double t = f(x, yc, s, z); e += t; q += fabs(t); }
  double sc = q + 1e-3; EQ(total/sc, e/sc, lab);
}
#endif
// value (component c) at site (x, y = yc + s*YC, z) of the folded field
static double at(long x, long yc, long s, long z, int c) {
  if (x < 0) x += G.Lx; else if (x >= G.Lx) x -= G.Lx;
  if (yc < 0) { yc += G.YC; s = (s + G.sh - 1) % G.sh; } else if (yc >= G.YC) { yc -= G.YC; s = (s + 1) % G.sh; }
  long i = (z + G.Ng)*G.Sf + yc*G.XC + x*G.sh + s; if (G.cx) i = 2*i + c;
  return G.p == FIELD_DOUBLE ? ((double *) G.M)[i] : ((float *) G.M)[i];
}
static double vat(long x, long yc, long s, long z, int c) {
  long i = z*G.Sf + yc*G.XC + x*G.sh + s; if (G.cx) i = 2*i + c;
  return G.p == FIELD_DOUBLE ? ((double *) G.Vv)[i] : ((float *) G.Vv)[i];
}

// what a site contributes: physical energy densities of the angular (0-4) and radial (5-9) motion, modulus (10)
static double dens(int comp, long x, long yc, long s, long z) {
  double R = G.R, o2 = 0.25/G.d2/R/R;
  if (!G.cx) {
    double t = at(x, yc, s, z, 0), o4 = 0.25/G.d2/(R*R*R*R);
    if (comp < 3) {
      double a = at(x + (comp == 0), yc + (comp == 1), s, z + (comp == 2), 0) - t, b = at(x - (comp == 0), yc - (comp == 1), s, z - (comp == 2), 0) - t;
      if (G.mod) { double tp = G.p == FIELD_DOUBLE ? 2*M_PI*R : (double) (float) (2.f*M_PI*(float) R); a = v_mod(a, tp); b = v_mod(b, tp); }
      return (a*a + b*b)*o4;
    }
    if (comp == 3) { double k = vat(x, yc, s, z, 0) - G.Rp*t; return k*k/(2*R*R*R*R); }
    double sn = sin(t/R*0.5); return G.mA2*2*sn*sn;
  }
  double r = at(x, yc, s, z, 0), i = at(x, yc, s, z, 1), p2 = r*r + i*i, rho2 = p2/(R*R);
  int c = comp%5; bool rad = comp >= 5;
  if (comp != 10 && c < 3) {
    double ar = at(x + (c == 0), yc + (c == 1), s, z + (c == 2), 0) - r, ai = at(x + (c == 0), yc + (c == 1), s, z + (c == 2), 1) - i;
    double br = r - at(x - (c == 0), yc - (c == 1), s, z - (c == 2), 0), bi = i - at(x - (c == 0), yc - (c == 1), s, z - (c == 2), 1);
    double a = rad ? ar*r + ai*i : ai*r - ar*i, b = rad ? br*r + bi*i : bi*r - br*i;
    return (a*a + b*b)/p2/(R*R)*o2;
  }
  if (comp != 10 && c == 3) {
    double vr = vat(x, yc, s, z, 0), vi = vat(x, yc, s, z, 1);
    double a = rad ? (vr*r + vi*i)/p2 - G.Rp : (vi*r - vr*i)/p2;
    return rho2*a*a/(2*R*R);
  }
  double sr = r - G.shift, q2 = (sr*sr + i*i)/(R*R);
  if (comp == 10) return sqrt(q2);
  if (rad) {
    double u = q2 - 1;
    switch (G.V & V_PQ) {
      case V_PQ1: return G.lam/4*u*u;
      case V_PQ2: return G.lam/4*(q2*q2 - 1)*(q2*q2 - 1);
      case V_PQ3: if (q2 >= 1) { double w = sqrt(q2) - 1; return G.lam*w*w; } return G.lam/4*u*u;
    }
    return 0;
  }
  switch (G.V & V_QCD) {
    case V_QCD1: case V_QCDC: case V_QCDL: return G.mA2*(1 - sr/sqrt(sr*sr + i*i));
    case V_QCDV: { double u = 1 - sr/R, w = i/R; return G.mA2/2*(u*u + w*w); }
    case V_QCD2: return G.mA2/2*(1 - sr*sr/(sr*sr + i*i));
  }
  return 0;
}
static const char *const NAME[11] = { "axion gradient energy along x", "axion gradient energy along y", "axion gradient energy along z", "axion kinetic energy", "axion potential energy",
  "saxion gradient energy along x", "saxion gradient energy along y", "saxion gradient energy along z", "saxion kinetic energy", "saxion potential energy", "mean modulus" };
static const char *const NAMEM[11] = { "masked axion gradient energy along x", "masked axion gradient energy along y", "masked axion gradient energy along z", "masked axion kinetic energy", "masked axion potential energy",
  "masked saxion gradient energy along x", "masked saxion gradient energy along y", "masked saxion gradient energy along z", "masked saxion kinetic energy", "masked saxion potential energy", "masked mean modulus" };

// the environment of the measurement
Folder::Folder(Scalar *s) : field(s), Lz(1), n1(1), n2(1), n3(1) { v_assert(s == G.f, "the field is folded"); }
void Folder::operator()(FoldType t, size_t) { v_assert(t == FOLD_ALL && !G.f->folded, "the whole field is folded before it is measured"); G.folds++; G.f->folded = true; }
void Scalar::exchangeGhosts(FieldIndex fi) { v_assert(this == G.f && (fi & FIELD_M) && folded, "ghosts of the folded field are exchanged"); G.ghosts++; }
void trackAlloc(void **p, size_t n) { v_assert(n >= 23*sizeof(double), "room for every component"); *p = v_array<double>("sums", n/8); }
void trackFree(void *) {}
void Scalar::setReduced(bool b, size_t, size_t) { v_assert(!b, "not reduced"); }
extern "C" int MPI_Allreduce(const void *snd, void *rcv, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  v_assert(t == MPI_DOUBLE && o == MPI_SUM && c == MPI_COMM_WORLD && n >= (G.cx ? 23 : 5), "the sums of every rank are added");
  v_assert(G.ghosts >= 1, "ghosts were exchanged before");
  const double *e = (const double *) snd; double *r = (double *) rcv;
  v_cover("sums over the sites of this rank");
  if ((G.E & EN_ENE) && !G.i0) for (int i = 0; i < (G.cx ? 11 : 5); i++) sumEq(e[i], [i](long x, long yc, long s, long z) { return dens(i, x, yc, s, z); }, NAME[i]);
  if (G.cx && (G.E & EN_MASK)) {
    for (int i = G.i0; i < G.i1; i++) sumEq(e[11 + i], [i](long x, long yc, long s, long z) { return masked(x, yc, s, z) ? dens(i, x, yc, s, z) : 0; }, NAMEM[i]);
    if (G.i1 == 11) sumEq(e[22], [](long x, long yc, long s, long z) { return masked(x, yc, s, z) ? 1. : 0.; }, "number of masked sites");
  }
  // the total: the contribution of the other ranks is arbitrary, so the total is
#ifdef V_SYM
  for (int i = 0; i < n; i++) r[i] = G.recv[i] = G.other[i];
#else
  for (int i = 0; i < n; i++) r[i] = G.recv[i] = e[i] + G.other[i];
#endif
  return 0;
}
// cfg = precision + 10*QCD + 100*PQ + 1000*mode + 10000*which masked components (0: all)
static void mk(int cfg, bool cx) {
  G.p = cfg%10 ? FIELD_SINGLE : FIELD_DOUBLE; long pr = G.p == FIELD_DOUBLE ? 8 : 4;
  static const int Q[5] = { V_QCDC, V_QCDV, V_QCD2, V_QCD0, V_QCD1 }, P[3] = { V_PQ1, V_PQ2, V_PQ3 };
  G.V = (VqcdType) (Q[cfg/10%10] | P[cfg/100%10]); G.cx = cx; G.ghosts = G.folds = 0; int pt = cfg/10000; G.i0 = pt ? 3*pt - 3 : 0; G.i1 = pt && pt < 4 ? 3*pt : 11;
  Scalar *f = v_zeroed<Scalar>("field"); Cosmos *b = v_zeroed<Cosmos>("bck"); G.f = f; f->bckgnd = b;
  G.sh = (cx ? 16 : 32)/pr;
  G.YC = v_int("YC", 2, 1 << 10, 2, 3); G.Lx = G.YC*G.sh; G.XC = G.Lx*G.sh; G.Sf = G.Lx*G.Lx;
  G.Lz = v_int("Lz", 1, 1 << 12, 1, 3); G.Ng = v_int("Ng", 1, 8, 1, 3);
  long n3 = G.Sf*G.Lz, v3 = n3 + 2*G.Ng*G.Sf, c = cx ? 2 : 1; int nsp = v_int("ranks", 1, 1 << 12, 1, 3);
  f->n1 = G.Lx; f->n2 = G.Sf; f->n3 = n3; f->Lz = G.Lz; f->v3 = v3; f->Ng = G.Ng; *(int *) &f->nSplit = nsp; f->Tz = G.Lz*nsp; f->Ez = G.Lz + 2*G.Ng;
  f->precision = (FieldPrecision) G.p; f->device = DEV_CPU; f->fSize = c*pr; f->shift = G.sh; f->mAlign = 32;
  f->fieldType = cx ? FIELD_SAXION : G.mod ? FIELD_AXION_MOD : FIELD_AXION; f->lowmem = false; f->folded = v_choose(2);
  f->statusSD = SD_MASK;
  if (G.p == FIELD_DOUBLE) { G.M = v_array<double>("m", c*v3); G.Vv = v_array<double>("v", c*n3); G.M2 = v_array<double>("m2", 2*v3); }
  else { G.M = v_array<float>("m", c*v3); G.Vv = v_array<float>("v", c*n3); G.M2 = v_array<float>("m2", 2*v3); }
  f->m = G.M; f->v = G.Vv; f->m2 = G.M2; f->str = G.str = v_array<char>("str", n3);
  G.z = v_real("z", 0.1, 20); G.R = v_real("R", 0.1, 20); G.Rp = uf("Rp", G.z); G.mA2 = uf("mA", G.z)*uf("mA", G.z);
  f->z = v_array<double>("pz", 1); f->R = v_array<double>("pR", 1); *f->z = G.z; *f->R = G.R;
  b->frw = v_real("frw", 0, 3);
  b->pot = G.V;
  double L = v_real("L", 0.1, 20); b->lSize = L;
  G.other = v_array<double>("other", 32); G.recv = v_array<double>("recv", 32);
  G.shift = v_real("shift", -1, 1);
}
static void measure() {
  Scalar *f = G.f; long n3 = G.Sf*G.Lz; bool was = f->folded;
  G.d2 = f->Delta()*f->Delta(); G.lam = f->LambdaP();
  double *res = v_array<double>("res", 32);
  energy(f, res, G.E, G.shift);
  v_cover("measured");
  v_assert(f->folded && G.folds == !was, "the field is folded once, if it was not");
  double N = f->TotalSize();
  if ((G.E & EN_ENE) && !G.i0) for (int i = 0; i < (G.cx ? 11 : 5); i++) V_EQ(res[i]*N, G.recv[i], "averages over the sites of all ranks");
  if (G.cx && (G.E & EN_MASK) && G.recv[22] > 0.5) { for (int i = 11; i < 22; i++) V_EQ(res[i]*G.recv[22], G.recv[i], "averages over the masked sites of all ranks"); V_EQ(res[22], G.recv[22], "number of masked sites of all ranks"); }
  if (G.E & EN_ONLYMAP) v_assert(f->statusM2 == M2_ENERGY, "the energy map is announced");
  if ((G.E & EN_ONLYMAP) && f->statusM2 == M2_ENERGY) {
    for (int s = 0; s < G.sh; s++) V_FORALL(z, 0, G.Lz) V_FORALL(yc, 0, G.YC) V_FORALL(x, 0, G.Lx) {
      long j = x + (yc + s*G.YC)*G.Lx + z*G.Sf, off = f->eSize();
      bool in = G.E != EN_MAPMASK || masked(x, yc, s, z);
      for (int r = 0; r < (G.cx ? 2 : 1); r++) {
        double e = in ? dens(5*r, x, yc, s, z) + dens(5*r + 1, x, yc, s, z) + dens(5*r + 2, x, yc, s, z) + dens(5*r + 3, x, yc, s, z) + dens(5*r + 4, x, yc, s, z) : 0;
        double g = G.p == FIELD_DOUBLE ? ((double *) G.M2)[j + r*off] : ((float *) G.M2)[j + r*off];
        EQ(g, e, r ? "saxion energy map holds the total density of each site in natural order" : "axion energy map holds the total density of each site in natural order");
      }
    }
  }
}
static const EnType MODE[6] = { EN_ENE, EN_MAP, EN_MASK, EN_ENEMASK, EN_MAPMASK, EN_ENEMAPMASK };
V_ENTRY(h_sax) { G.mod = false; mk(cfg, true); G.E = MODE[cfg/1000%10]; measure(); }
// cfg = precision + 10*wrapped + 1000*mode
V_ENTRY(h_ax) {
  G.mod = cfg/10%10; mk(cfg%10, false); G.E = MODE[cfg/1000%10];
  measure();
}
