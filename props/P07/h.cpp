#include "vh.h"
#include "vstd.h"
#define private public
#define protected public
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "utils/simpleops.h"
#include "scalar/thetaXeon.cpp"
#include "scalar/thetaScalar.cpp"
#include "scalar/theta2CmplxXeon.cpp"
#include "scalar/theta2Cmplx.cpp"
#include "scalar/theta2NaxionXeon.cpp"
#include "scalar/theta2Naxion.cpp"
#include "scalar/theta2PaxionXeon.cpp"
#include "scalar/theta2Paxion.cpp"
#include "scalar/normXeon.cpp"
#include "scalar/normField.cpp"
#include "scalar/scaleXeon.cpp"
#include "scalar/scaleField.cpp"
#include "scalar/scalarField.cpp"
#undef private
#undef protected

typedef std::complex<double> cd; typedef std::complex<float> cf;
// background: contracts of P06
static double uf(const char *n, double z) { return v_ufn(n, z, 0, 0); }
double Cosmos::Rp(double ct)                { return uf("Rp", ct); }
double Cosmos::DAxionMass2Dct(double ct)    { return uf("dmA2", ct); }
double Cosmos::AxionMass2(double ct)        { double x = uf("mA", ct); return x*x; }

enum { KTHETA, KCX, KNAX, KPAX, KCS };
struct W { Scalar *f; long S, Lz, Ng, N, i; int st, kind, p; double R, Rp, z, sh, x, y, vx, vy; double mA, dm; bool real_, mod; int mend, reset; void *M, *V, *M2; };
static W G;
template<typename F> static F *at(void *p) { return (F *) p; }
static double ld(void *p, long k) { return G.p == FIELD_DOUBLE ? at<double>(p)[k] : (double) at<float>(p)[k]; }
#define EQ(a, b, l) do { if (G.p == FIELD_DOUBLE) V_EQ(a, b, l); else V_EQF(a, b, l); } while (0)
// the site i of the field in each representation
static void isTheta(double R, double Rp) {
  double a = std::atan2(G.y, G.x - G.sh), q = (G.x - G.sh)*(G.x - G.sh) + G.y*G.y;
  EQ(ld(G.M, G.Ng*G.S + G.i), R*a, "conformal angle is R times the phase around the shifted vacuum");
  EQ(ld(G.V, G.i), R*(G.vy*(G.x - G.sh) - G.vx*G.y)/q + Rp*R*a, "its velocity is the time derivative of R times the phase");
}
static void isUntouched() {
  if (!G.real_) { EQ(ld(G.M, 2*(G.Ng*G.S + G.i)), G.x, "field is unfolded before it is converted"); EQ(ld(G.V, 2*G.i + 1), G.vy, "velocity is unfolded before it is converted"); }
  else { EQ(ld(G.M, G.Ng*G.S + G.i), G.x, "field is unfolded before it is converted"); EQ(ld(G.V, G.i), G.vx, "velocity is unfolded before it is converted"); }
}
static void isNaxion() {
  double mc = std::sqrt(G.mA*G.R);
  EQ(ld(G.M, 2*(G.Ng*G.S + G.i)), G.x*mc, "real part is the angle times the root of the conformal mass");
  EQ(ld(G.M, 2*(G.Ng*G.S + G.i) + 1)*mc, -G.vx, "imaginary part is minus the velocity over the root of the conformal mass");
}
static void isPaxion() {
  double mc = G.mA*G.R, s = std::sqrt(mc/2);
  double dmc = G.dm/(2*G.mA)*G.R + G.mA*G.R*G.Rp;       // d(mA R)/dct
  EQ(ld(G.M, G.Ng*G.S + G.i), G.x*s, "real part is the angle times the root of half the conformal mass");
  EQ(ld(G.V, G.Ng*G.S + G.i), G.vx/std::sqrt(2*mc) + G.x*s*dmc/(2*mc*mc), "imaginary part is the velocity in the adiabatic frame, stored behind its ghosts");
}
static void done() { if (G.kind == KTHETA) isTheta(G.R, G.Rp); if (G.kind == KNAX) isNaxion(); if (G.kind == KPAX) isPaxion(); }
Folder::Folder(Scalar *s) : field(s), Lz(1), n1(1), n2(1), n3(1) { v_assert(s == G.f, "the field is unfolded"); }
void Folder::operator()(FoldType t, size_t) {
  if (t == UNFOLD_ALL)    { v_assert(G.st == 0, "field is unfolded once, first"); isUntouched(); G.st = 1; G.f->folded = false; }
  else if (t == FOLD_ALL) { v_assert(G.st == 1, "field is folded back after conversion"); done(); G.st = 2; G.f->folded = true; }
  else v_assert(false, "the whole field is folded or unfolded");
}
size_t mendTheta(Scalar *f) { v_assert(f == G.f && f->fieldType == FIELD_AXION && !f->lowmem, "angle is unwrapped after the conversion"); if (G.kind == KTHETA) v_assert(G.st == 2, "angle is unwrapped after folding"); G.mend++; return 0; }
void resetPropagator(Scalar *f) { v_assert(f == G.f, "propagator of this field is reset"); v_assert((f->fieldType & FIELD_AXION) || f->fieldType == FIELD_NAXION, "propagator is chosen for the new representation"); G.reset++; }

static Scalar *mk(int cfg, bool real_, int kind) {
  Scalar *f = v_zeroed<Scalar>("field"); Cosmos *b = v_zeroed<Cosmos>("bck");
  G.f = f; f->bckgnd = b; G.kind = kind; G.real_ = real_; G.st = 0; G.mend = G.reset = 0;
  G.p = (cfg & 1) ? FIELD_SINGLE : FIELD_DOUBLE; long pr = G.p == FIELD_DOUBLE ? 8 : 4;
  G.S = v_int("S", 1, 1L << 20, 1, 40); G.Lz = v_int("Lz", 1, 1L << 12, 1, 6); G.Ng = v_int("Ng", 1, 8, 1, 5); G.N = G.S*G.Lz;
  long v3 = G.S*(G.Lz + 2*G.Ng);
  f->n1 = G.S; f->n2 = G.S; f->n3 = G.N; f->Lz = G.Lz; f->v3 = v3; f->Ng = G.Ng; *(int *) &f->nSplit = 1; f->Ez = G.Lz + 2*G.Ng;
  f->precision = (FieldPrecision) G.p; f->device = DEV_CPU; f->fSize = real_ ? pr : 2*pr; f->shift = real_ ? 32/pr : 16/pr; f->mAlign = 32;
  f->fieldType = real_ ? FIELD_AXION : FIELD_SAXION; f->lowmem = v_choose(2); f->folded = true;
  long vn = kind == KPAX ? v3 : 2*G.S*(G.Lz + 2);
  if (G.p == FIELD_DOUBLE) { G.M = v_array<double>("m", 2*v3); G.V = v_array<double>("v", vn); G.M2 = v_array<double>("m2", 2*v3); }
  else { G.M = v_array<float>("m", 2*v3); G.V = v_array<float>("v", vn); G.M2 = v_array<float>("m2", 2*v3); }
  f->m = G.M; f->v = G.V; f->m2 = G.M2;
  G.z = v_real("z", 0.1, 20); G.R = v_real("R", 0.1, 20); G.Rp = uf("Rp", G.z); G.mA = uf("mA", G.z); G.dm = uf("dmA2", G.z);
  f->z = v_array<double>("pz", 1); f->R = v_array<double>("pR", 1); *f->z = G.z; *f->R = G.R;
  if (kind == KNAX || kind == KPAX) v_assume(G.mA > 0.01);
  G.i = v_int("i", 0, 1L << 40, 0, 100); v_assume(G.i < G.N);
  if (real_) { G.x = ld(G.M, G.Ng*G.S + G.i); G.vx = ld(G.V, G.i); G.y = G.vy = 0; }
  else { G.x = ld(G.M, 2*(G.Ng*G.S + G.i)); G.y = ld(G.M, 2*(G.Ng*G.S + G.i) + 1); G.vx = ld(G.V, 2*G.i); G.vy = ld(G.V, 2*G.i + 1); }
  G.sh = 0;
  return f;
}
// cfg: 1 single precision
V_ENTRY(h_theta) {
  Scalar *f = mk(cfg, false, KTHETA); long pr = f->fSize/2;
  G.sh = v_real("shift", -1, 1); bool mod = v_choose(2);
  v_assume((G.x - G.sh)*(G.x - G.sh) + G.y*G.y > 1e-3);
  int sh0 = f->shift;
  v_cover("saxion becomes axion");
  cmplxToTheta(f, G.sh, mod);
  v_assert(G.st == 2, "field is folded again");
  done();
  v_assert(f->fieldType == (mod ? FIELD_AXION_MOD : FIELD_AXION) && f->fSize == pr && f->shift == 2*sh0 && !f->lowmem, "field is an angle with one real per site, and has its second buffer");
  v_assert(G.mend == (mod ? 0 : 1) && G.reset == 1, "angle is unwrapped unless it is periodic, and the propagator reset");
}
V_ENTRY(h_cmplx) {
  Scalar *f = mk(cfg, false, KCX);
  v_cover("angle in the real part becomes a saxion");
  theta2Cmplx(f);
  double c = G.R*std::cos(G.x), s = G.R*std::sin(G.x);
  long k = 2*(G.Ng*G.S + G.i);
  EQ(ld(G.M, k), c, "saxion has modulus R and the given phase (real part)"); EQ(ld(G.M, k + 1), s, "saxion has modulus R and the given phase (imaginary part)");
  EQ(ld(G.V, 2*G.i), G.Rp*c - G.vx*s, "velocity is the derivative of R exp(i theta) (real part)"); EQ(ld(G.V, 2*G.i + 1), G.Rp*s + G.vx*c, "velocity is the derivative of R exp(i theta) (imaginary part)");
}
V_ENTRY(h_csaxion) {
  Scalar *f = mk(cfg, true, KCS); int sh0 = f->shift; long fs = f->fSize;
  v_cover("conformal angle becomes a saxion");
  ctheta2csaxion(f);
  double t = G.x/G.R, dt = G.vx/G.R - t*G.Rp, c = G.R*std::cos(t), s = G.R*std::sin(t);
  long k = 2*(G.Ng*G.S + G.i);
  EQ(ld(G.M, k), c, "saxion has modulus R and the given phase (real part)"); EQ(ld(G.M, k + 1), s, "saxion has modulus R and the given phase (imaginary part)");
  EQ(ld(G.V, 2*G.i), G.Rp*c - dt*s, "velocity is the derivative of R exp(i theta) (real part)"); EQ(ld(G.V, 2*G.i + 1), G.Rp*s + dt*c, "velocity is the derivative of R exp(i theta) (imaginary part)");
  v_assert(f->fieldType == FIELD_SAXION && f->fSize == 2*fs && 2*f->shift == sh0, "field is complex");
}
V_ENTRY(h_naxion) {
  Scalar *f = mk(cfg, true, KNAX); int sh0 = f->shift; long fs = f->fSize;
  v_cover("angle becomes non relativistic amplitude");
  thetaToNaxion(f);
  v_assert(G.st == 2 && G.reset == 1, "field is folded again and the propagator reset");
  done();
  v_assert(f->fieldType == FIELD_NAXION && f->fSize == 2*fs && 2*f->shift == sh0, "field is complex");
}
V_ENTRY(h_paxion) {
  Scalar *f = mk(cfg, true, KPAX); int sh0 = f->shift; long fs = f->fSize;
  v_cover("angle becomes Paxion");
  thetaToPaxion(f);
  v_assert(G.st == 1 && !f->folded, "field is left unfolded");
  done();
  v_assert(f->fieldType == FIELD_PAXION && f->fSize == fs && f->shift == sh0, "field and velocity are real");
}
// cfg: 1 single, 2 velocity, 4 second buffer, 8 scale
V_ENTRY(h_norm) {
  Scalar *f = mk(cfg, false, KCX); FieldIndex fi = cfg & 2 ? FIELD_V : cfg & 4 ? FIELD_M2 : FIELD_M;
  f->lowmem = false;
  void *b = cfg & 2 ? G.V : cfg & 4 ? G.M2 : G.M; long o = cfg & 6 ? 0 : G.Ng*G.S, k = 2*(o + G.i);
  double x = ld(b, k), y = ld(b, k + 1), q = x*x + y*y, s = v_real("factor", -10, 10), vx = G.vx, mx = G.x;
  if (cfg & 8) { v_cover("scaled"); scaleField(f, fi, s); EQ(ld(b, k), s*x, "field is scaled (real part)"); EQ(ld(b, k + 1), s*y, "field is scaled (imaginary part)"); }
  else {
    v_assume(q > 1e-4);
    v_cover("normalised"); normaliseField(f, fi);
    EQ(ld(b, k)*std::sqrt(q), x, "field is divided by its modulus (real part)"); EQ(ld(b, k + 1)*std::sqrt(q), y, "field is divided by its modulus (imaginary part)");
  }
  if (fi != FIELD_V) EQ(ld(G.V, 2*G.i), vx, "the other fields keep their value"); if (fi != FIELD_M) EQ(ld(G.M, 2*(G.Ng*G.S + G.i)), mx, "the other fields keep their value");
}
// cfg: 1 single, 2 complex, 4 product, 8 Moore angle
V_ENTRY(h_ops) {
  Scalar *f = mk(cfg, !(cfg & 2), KCX); int nd = cfg & 2 ? 2 : 1; int c = v_choose(2);
  long k = nd*G.i + v_int("part", 0, nd - 1, 0, nd - 1), km = k + nd*G.Ng*G.S;
  if (cfg & 8) {
    double x = ld(G.M, km), tp = 2*M_PI, n = std::floor((x + M_PI)/tp);
    if (G.p == FIELD_SINGLE) { float tf = tp; tp = tf; n = std::floor((x + M_PI)/tp); }
    v_cover("Moore angle"); unMoor(f, PFIELD_MS);
    EQ(ld(G.M, km), (x - n*tp)*G.R, "angle is brought to one period and multiplied by R");
    return;
  }
  double a = v_real("a", -3, 3), b = v_real("b", -3, 3), x = ld(G.M, km), y = ld(G.V, k);
  v_cover("operation");
  if (cfg & 4) { if (c) { mulmul(f, PFIELD_MS, PFIELD_V); EQ(ld(G.V, k), x*y, "product"); EQ(ld(G.M, km), x, "factor is kept"); } else { mulmul(f, PFIELD_VS, PFIELD_MS); EQ(ld(G.M, km), x*y, "product"); EQ(ld(G.V, k), y, "factor is kept"); } }
  else { if (c) { axby(f, PFIELD_MS, PFIELD_V, a, b); EQ(ld(G.V, k), a*x + b*y, "linear combination"); EQ(ld(G.M, km), x, "operand is kept"); } else { axby(f, PFIELD_V, PFIELD_MS, a, b); EQ(ld(G.M, km), a*y + b*x, "linear combination"); EQ(ld(G.V, k), y, "operand is kept"); } }
}
