#include "vh.h"
#include "vstd.h"
#define private public
#define protected public
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "scalar/fourier.h"
#include "propagator/laplacian.h"
#include "gravity/potential.h"
#include "fft/fftCode.h"

// Callee contracts. The drivers are checked against what the kernels promise (P02, P03, P08), on the schedule of one
// rank; every rank runs the same schedule on the same grid, so what arrives in a ghost slice is what the neighbour's
// border, hence this rank's own border, held when the exchange was posted.
enum { BM, BV, BM2, NB };
struct Ghost {
  long BO, V, w, y, yb;           // w: any updated site, y: any site of the field with its ghosts, yb: the interior site that y is a copy of
  bool inner;
  int kick, mverw[NB], very[NB], ghost[NB], sent[NB], pot, poty;
  bool fly[NB];
  double z0, dz, *c, *d, *z, *R, ood2, gamma, frw, dectime, beta, grav;
  int n; double Z[8];
  void *buf[NB]; double *PC; Scalar *f; int pmode, kicky, halves; bool wMod, lap, spec; int conf, acc;
};
static Ghost G;
static double Rf(double z) { return v_ufn("R", z, 0, 0); }
double Scalar::AxionMassSq()  { return v_ufn("mA2", *z, *R, 0); }
double Scalar::AxionMass()    { return v_ufn("mA", *z, *R, 0); }
double Scalar::LambdaP()      { return v_ufn("lambda", *z, *R, 0); }
double Scalar::Rpp()          { return v_ufn("Rpp", *z, *R, 0); }
double Scalar::Saskia()       { return v_ufn("shift", *z, *R, 0); }
double Scalar::IAxionMassSqn(double a, double b, int n)  { return v_ufn("ImA", a, b, n); }
double Scalar::IIAxionMassSqn(double a, double b, int n) { return v_ufn("IImA", a, b, n); }
double Cosmos::Rp(double ct)  { return v_ufn("Rp", ct, 0, 0); }
double Cosmos::R(double ct)   { return Rf(ct); }
double Cosmos::DlogMARDlogct(double ct) { return v_ufn("n", ct, 0, 0); }
void Scalar::updateR() { *R = Rf(*z); }
static int buf(const void *p) { for (int i = 0; i < NB; i++) if (p == G.buf[i]) return i; v_assert(false, "a field buffer is passed"); return 0; }

void Scalar::sendGhosts(FieldIndex fi, CommOperation op) {
  int b = fi == FIELD_M ? BM : fi == FIELD_V ? BV : BM2;
  v_assert(fi == FIELD_M || fi == FIELD_V || fi == FIELD_M2, "ghosts of a field buffer are exchanged");
  v_assert(op == COMM_SDRV || op == COMM_WAIT, "exchange is posted or completed");
  if (op == COMM_SDRV) { v_assert(!G.fly[b], "an exchange is completed before the next one of that buffer is posted"); G.fly[b] = true; G.sent[b] = G.very[b]; G.ghost[b] = -1; }
  else                 { v_assert(G.fly[b], "a completed exchange was posted"); G.fly[b] = false; G.ghost[b] = G.sent[b]; }
}
static void params(const PropParms &p, bool sax) {
  double Z = *G.z, R = Rf(Z);
  v_assert(p.Ng*G.f->n2 == G.BO && p.Lx == G.f->n1 && p.PC == G.PC, "grid and Laplacian coefficients are those of the field");
  V_EQ(p.ood2a, G.ood2, "Laplacian is scaled with the lattice spacing");
  V_EQ(p.R, R, "kernel gets the scale factor at the time of its stage");
  V_EQ(p.frw, G.frw, "kernel gets the expansion power");
}
static bool upd(long Vo, long Vf) { return Vo < Vf && Vo <= G.w && G.w < Vf; }
static bool yupd(long Vo, long Vf) { return Vo < Vf && Vo <= G.yb && G.yb < Vf; }
static bool near() { return G.w - G.BO <= G.y && G.y <= G.w + G.BO; }
static int seen(int b) { return G.inner ? G.very[b] : G.ghost[b]; }
static void range(long Vo, long Vf) { v_assert(Vo >= Vf || (Vo >= G.BO && Vf <= G.BO + G.V), "only the sites of this rank are updated"); }
// a kernel that kicks and drifts sites [Vo, Vf): needs the source complete at that stage in the neighbourhood
static void kickDrift(int s, int v, int t, double dz, double c, double d, long Vo, long Vf, bool drift) {
  range(Vo, Vf);
  v_assert(v == BV, "velocities are kicked");
  if (drift) v_assert(s != t && t != BV && s != BV, "the drifted field goes to the other buffer");
  if (upd(Vo, Vf)) {
    int k = G.kick;
    v_assert(k < G.n, "no site is updated more often than the integrator has stages");
    V_EQ(dz*c, G.dz*G.c[k], "kick of this stage uses its coefficient"); if (drift) V_EQ(dz*d, G.dz*G.d[k], "drift of this stage uses its coefficient");
    V_EQ(*G.z, G.Z[k], "time of the stage");
    v_assert(G.mverw[s] == k, "stage starts from the field of the previous one");
    if (near()) v_assert(seen(s) == k, "neighbours (ghosts included) are complete and of the same stage when they are read");
    G.kick++; if (drift) G.mverw[t] = k + 1;
  }
  if (yupd(Vo, Vf)) { if (drift) { v_assert(!G.fly[t], "a buffer is not written while its borders are being sent"); G.very[t] = G.kicky + 1; } G.kicky++; }
}
static void ended(int n) {
  v_assert(G.kick == n && G.mverw[BM] == n, "every site is kicked and drifted once per stage and the result is in the main buffer");
  double z = G.z0; for (int i = 0; i < n; i++) z += G.dz*G.d[i];
  V_EQ(*G.z, z, "time advances by the sum of the drifts");
  V_EQ(*G.R, Rf(z), "scale factor follows the time");
  v_assert(!G.fly[BM] && !G.fly[BV] && !G.fly[BM2], "no exchange is left pending");
}
static void rec_theta(const void *m, void *v, void *m2, PropParms p, double dz, double c, double d, size_t Vo, size_t Vf, FieldPrecision pr, unsigned, unsigned, unsigned, bool wMod, VqcdType q) {
  params(p, false);
  V_EQ(p.massA2, v_ufn("mA2", *G.z, Rf(*G.z), 0), "kernel gets the axion mass at the time of its stage");
  V_EQ(p.Rpp, v_ufn("Rpp", *G.z, Rf(*G.z), 0), "kernel gets R'' at the time of its stage");
  V_EQ(p.beta, G.beta, "kernel gets the potential parameter");
  v_assert(pr == G.f->precision && wMod == G.wMod && (int) q == G.pmode, "precision, periodicity and potential are those configured");
  kickDrift(buf(m), buf(v), buf(m2), dz, c, d, Vo, Vf, true);
}
static void saxp(const PropParms &p, VqcdType q) {
  params(p, true);
  V_EQ(p.massA2, v_ufn("mA2", *G.z, Rf(*G.z), 0), "kernel gets the axion mass at the time of its stage");
  V_EQ(p.Rpp, v_ufn("Rpp", *G.z, Rf(*G.z), 0), "kernel gets R'' at the time of its stage");
  V_EQ(p.lambda, v_ufn("lambda", *G.z, Rf(*G.z), 0), "kernel gets lambda at the time of its stage");
  V_EQ(p.gamma, G.gamma, "kernel gets the damping");
  v_assert((int) q == G.pmode, "potential is the configured one");
}
template<VqcdType q> static void rec_saxion(const void *m, void *v, void *m2, PropParms p, double dz, double c, double d, size_t Vo, size_t Vf, FieldPrecision pr, unsigned, unsigned, unsigned) {
  saxp(p, q);
  V_EQ(p.Rp, v_ufn("Rp", *G.z, 0, 0), "kernel gets R' at the time of its stage");
  V_EQ(p.dectime, G.dectime, "kernel gets the damping time");
  v_assert(pr == G.f->precision, "precision is that of the field");
  kickDrift(buf(m), buf(v), buf(m2), dz, c, d, Vo, Vf, true);
}
template<VqcdType q> static void rec_updateV(const void *m, void *v, PropParms p, double dz, double c, size_t Vo, size_t Vf, FieldPrecision pr, unsigned, unsigned, unsigned) {
  saxp(p, q);
  V_EQ(p.Rp, v_ufn("Rp", *G.z, 0, 0), "kernel gets R' at the time of its stage");
  V_EQ(p.dectime, G.dectime, "kernel gets the damping time");
  v_assert(pr == G.f->precision, "precision is that of the field");
  kickDrift(buf(m), buf(v), BM2, dz, c, 0, Vo, Vf, false);
}
// drift in place: every neighbour that still needs the old field has been kicked before
static void rec_updateM(void *m, const void *v, double dz, double d, size_t Lx, size_t Vo, size_t Vf, FieldPrecision pr, unsigned, unsigned, unsigned) {
  range(Vo, Vf);
  v_assert(buf(m) == BM && buf(v) == BV && Lx == G.f->n1 && pr == G.f->precision, "field is drifted by the velocity");
  if (upd(Vo, Vf)) {
    int k = G.mverw[BM];
    v_assert(k < G.n && G.kick == k + 1, "drift follows the kick of its stage");
    V_EQ(dz*d, G.dz*G.d[k], "drift of this stage uses its coefficient");
    V_EQ(*G.z, G.Z[k], "time of the stage");
    G.mverw[BM]++;
  }
  if (yupd(Vo, Vf)) { v_assert(!G.fly[BM], "a buffer is not written while its borders are being sent"); G.very[BM]++; }
}
template<VqcdType q> static void rec_nax(const void *m, void *v, void *m2, PropParms p, double dz, double c, double d, size_t Vo, size_t Vf, FieldPrecision pr, unsigned, unsigned, unsigned) {
  params(p, false);
  V_EQ(p.ct, *G.z, "kernel gets the time of its stage");
  V_EQ(p.massA, v_ufn("mA", *G.z, Rf(*G.z), 0), "kernel gets the axion mass at the time of its stage");
  V_EQ(p.beta, G.beta, "kernel gets the potential parameter");
  v_assert(pr == G.f->precision, "precision is that of the field");
  kickDrift(buf(m), buf(v), buf(m2), dz, c, d, Vo, Vf, true);
}
// paxion: half a potential rotation, then per stage v += L[m], m -= L[v], then the other half rotation
template<KickDriftType kd> static void rec_pax(const void *m, void *v, void *m2, PropParms p, double dz, size_t Vo, size_t Vf, FieldPrecision pr, unsigned, unsigned, unsigned) {
  params(p, false); range(Vo, Vf);
  V_EQ(p.ct, *G.z, "kernel gets the time of its stage");
  V_EQ(p.massA, v_ufn("mA", *G.z, Rf(*G.z), 0), "kernel gets the axion mass at the time of its stage");
  V_EQ(p.n, v_ufn("n", *G.z, 0, 0), "kernel gets the mass growth at the time of its stage");
  V_EQ(p.beta, G.beta, "kernel gets the potential parameter");
  v_assert(pr == G.f->precision, "precision is that of the field");
  int s = buf(m), t = buf(v);
  if (kd == KIDI_LAP) {
    v_assert((s == BM && t == BV && p.sign == 1) || (s == BV && t == BM && p.sign == -1), "real and imaginary part drive each other with opposite signs");
    if (upd(Vo, Vf)) {
      int k = G.mverw[t];
      v_assert(k < G.n && G.pot == 1, "Laplacian stages lie between the two half rotations");
      V_EQ(dz, G.dz*(t == BV ? G.c[k] : G.d[k]), "stage uses its coefficient");
      V_EQ(*G.z, G.Z[k], "time of the stage");
      int need = t == BV ? k : k + 1;
      v_assert(G.mverw[s] == need, "stage starts from the previous one");
      if (near()) v_assert(seen(s) == 100 + need, "neighbours (ghosts included) are complete and of the same stage when they are read");
      G.mverw[t]++;
    }
    if (yupd(Vo, Vf)) { v_assert(!G.fly[t], "a buffer is not written while its borders are being sent"); G.very[t]++; }
  } else {
    v_assert(s == BM && t == BV, "rotation acts on the field and its conjugate");
    if (upd(Vo, Vf)) {
      V_EQ(dz, G.dz/2, "half a potential step before and after the stages");
      v_assert(G.pot < 2 && G.mverw[BM] == (G.pot ? G.n : 0) && G.mverw[BV] == G.mverw[BM], "one potential half step before and one after the stages");
      G.pot++;
    }
    if (yupd(Vo, Vf)) { v_assert(!G.fly[BM] && !G.fly[BV], "a buffer is not written while its borders are being sent"); G.very[BM] += 100; G.very[BV] += 100; }
  }
}
static void rec_grav() {}
// spectral drivers
void applyLaplacian(Scalar *f) { v_assert(f == G.f && !f->folded, "spectral Laplacian of the unfolded field"); v_assert(G.kick == G.mverw[BM], "Laplacian of the completed stage"); G.lap = true; }
Folder::Folder(Scalar *s) : field(s), Lz(0), n1(0), n2(0), n3(0) {}
void Folder::operator()(FoldType t, size_t) { field->folded = t == FOLD_ALL ? true : t == UNFOLD_ALL ? false : field->folded; }
template<VqcdType q> static void rec_spec(void *m, void *v, const void *m2, PropParms p, double dz, double c, double d, size_t Vo, size_t Vf, FieldPrecision pr) {
  saxp(p, q);
  v_assert(pr == G.f->precision && G.lap && buf(m) == BM && buf(v) == BV && buf(m2) == BM2, "kernel uses a fresh Laplacian"); G.lap = false;
  v_assert((long) Vo == G.BO && (long) Vf == G.BO + G.V, "all sites of the rank");
  v_assert(G.kick < G.n, "no more stages than the integrator has");
  V_EQ(dz*c, G.dz*G.c[G.kick], "kick of this stage uses its coefficient"); V_EQ(dz*d, G.dz*G.d[G.kick], "drift of this stage uses its coefficient"); V_EQ(*G.z, G.Z[G.kick], "time of the stage");
  G.kick++; G.mverw[BM]++;
}
template<typename... A> static void rec_tspec(A...) {}
template<VqcdType q, typename... A> static void rec_fsacc(A...) {}
#define sPropThetaKernelXeon rec_tspec
#define fsAccKernelXeon rec_fsacc
#define fsPropKernelXeon rec_fsacc
#define fsAccKernelThetaXeon rec_fsacc
#define fsPropKernelThetaXeon rec_fsacc
#define updateMXeon rec_updateM
#define updateMThetaXeon rec_updateM
#define propThetaKernelXeon rec_theta
#define propagateKernelXeon rec_saxion
#define updateVXeon rec_updateV
#define propagateNaxKernelXeon rec_nax
#define propagatePaxKernelXeon rec_pax
#define calculateGraviPotential rec_grav
#define sPropKernelXeon rec_spec
#include "propagator/propClass.h"
#undef private
#undef protected

template<VqcdType q> static void stage(int kind, int Ng) {
  Scalar *f = v_zeroed<Scalar>("field"); Cosmos *b = v_zeroed<Cosmos>("bck");
  G = Ghost(); G.f = f; f->bckgnd = b;
  long S = v_int("S", 64, 1 << 20, 64, 256), L = v_int("sites", 64, 1l << 40, 64, 2000);
  f->n1 = v_int("Lx", 8, 1 << 20, 8, 64); f->n2 = S; f->Ng = Ng; f->n3 = L;
  v_assume(L >= Ng*S);
  f->fSize = kind == 1 || kind == 3 ? 16 : 8; f->mAlign = 32; f->precision = FIELD_DOUBLE; f->device = DEV_CPU;
  f->fieldType = kind == 0 ? (v_choose(2) ? FIELD_AXION_MOD : FIELD_AXION) : FIELD_SAXION; G.wMod = f->fieldType == FIELD_AXION_MOD;
  f->Ez = f->Lz + 2; f->lowmem = kind == 3;
  G.PC = v_array<double>("PC", 8); *(double **) &f->co = G.PC;
  char *bm = v_array<char>("m", 64);
  f->m = G.buf[BM] = bm; f->v = G.buf[BV] = bm + 16; f->m2 = G.buf[BM2] = bm + 32;
  double *t = v_array<double>("zR", 2); f->z = G.z = t; f->R = G.R = t + 1;
  *t = G.z0 = v_real("z", 0.1, 10); f->updateR();
  b->lSize = v_real("lSize", 1, 100); double dl = b->lSize/(double) f->n1; G.ood2 = 1./(dl*dl);
  b->gamma = G.gamma = v_real("gamma", 0, 1); b->frw = G.frw = v_real("frw", 0, 2); b->dectime = G.dectime = v_real("dectime", -1, 2);
  b->icdatastruc.beta = G.beta = v_real("beta", 0, 1); b->icdatastruc.grav = G.grav = v_real("grav", 0, 1);
  f->folded = kind == 5 ? v_choose(2) : true;
  G.BO = Ng*S; G.V = L; G.pmode = q;
  G.w = v_int("site", 64, 1l << 41, 64, 3000); v_assume(G.w >= G.BO && G.w < G.BO + L);
  G.y = v_int("neighbour", 0, 1l << 41, 0, 3000); v_assume(G.y < 2*G.BO + L);
  G.inner = G.y >= G.BO && G.y < G.BO + L; G.yb = G.y < G.BO ? G.y + L : G.y >= G.BO + L ? G.y - L : G.y;
  for (int i = 0; i < NB; i++) { G.very[i] = G.mverw[i] = i == BM2 ? -1 : 0; G.ghost[i] = -1; }
  G.c = v_array<double>("c", 4); G.d = v_array<double>("d", 4); G.n = 4;
  G.dz = v_real("dz", 0.01, 0.1);
  G.Z[0] = G.z0; for (int i = 0; i < 4; i++) G.Z[i + 1] = G.Z[i] + G.dz*G.d[i];
  typedef PropClass<4, PROP_NORMAL, q> P;
  P *p = new (v_cells<P>("prop")) P(f, kind == 5 ? PROPC_SPEC : PROPC_BASE);
  p->setCoeff(G.c, G.d);
  switch (kind) {
    case 0: p->propAxion(G.dz); break;
    case 1: case 3: case 5: p->propSaxion(G.dz); break;
    case 2: p->propNaxion(G.dz); break;
    case 4: p->propPaxion(G.dz); break;
  }
  v_cover("driver returns");
  if (kind == 4) { v_assert(G.pot == 2 && G.mverw[BV] == 4, "both half rotations and all stages are done"); G.kick = G.mverw[BM]; }
  ended(4);
}
#define NGS(k) { switch (cfg%10) { case 1: case 2: case 3: case 4: case 5: stage<V_QCD1_PQ1>(k, cfg%10); } }
V_ENTRY(h_axion)  NGS(0)
V_ENTRY(h_saxion) NGS(1)
V_ENTRY(h_naxion) NGS(2)
V_ENTRY(h_lowmem) NGS(3)
V_ENTRY(h_paxion) NGS(4)
V_ENTRY(h_spec)   NGS(5)
