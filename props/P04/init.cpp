#include "vh.h"
#include "vstd.h"
#define private public
#define protected public
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "scalar/fourier.h"
#include "propagator/laplacian.h"
#include "gravity/potential.h"
#include "fft/fftCode.h"
static int seen, kernel; enum { NONE, AX, SAX, LOW, NAX, PAX, SPEC, ASPEC, FSPEC, AFSPEC };
static void rec_theta(const void *, void *, void *, PropParms, double, double, double, size_t, size_t, FieldPrecision, unsigned, unsigned, unsigned, bool, VqcdType q) { seen = q; kernel = AX; }
template<VqcdType q> static void rec_saxion(const void *, void *, void *, PropParms, double, double, double, size_t, size_t, FieldPrecision, unsigned, unsigned, unsigned) { seen = q; kernel = SAX; }
template<VqcdType q, typename... A> static void rec_updateV(A...) { seen = q; kernel = LOW; }
template<typename... A> static void rec_updateM(A...) {}
template<VqcdType q, typename... A> static void rec_nax(A...) { seen = q; kernel = NAX; }
template<KickDriftType q, typename... A> static void rec_pax(A...) { kernel = PAX; }
template<VqcdType q, typename... A> static void rec_spec(A...) { seen = q; kernel = SPEC; }
template<typename... A> static void rec_tspec(A...) { kernel = ASPEC; }
template<VqcdType q, typename... A> static void rec_fsacc(A...) { seen = q; kernel = FSPEC; }
template<VqcdType q, typename... A> static void rec_fsaccT(A...) { seen = q; kernel = AFSPEC; }
#define updateMXeon rec_updateM
#define updateMThetaXeon rec_updateM
#define propThetaKernelXeon rec_theta
#define propagateKernelXeon rec_saxion
#define updateVXeon rec_updateV
#define propagateNaxKernelXeon rec_nax
#define propagatePaxKernelXeon rec_pax
#define sPropKernelXeon rec_spec
#define sPropThetaKernelXeon rec_tspec
#define fsAccKernelXeon rec_fsacc
#define fsPropKernelXeon rec_fsacc
#define fsAccKernelThetaXeon rec_fsaccT
#define fsPropKernelThetaXeon rec_fsaccT
#include "propagator/propagator.cpp"
#undef private
#undef protected
double Scalar::AxionMassSq()  { return 1; }
double Scalar::AxionMass()    { return 1; }
double Scalar::LambdaP()      { return 1; }
double Scalar::Rpp()          { return 0; }
double Scalar::Saskia()       { return 0; }
double Scalar::IAxionMassSqn(double a, double b, int n)  { return 0; }
double Scalar::IIAxionMassSqn(double a, double b, int n) { return 0; }
double Cosmos::Rp(double ct)  { return 1; }
double Cosmos::R(double ct)   { return ct; }
double Cosmos::DlogMARDlogct(double ct) { return 1; }
void Scalar::updateR() { *R = *z; }
void Scalar::sendGhosts(FieldIndex, CommOperation) {}
void applyLaplacian(Scalar *f) {}
void calculateGraviPotential() {}
Folder::Folder(Scalar *s) : field(s), Lz(0), n1(0), n2(0), n3(0) {}
void Folder::operator()(FoldType t, size_t) {}

static const int pots[] = {
#define X(b) b##_PQ1, b##_PQ1_THETA, b##_PQ1_RHO, b##_PQ1_DRHO, b##_PQ1_DRHO_RHO, b##_PQ1_DALL, b##_PQ1_DALL_THETA,
X(V_QCD0) X(V_QCD1) X(V_QCD2) X(V_QCDC) X(V_QCDL) };
#undef X
static Scalar *mk() {
  Scalar *f = v_zeroed<Scalar>("field"); f->bckgnd = v_zeroed<Cosmos>("bck"); f->bckgnd->lSize = 1;
  f->n1 = 16; f->n2 = 256; f->n3 = 4096; f->Lz = 16; f->Ez = 18; f->Ng = 1; f->fSize = 8; f->mAlign = 32; f->precision = FIELD_DOUBLE; f->device = DEV_CPU;
  double *t = v_array<double>("zR", 2); t[0] = t[1] = 1; f->z = t; f->R = t + 1;
  double *PC = v_array<double>("PC", 8); *(double **) &f->co = PC;
  f->m = v_array<double>("m", 8); f->v = f->m; f->m2 = f->m; f->folded = true;
  return f;
}
template<VqcdType q> static PropClass<4, PROP_NORMAL, q> *as() { return static_cast<PropClass<4, PROP_NORMAL, q> *>(prop.get()); }
// potential selected at run time reaches every driver
V_ENTRY(h_dispatch) {
  int kind = cfg;
  Scalar *f = mk(); f->lowmem = kind == 3;
  f->fieldType = kind == 0 ? FIELD_AXION : kind == 2 ? FIELD_NAXION : kind == 4 ? FIELD_PAXION : FIELD_SAXION;
  for (int q : pots) {
    initPropagator((PropType) (PROP_RKN4 | PROP_BASE), f, (VqcdType) q, 1);
    seen = 0; kernel = NONE;
    switch (kind) { case 0: prop->propAxion(0.1); break; case 1: case 3: prop->propSaxion(0.1); break; case 2: prop->propNaxion(0.1); break; case 4: prop->propPaxion(0.1); break; }
    static const int want[] = { AX, SAX, NAX, LOW, PAX };
    v_assert(kernel == want[kind], "the driver of the field type is run");
    if (kind != 4) v_assert(seen == q, "the configured potential is the one evolved");
  }
  v_cover("all potentials built");
}
static bool close(double a, double b) { return fabs(a - b) < 1e-12; }
// coefficients of the compiled integrator: order conditions of a fourth-order Runge-Kutta-Nystrom splitting
V_ENTRY(h_order) {
  Scalar *f = mk();
  initPropagator((PropType) (PROP_RKN4 | PROP_BASE), f, V_QCD1_PQ1, 1);
  double *c = as<V_QCD1_PQ1>()->c, *d = as<V_QCD1_PQ1>()->d, e[4], s = 0;
  v_cover("propagator built");
  for (int i = 0; i < 4; i++) { e[i] = s; s += d[i]; }
  double C = 0, b1 = 0, b2 = 0, b3 = 0, t1 = 0, t2 = 0, x1 = 0, x2 = 0, x3 = 0, x4 = 0;
  for (int i = 0; i < 4; i++) {
    C += c[i]; b1 += c[i]*e[i]; b2 += c[i]*e[i]*e[i]; b3 += c[i]*e[i]*e[i]*e[i];
    double in = 0; for (int j = 0; j < i; j++) in += c[j]*(e[i] - e[j]);
    t1 += c[i]*in; t2 += c[i]*e[i]*in;
    double l = 1 - e[i];
    x1 += c[i]*l; x2 += c[i]*l*e[i]; x3 += c[i]*l*e[i]*e[i]; x4 += c[i]*l*in;
  }
  v_assert(close(s, 1), "drifts add up to one step"); v_assert(close(C, 1), "kicks add up to one step");
  v_assert(close(b1, 1/2.) && close(x1, 1/2.), "second order");
  v_assert(close(b2, 1/3.) && close(t1, 1/6.) && close(x2, 1/6.), "third order");
  v_assert(close(b3, 1/4.) && close(t2, 1/8.) && close(x3, 1/12.) && close(x4, 1/24.), "fourth order");
}
