#include "vh.h"
#include "vstd.h"
#define private public
#define protected public
#include "scalar/scalarField.cpp"
#undef private
#undef protected

// allocation is recorded: every block is owned until it is released, once
struct Blk { char *p; long n; bool live; };
static Blk B[16]; static int nb, dead;
static void *got(void *p, size_t n) { B[nb].p = (char *) p; B[nb].n = n; B[nb].live = true; nb++; return p; }
static int pr;
static const char *nms[] = { "b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11" };
void alignAlloc(void **p, size_t al, size_t n) { v_assert(al == 32, "vector alignment"); *p = got(n == 32 || pr == 8 ? (void *) v_array<double>(nms[nb], n/8) : (void *) v_array<float>(nms[nb], n/4), n); }
void trackAlloc(void **p, size_t n) { *p = got(v_array<char>(nms[nb], n), n); }
void trackFree(void *p) {
  int k = -1; for (int i = 0; i < nb; i++) if (B[i].p == p) k = i;
  v_assert(k >= 0, "only allocated blocks are released"); if (k < 0) return;
  v_assert(B[k].live, "a block is released once"); B[k].live = false; dead++;
}
bool lowmemGPU = false, fpectral = false; int fIndex = 0, fIndex2 = 0;
namespace AxionFFT { void initFFT(FieldPrecision) {} void initPlan(Scalar *, FFTtype, FFTdir, std::string, size_t) {} void closeFFT() {} }
void genConf(Cosmos *, Scalar *) {}
void commSync() {} int commRank() { return 0; } int commSize() { return 1; } void endComms() {}
double Cosmos::R(double ct) { return v_ufn("R", ct, 0, 0); }

struct Reg { char *p; long n; bool byte; const char *nm; };       // n reals (or bytes)
static Reg Q[24]; static int nq;
static void reg(const char *nm, void *p, long n, bool byte = false) { Q[nq].p = (char *) p; Q[nq].n = n; Q[nq].byte = byte; Q[nq].nm = nm; nq++; }
static double get(const Reg &r, long i) { return r.byte ? (double) r.p[i] : pr == 8 ? ((double *) r.p)[i] : (double) ((float *) r.p)[i]; }
static void put(const Reg &r, long i, double x) { if (r.byte) r.p[i] = (char) 1; else if (pr == 8) ((double *) r.p)[i] = x; else ((float *) r.p)[i] = (float) x; }
// what a field of this type may touch: sites and ghosts of each buffer, by the accessors the library uses
static void regions(Scalar *f) {
  nq = 0;
  long S = f->Surf(), N = f->Size(), L = f->Depth(), g = f->getNg()*S, e = f->DataSize()/pr, t = f->Field();
  bool cx = t & 1 || t == FIELD_NAXION, rd = t & FIELD_REDUCED || t == FIELD_WKB;
  v_assert(e == (cx ? 2 : 1), "one real per site, two for complex fields");
  reg("front ghosts", f->mFrontGhost(), g*e); reg("field", f->mStart(), N*e); reg("back ghosts", f->mBackGhost(), g*e);
  v_assert(f->mCpu() == f->mFrontGhost(), "the field starts with its front ghosts");
  if (t == FIELD_PAXION || t == FIELD_FAXION) { reg("front ghosts of v", f->vFrontGhost(), g*e); reg("velocity", (char *) f->vCpu() + g*e*pr, N*e); reg("back ghosts of v", f->vBackGhost(), g*e); if (t == FIELD_PAXION) v_assert((char *) f->vStart() == (char *) f->vCpu() + g*e*pr, "velocity starts behind its ghosts"); }
  else if (t != FIELD_NAXION) { reg("velocity and padding for transforms", f->vCpu(), S*(L + 2)*e); v_assert(f->vStart() == f->vCpu(), "velocity has no ghosts"); }
  if (!rd && !f->LowMem()) {
    reg("front ghosts of m2", f->m2FrontGhost(), g*e); reg("second buffer", f->m2Start(), N*e); reg("back ghosts of m2", f->m2BackGhost(), g*e);
    if (!cx) { reg("second half of m2", f->m2half(), N + 2*g); v_assert((char *) f->m2hStart() == (char *) f->m2half() + g*pr, "second half starts with its ghosts"); }
  }
  if (t == FIELD_FAXION) {
    reg("rho", f->rhoCpu(), N + 2*g); reg("vho", f->vhoCpu(), N + 2*g); reg("gx", f->gxCpu(), N + 2*g); reg("gy", f->gyCpu(), N + 2*g); reg("gz", f->gzCpu(), N + 2*g);
    v_assert((char *) f->rhoBackGhost() == (char *) f->rhoCpu() + (N + g)*pr && (char *) f->vhoBackGhost() == (char *) f->vhoCpu() + (N + g)*pr && (char *) f->gxBackGhost() == (char *) f->gxCpu() + (N + g)*pr && (char *) f->gyBackGhost() == (char *) f->gyCpu() + (N + g)*pr && (char *) f->gzBackGhost() == (char *) f->gzCpu() + (N + g)*pr, "ghosts of the auxiliary fields");
  }
}
// cfg: path + 20*Ng + 200 (single precision)
static const FieldType path[][3] = {
  { FIELD_SAXION }, { FIELD_SAXION }, { FIELD_AXION }, { FIELD_AXION_MOD }, { FIELD_AX_RD }, { FIELD_SX_RD }, { FIELD_AX_MOD_RD }, { FIELD_PAXION }, { FIELD_FAXION }, { FIELD_WKB },
  { FIELD_SAXION, FIELD_AXION }, { FIELD_SAXION, FIELD_AXION }, { FIELD_SAXION, FIELD_AXION, FIELD_NAXION }, { FIELD_SAXION, FIELD_AXION, FIELD_PAXION }, { FIELD_AXION, FIELD_NAXION }, { FIELD_AXION, FIELD_PAXION },
  { FIELD_SAXION, FIELD_AXION_MOD }, { FIELD_SAXION, FIELD_AXION, FIELD_SAXION }, { FIELD_SAXION, FIELD_AXION, FIELD_PAXION } };
static const bool low[] = { 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 1 };
static void look(Scalar *f, bool fresh) {
  regions(f);
  int a = v_choose(nq), c = v_choose(nq); long i = v_int("i", 0, 1L << 50, 0, 3000), j = v_int("j", 0, 1L << 50, 0, 3000);
  v_assume(i < Q[a].n && j < Q[c].n);
  if (fresh && !Q[a].byte) v_assert(get(Q[a], i) == 0, "memory of a new field is zero");
  if (a != c) { put(Q[c], j, 0); put(Q[a], i, 1); v_assert(get(Q[c], j) == 0, "buffers do not overlap"); }
}
static void conv(Scalar *f, FieldType t) {
  f->setField(t); if (t & FIELD_AXION) f->setLowMem(false);
  v_assert(f->Field() == t, "type follows the conversion");
}
V_ENTRY(h_mem) {
  int k = cfg % 20, Ng = cfg/20 % 10; pr = cfg >= 200 ? 4 : 8; nb = dead = 0;
  long n = 4*v_int("n4", 1, 1L << 10, 1, 2), L = v_int("Lz", 1, 1L << 12, 1, 5);
  Cosmos *b = v_zeroed<Cosmos>("bck"); b->lSize = 6; b->lambda = 1; b->icdatastruc.cType = CONF_KMAX; double zi = v_real("zi", 0.1, 5); b->icdatastruc.zi = zi;
  v_assume(zi > 0);
  Scalar *f = new Scalar(b, n, L, pr == 4 ? FIELD_SINGLE : FIELD_DOUBLE, DEV_CPU, 1., low[k], 2, path[k][0], LAMBDA_Z2, Ng);
  v_assert(f->Surf() == n*n && f->Size() == n*n*L && f->eSize() == n*n*(L + 2*Ng) && f->TotalSize() == 2*n*n*L && f->Length() == n && f->Depth() == L && f->TotalDepth() == 2*L && (int) f->getNg() == Ng, "dimensions are those asked for");
  v_assert(!f->Folded() && !f->M2Folded() && !f->Reduced() && !f->MMomSpace() && !f->VMomSpace(), "a new field is unfolded, in position space and not reduced");
  V_EQ(*f->zV(), zi, "a new field starts at the initial time"); V_EQ(*f->RV(), v_ufn("R", zi, 0, 0), "scale factor is that of the initial time");
  if (!path[k][1]) look(f, true);
  else { conv(f, path[k][1]); if (!path[k][2]) look(f, false); else { conv(f, path[k][2]); look(f, false); } }
  v_cover("field");
  delete f;
  v_assert(dead == nb, "all memory of a field is released");
}
// cfg: Ng. Coefficients of the Laplacian
V_ENTRY(h_co) {
  Scalar *f = v_zeroed<Scalar>("field"); f->Ng = cfg;
  f->setCO(cfg);
  v_cover("coefficients");
  v_assert((int) f->co.size() == cfg, "as many coefficients as neighbours");
  double *c = f->getCO();
  for (int j = 1; j <= cfg; j++) { double s = 0; for (int k = 0; k < cfg; k++) { double p = 1; for (int l = 0; l < 2*j; l++) p *= k + 1; s += c[k]*p; } V_EQ(s, j == 1 ? 1 : 0, "Laplacian is exact to its order"); }
}
V_ENTRY(h_dims) {
  Scalar *f = v_zeroed<Scalar>("field"); 
  long n = v_int("n", 1, 1L << 10, 1, 20), L = v_int("Lz", 1, 1L << 12, 1, 20), Ng = v_int("Ng", 0, 8, 0, 5), a = v_int("a", 1, 1L << 10, 1, 20), c = v_int("c", 1, 1L << 12, 1, 20);
  f->n1 = n; f->n2 = n*n; f->n3 = n*n*L; f->Lz = L; f->Tz = 2*L; f->Ez = L + 2*Ng; f->v3 = n*n*(L + 2*Ng); f->Ng = Ng; *(int *) &f->nSplit = 2;
  if (cfg == 0) {
    bool sm = a < n && c < L; v_cover("dimensions");
    f->setDims(a, c); if (!sm) { a = n; c = L; }
    v_assert(f->Length() == a && f->Surf() == a*a && f->Size() == a*a*c && f->Depth() == c && f->TotalDepth() == 2*c && f->eDepth() == c + 2*Ng && f->eSize() == a*a*(c + 2*Ng), "all dimensions follow, and only shrink");
  } else {
    v_cover("reduction");
    f->setReduced(true, a, c);
    v_assert(f->Reduced() && f->rLength() == a && f->rDepth() == c && f->rSize() == a*a*c && f->rTotalDepth() == 2*c && f->Size() == n*n*L && f->Length() == n && f->Depth() == L, "reduced dimensions are kept beside the true ones");
    f->setReduced(false, 1, 1);
    v_assert(!f->Reduced() && f->rLength() == n && f->rDepth() == L && f->rSize() == n*n*L && f->rTotalDepth() == 2*L, "without reduction the dimensions are the true ones");
  }
}
