#include "vh.h"
#include "vstd.h"
#include <mpi.h>
#include <hdf5.h>
static int nerr;
static void v_exit(int) { v_assert(false, "a configuration the library wrote is accepted"); v_dead(); }
static long cap; static void capture() {}
template<typename... A> static void capture(int i, A... r) { cap = i; }
template<typename T, typename... A> static void capture(T, A... r) { capture(r...); }
template<typename... A> static int v_sprintf(char *d, const char *f, A... a) { int i = 0; while ((d[i] = f[i])) i++; cap = -1; capture(a...); return i; }
static int v_strcmp(const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; } }
static unsigned long v_strlen(const char *a) { unsigned long i = 0; while (a[i]) i++; return i; }
#include "utils/logger.h"
#define exit v_exit
#define sprintf v_sprintf
#define strcmp v_strcmp
#define strlen v_strlen
#define private public
#define protected public
#include "scalar/scalarField.cpp"
#undef LogError
#define LogError(...) (nerr++)
#include "io/readWrite.pHdf5.cpp"
#undef private
#undef protected
#undef exit
#undef sprintf
#undef strcmp

// ------------------------------------------------------------------ globals of the parser
size_t sizeN, sizeZ, iter, kMax, wTime, parm1; int zGrid = 1, nSteps, dump, fIndex, fIndex2, Nng;
double zInit, zFinl, frw, mode0, alpha, kCrit, parm2;
char outName[128] = "axion", outDir[1024] = "out"; bool lowmem = false, lowmemGPU = false, uPrec = false, uZin = false, uZfn = false, aMod = false, spectral = false, fpectral = false;
FieldPrecision sPrec; DeviceType cDev = DEV_CPU; ConfType cType; ConfsubType smvarType; FieldType fTypeP; LambdaType lType;

// ------------------------------------------------------------------ HDF5: one file of named attributes and two data sets
struct Att { long loc, h; char name[40]; long type; bool set; double d; long l; char s[32]; };
struct Space { long off, n, total; bool sel; };
struct Dset { bool made; long type, total; char *p; };
static Att att[48]; static int natt;
static long hsh(const char *n) { long h = 7; for (int i = 0; n[i]; i++) h = (h*131 + n[i]) % 1000003; return h; }
static int find(long loc, const char *n) { long h = hsh(n); for (int i = 0; i < natt; i++) if (att[i].h == h && att[i].loc == loc && !v_strcmp(att[i].name, n)) return i; return -1; }
static Space sp[16]; static int nsp;
static Dset ds[2];
static char fname[64]; static long fcap; static bool exists, grp[2], open_;
static int strsize;
static const char *const gname[2] = { "/potential", "/ic" };
enum { T_FLOAT = 101, T_DOUBLE, T_INT, T_UINT, T_HSIZE, T_C, T_STR, FILE_ID = 200, GRP_ID, SP_ID = 300, DS_ID = 400, ATT_ID = 500, PL_ID = 900 };
extern "C" {
hid_t H5T_NATIVE_FLOAT_g = T_FLOAT, H5T_NATIVE_DOUBLE_g = T_DOUBLE, H5T_NATIVE_INT_g = T_INT, H5T_NATIVE_UINT_g = T_UINT, H5T_NATIVE_HSIZE_g = T_HSIZE, H5T_C_S1_g = T_C;
hid_t H5P_CLS_FILE_ACCESS_ID_g = 801, H5P_CLS_DATASET_XFER_ID_g = 802, H5P_CLS_DATASET_CREATE_ID_g = 803;
herr_t H5open(void) { return 0; }
herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
hid_t H5Pcreate(hid_t c) { return PL_ID + c; }
herr_t H5Pclose(hid_t) { return 0; }
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info) { return 0; }
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t) { return 0; }
herr_t H5Pset_fill_time(hid_t, H5D_fill_time_t) { return 0; }
herr_t H5Pset_chunk(hid_t, int, const hsize_t *) { return 0; }
hid_t H5Fcreate(const char *n, unsigned flags, hid_t, hid_t) {
  v_assert(flags == H5F_ACC_TRUNC, "a configuration replaces the old file");
  int i = 0; while ((fname[i] = n[i])) i++; fcap = cap; exists = true; open_ = true; natt = 0; grp[0] = grp[1] = false; ds[0].made = ds[1].made = false;
  return FILE_ID;
}
hid_t H5Fopen(const char *n, unsigned, hid_t) { if (!exists || v_strcmp(n, fname) || cap != fcap) return -1; open_ = true; return FILE_ID; }
herr_t H5Fclose(hid_t f) { v_assert(f == FILE_ID && open_, "the file is closed once"); open_ = false; return 0; }
hid_t H5Tcopy(hid_t t) { v_assert(t == T_C, "strings"); return T_STR; }
herr_t H5Tset_size(hid_t, size_t n) { strsize = n; return 0; }
herr_t H5Tset_strpad(hid_t, H5T_str_t) { return 0; }
herr_t H5Tclose(hid_t) { return 0; }
hid_t H5Screate(H5S_class_t) { return SP_ID - 1; }
static hid_t space(long n) { v_assert(nsp < 16, "spaces"); sp[nsp].off = 0; sp[nsp].n = n; sp[nsp].total = n; sp[nsp].sel = false; return SP_ID + nsp++; }
hid_t H5Screate_simple(int rank, const hsize_t *n, const hsize_t *) { v_assert(rank == 1, "one dimension"); return space(*n); }
herr_t H5Sclose(hid_t) { return 0; }
herr_t H5Sselect_hyperslab(hid_t s, H5S_seloper_t, const hsize_t *o, const hsize_t *, const hsize_t *n, const hsize_t *) {
  Space *p = &sp[s - SP_ID]; p->off = *o; p->n = *n; p->sel = true; return 0;
}
hid_t H5Acreate2(hid_t loc, const char *n, hid_t t, hid_t, hid_t, hid_t) {
  if (find(loc, n) >= 0) return -1;
  v_assert(natt < 48, "attributes"); Att *a = &att[natt]; a->loc = loc; a->h = hsh(n); a->type = t; a->set = false; int i = 0; while ((a->name[i] = n[i])) i++;
  return ATT_ID + natt++;
}
herr_t H5Awrite(hid_t k, hid_t t, const void *p) {
  Att *a = &att[k - ATT_ID]; v_assert(a->type == t, "an attribute is written with its type"); a->set = true;
  if (t == T_DOUBLE) a->d = *(double *) p; else if (t == T_INT) a->l = *(int *) p; else if (t == T_UINT) a->l = *(unsigned *) p; else if (t == T_HSIZE) a->l = *(unsigned long *) p;
  else {
    v_assert(t == T_STR, "a type of the library"); const char *c = (const char *) p; int i = 0;
    for (; i < strsize; i++) if (!(a->s[i] = c[i])) break;
    v_assert(i < strsize, "a text fits into its attribute");
    char last = c[strsize - 1]; if (i < strsize - 1) a->s[strsize - 1] = last;     // the whole text is read
  }
  return 0;
}
hid_t H5Aopen_by_name(hid_t loc, const char *, const char *n, hid_t, hid_t) {
  int i = find(loc, n); return i < 0 ? -1 : ATT_ID + i;
}
herr_t H5Aread(hid_t k, hid_t t, void *p) {
  Att *a = &att[k - ATT_ID];
  v_assert(a->set && ((a->type == T_STR) == (t == T_STR)) && ((a->type == T_DOUBLE) == (t == T_DOUBLE)), "an attribute is read with the type it was written with");
  if (t == T_DOUBLE) *(double *) p = a->d; else if (t == T_INT) *(int *) p = (int) a->l; else if (t == T_UINT) *(unsigned *) p = (unsigned) a->l; else if (t == T_HSIZE) *(unsigned long *) p = a->l;
  else { char *c = (char *) p; int i = 0; for (; i < strsize; i++) if (!(c[i] = a->s[i])) break; c[strsize - 1] = 0; }   // the whole text is stored
  return 0;
}
herr_t H5Aclose(hid_t) { return 0; }
static int gidx(const char *n) { return !v_strcmp(n, gname[0]) ? 0 : !v_strcmp(n, gname[1]) ? 1 : -1; }
hid_t H5Gcreate2(hid_t, const char *n, hid_t, hid_t, hid_t) { int g = gidx(n); v_assert(g >= 0 && !grp[g], "a group of the format, once"); grp[g] = true; return GRP_ID + g; }
hid_t H5Gopen2(hid_t, const char *n, hid_t) { int g = gidx(n); return g >= 0 && grp[g] ? GRP_ID + g : -1; }
herr_t H5Gclose(hid_t) { return 0; }
htri_t H5Lexists(hid_t, const char *n, hid_t) { int g = gidx(n); return g >= 0 && grp[g]; }
static int didx(const char *n) { v_assert(n[0] == '/' && (n[1] == 'm' || n[1] == 'v') && !n[2], "data sets m and v"); return n[1] == 'v'; }
static long gtotal; static int ftype;
hid_t H5Dcreate2(hid_t, const char *n, hid_t t, hid_t s, hid_t, hid_t, hid_t) {
  int k = didx(n); Dset *d = &ds[k]; v_assert(!d->made, "a data set is made once"); d->made = true; d->type = t; d->total = sp[s - SP_ID].n;
  v_assert(d->total == gtotal, "a data set holds the sites of all ranks"); v_assert(t == ftype, "data sets have the precision of the field");
  return DS_ID + k;
}
hid_t H5Dopen2(hid_t, const char *n, hid_t) { int k = didx(n); return ds[k].made ? DS_ID + k : -1; }
hid_t H5Dget_space(hid_t d) { return space(ds[d - DS_ID].total); }
herr_t H5Dclose(hid_t) { return 0; }
}
template<typename A, typename B> static void copy(A *d, const B *s, long n) { for (long i = 0; i < n; i++) d[i] = (A) s[i]; }
static void check(const Dset *d, const Space *m, const Space *f) {
  v_assert(d->made && !m->sel && m->off == 0 && f->sel && f->total == d->total, "a slab of the data set is selected");
  v_assert(m->n == f->n && f->off >= 0 && f->off + f->n <= f->total, "slabs lie inside the data set and match the memory");
}
extern "C" {
herr_t H5Dwrite(hid_t k, hid_t t, hid_t ms, hid_t fs, hid_t, const void *p) {
  Dset *d = &ds[k - DS_ID]; Space *m = &sp[ms - SP_ID], *f = &sp[fs - SP_ID]; check(d, m, f);
  v_assert(t == d->type, "data are written in the precision of the field");
  if (t == T_DOUBLE) copy((double *) d->p + f->off, (const double *) p, f->n); else copy((float *) d->p + f->off, (const float *) p, f->n);
  return 0;
}
herr_t H5Dread(hid_t k, hid_t t, hid_t ms, hid_t fs, hid_t, void *p) {
  Dset *d = &ds[k - DS_ID]; Space *m = &sp[ms - SP_ID], *f = &sp[fs - SP_ID]; check(d, m, f);
  v_assert(t == T_DOUBLE || t == T_FLOAT, "data are reals");
  if (d->type == T_DOUBLE) { if (t == T_DOUBLE) copy((double *) p, (const double *) d->p + f->off, f->n); else copy((float *) p, (const double *) d->p + f->off, f->n); }
  else { if (t == T_DOUBLE) copy((double *) p, (const float *) d->p + f->off, f->n); else copy((float *) p, (const float *) d->p + f->off, f->n); }
  return 0;
}
}
// ------------------------------------------------------------------ environment
static long rank_, nrank;
void commSync() {} void endComms() {}
int commRank() { return rank_; } int commSize() { return nrank; }
double Cosmos::R(double ct) { return v_ufn("R", ct, 0, 0); }
double Cosmos::T(double ct) { return v_ufn("T", ct, 0, 0); }
double Cosmos::AxionMass2(double ct) { double a = v_ufn("mA", ct, 0, 0); return a*a; }
double Cosmos::LambdaP(double ct) { return v_ufn("lam", ct, 0, 0)*v_ufn("lam", ct, 0, 0); }

static int pr, nalloc;
static const char *nms[] = { "b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11" };
void alignAlloc(void **p, size_t, size_t n) { *p = n == 32 || pr == 8 ? (void *) v_array<double>(nms[nalloc], n/8) : (void *) v_array<float>(nms[nalloc], n/4); nalloc++; }
void trackAlloc(void **p, size_t n) { *p = v_array<char>(nms[nalloc++], n); }
void trackFree(void *) {}
namespace AxionFFT { void initFFT(FieldPrecision) {} void initPlan(Scalar *, FFTtype, FFTdir, std::string, size_t) {} void closeFFT() {} void removePlan(std::string) {} }
void genConf(Cosmos *, Scalar *) {}
// unfolding brings the data into natural order (property P01)
static void *natM, *natV; static int unf;

Folder::Folder(Scalar *f) : Lz(f->Depth()), n1(f->Length()), n2(f->Surf()), n3(f->Size()) { field = f; }
void Folder::operator()(FoldType t, size_t) { v_assert(t == UNFOLD_ALL, "the field is unfolded whole"); if (!field->folded) return; field->folded = false; field->m = natM; field->v = natV; unf++; }

static double rd(const void *p, int prec, long i) { return prec == 8 ? ((const double *) p)[i] : (double) ((const float *) p)[i]; }
static void *arr(const char *n, int prec, long k) { return prec == 8 ? (void *) v_array<double>(n, k) : (void *) v_array<float>(n, k); }
// ------------------------------------------------------------------ the simulation that is written, and the one that reads it
static const FieldType FT[4] = { FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION };
static Cosmos *A, *Bc; static Scalar *F, *Nf;
static long Lx, Lz, Ng, S, idx; static int ty, cx, wp; static bool fold;
struct Par { double q, qr, i3, zt, zr, lam, lz2, gam, L, z, frw, zi, zf, m0, al, kc; long it, km; VqcdType pot; LambdaType lt; ConfType ct; ConfsubType sm; };
static Par P;
static Cosmos *mkcosmos(const char *nm, bool full) {
  Cosmos *b = v_zeroed<Cosmos>(nm);
  b->icdatastruc.cType = CONF_KMAX; b->icdatastruc.zi = P.z; b->icdatastruc.Nghost = Ng; b->frw = P.frw;
  if (full) { b->lSize = P.L; b->lambda = P.lam; b->lz2e = P.lz2; b->indi3 = P.i3; b->gamma = P.gam; b->nQcd = P.q; b->nQcdr = P.qr; b->zThRes = P.zt; b->zRestore = P.zr; b->pot = P.pot; }
  else { b->lSize = 0; b->lambda = b->indi3 = b->gamma = b->nQcd = b->nQcdr = b->zThRes = b->zRestore = -1.e8; b->lz2e = 2; b->pot = V_NONE; }
  return b;
}
static void mkfield(int type, int prec) {
  ty = type; wp = prec; cx = type == 0 ? 2 : 1; natt = nsp = nerr = nalloc = unf = 0; exists = open_ = false; lowmem = false;
  Lx = 4*v_int("Lx4", 1, 1L << 10, 1, 2); Lz = v_int("Lz", 1, 1L << 12, 1, 4); Ng = 2; S = Lx*Lx;
  nrank = v_int("ranks", 1, 1 << 16, 1, 3); rank_ = v_int("rank", 0, 1 << 16, 0, 2); v_assume(rank_ < nrank && Lz >= Ng);
  zGrid = nrank; sizeN = Lx; sizeZ = Lz;
  P.q = v_real("nQcd", 0, 10); P.qr = v_real("nQcdr", 0, 10); P.i3 = v_real("indi3", 0.1, 10); P.zt = v_real("zThRes", 0.1, 10); P.zr = v_real("zRestore", 0.1, 10);
  P.lam = v_real("lambda", 1, 10000); P.gam = v_real("gamma", 0, 10); P.L = v_real("L", 0.1, 50); P.z = v_real("z", 0.1, 20); P.frw = v_real("frw", 0.1, 3);
  P.zi = v_real("zInit", 0.1, 20); P.zf = v_real("zFinl", 0.1, 20); P.m0 = v_real("mode0", -3, 3); P.al = v_real("alpha", 0, 1); P.kc = v_real("kCrit", 0, 3);
  P.it = v_int("iter", 0, 1L << 40, 0, 9); P.km = v_int("kMax", 0, 1L << 40, 0, 9);
  P.pot = V_QCD1_PQ1; P.lt = LAMBDA_Z2; P.lz2 = v_real("lz2e", 0, 4); P.ct = CONF_KMAX; P.sm = CONF_RAND;
}
static void put(bool choose) {
  A = mkcosmos("cosA", true);
  zInit = P.zi; zFinl = P.zf; mode0 = P.m0; alpha = P.al; kCrit = P.kc; iter = P.it; kMax = P.km; cType = P.ct; smvarType = P.sm; lType = P.lt;
  long own = S*Lz*cx, gh = S*Ng*cx; bool gv = FT[ty] == FIELD_PAXION;
  F = v_zeroed<Scalar>("F"); *(int *) &F->nSplit = nrank; F->n1 = Lx; F->n2 = S; F->Ng = Ng; F->n3 = S*Lz; F->Lz = Lz; F->Ez = Lz + 2*Ng; F->Tz = Lz*nrank; F->v3 = S*(Lz + 2*Ng);
  F->fSize = wp*cx; F->precision = wp == 8 ? FIELD_DOUBLE : FIELD_SINGLE; F->device = DEV_CPU; F->fieldType = FT[ty]; F->lambdaType = P.lt; F->bckgnd = A; F->statusM2 = M2_DIRTY;
  F->z = v_array<double>("pz", 1); F->R = v_array<double>("pR", 1); *F->z = P.z; *F->R = v_ufn("R", P.z, 0, 0);
  natM = arr("m", wp, own + 2*gh); natV = arr("v", wp, gv ? own + 2*gh : own + 2*S*cx);
  F->folded = fold = choose && v_choose(2);
  F->m = fold ? arr("mf", wp, own + 2*gh) : natM; F->v = fold ? arr("vf", wp, gv ? own + 2*gh : own + 2*S*cx) : natV;
  gtotal = S*Lz*nrank*cx; ftype = wp == 8 ? T_DOUBLE : T_FLOAT;
  ds[0].p = (char *) arr("file_m", wp, gtotal); ds[1].p = (char *) arr("file_v", wp, gtotal);
}
static void write(int index, bool restart) {
  writeConf(F, index, restart);
  v_cover("written");
  v_assert(nerr == 0 && !open_ && exists, "the configuration is written and the file closed");
  v_assert(!F->folded && unf == (fold ? 1 : 0), "the field is unfolded once, if it was folded, and says so");
  void *m = F->mStart(), *v = F->vStart();
  V_FORALL(zz, 0, Lz) V_FORALL(j, 0, S*cx) {
    long i = zz*S*cx + j, at = (rank_*Lz + zz)*S*cx + j;
    v_assert(rd(ds[0].p, wp, at) == rd(m, wp, i), "the file holds the field in natural global order"); v_assert(rd(ds[1].p, wp, at) == rd(v, wp, i), "the file holds the velocity in natural global order");
  }
}
static void read(int index, bool restart, int rp) {
  Bc = mkcosmos("cosB", false);
  zInit = zFinl = mode0 = alpha = kCrit = -77; iter = kMax = 77; cType = CONF_NONE; smvarType = CONF_RAND; lType = P.lt == LAMBDA_Z2 ? LAMBDA_FIXED : LAMBDA_Z2; fIndex = restart ? -1 : index;
  fTypeP = FT[ty]; pr = rp ? rp : wp; uPrec = rp != 0; sPrec = pr == 8 ? FIELD_DOUBLE : FIELD_SINGLE; nsp = 0;
  Nf = nullptr; Scalar *out = nullptr;
  readConf(Bc, &out, index, restart); Nf = out;
  v_cover("read");
  v_assert(nerr == 0 && Nf != nullptr && !open_, "a configuration the library wrote is read without an error and closed");
}
static void same(int rp) {
  v_assert(Nf->Field() == FT[ty] && Nf->Precision() == (pr == 8 ? FIELD_DOUBLE : FIELD_SINGLE) && (long) Nf->Length() == Lx && (long) Nf->Depth() == Lz && (long) Nf->TotalDepth() == Lz*nrank && (long) Nf->getNg() == Ng && !Nf->Folded(), "type, size, precision and layout are those written");
  V_EQ(*Nf->zV(), P.z, "time of the field is that written"); V_EQ(*Nf->RV(), v_ufn("R", P.z, 0, 0), "scale factor is that of the time written");
  void *m = Nf->mStart(), *v = Nf->vStart(); void *m0 = F->mStart(), *v0 = F->vStart();
  V_FORALL(zz, 0, Lz) V_FORALL(j, 0, S*cx) {
    long i = zz*S*cx + j;
    if (pr == 4 && wp == 8) { V_EQF(rd(m, pr, i), rd(m0, wp, i), "every site is read back"); V_EQF(rd(v, pr, i), rd(v0, wp, i), "every velocity is read back"); }
    else { V_EQ(rd(m, pr, i), rd(m0, wp, i), "every site is read back"); V_EQ(rd(v, pr, i), rd(v0, wp, i), "every velocity is read back"); }
  }
}
static void params() {
  V_EQ(Bc->lSize, P.L, "physical size is read back"); V_EQ(Bc->nQcd, P.q, "exponent of the axion mass is read back"); V_EQ(Bc->nQcdr, P.qr, "second exponent of the axion mass is read back"); V_EQ(Bc->indi3, P.i3, "axion mass at unit scale is read back");
  V_EQ(Bc->zThRes, P.zt, "saturation threshold is read back"); V_EQ(Bc->zRestore, P.zr, "restore threshold is read back"); V_EQ(Bc->lambda, P.lam, "self-coupling is read back"); V_EQ(Bc->gamma, P.gam, "damping is read back");
  if (P.lt == LAMBDA_Z2) V_EQ(Bc->lz2e, P.lz2, "dilution exponent of the self-coupling is read back"); else V_EQ(Bc->lz2e, 0, "a fixed self-coupling is not diluted");
  v_assert(lType == P.lt && Nf->LambdaT() == P.lt, "type of self-coupling is read back");
  v_assert(Bc->pot == P.pot, "potential, damping and evolution flags are read back");
  V_EQ(zInit, P.zi, "initial time is read back"); V_EQ(zFinl, P.zf, "final time is read back"); V_EQ(mode0, P.m0, "zero mode is read back");
  v_assert(cType == P.ct && smvarType == P.sm, "kind of initial conditions is read back");
  if (P.ct == CONF_SMOOTH) { v_assert((long) iter == P.it, "smoothing iterations are read back"); V_EQ(alpha, P.al, "smoothing constant is read back"); }
  else if (P.ct != CONF_NONE) { if (P.ct != CONF_THERMAL) v_assert((long) kMax == P.km, "largest mode is read back"); if (P.ct != CONF_SPAX) V_EQ(kCrit, P.kc, "critical mode is read back"); }
  IcData ic = Bc->ICData(); V_EQ(ic.zi, P.z, "the simulation continues at the time written");
}
// cfg = type + 10*(single) + 100*(read as: 0 as written, 1 double, 2 single) + 1000*restart
V_ENTRY(h_io) {
  mkfield(cfg%10, cfg/10%10 ? 4 : 8); bool re = cfg/1000; int rp = cfg/100%10; rp = rp == 0 ? 0 : rp == 1 ? 8 : 4;
  int index = v_int("index", 0, 1 << 20, 0, 99);
  put(true); write(index, re); read(index, re, rp); same(rp);
  if (re) v_assert(fIndex == index, "a restart continues with the index written");
}
static const VqcdType Q[6] = { V_QCD0, V_QCD1, V_QCDV, V_QCD2, V_QCDL, V_QCDC }, PQ[3] = { V_PQ1, V_PQ2, V_PQ3 }, DA[3] = { V_NONE, V_DAMP_RHO, V_DAMP_ALL };
static const ConfType CT[9] = { CONF_SMOOTH, CONF_KMAX, CONF_VILGOR, CONF_LOLA, CONF_COLE, CONF_TKACHEV, CONF_THERMAL, CONF_SPAX, CONF_NONE };
static const ConfsubType SM[11] = { CONF_RAND, CONF_STRINGXY, CONF_STRINGYZ, CONF_MINICLUSTER0, CONF_MINICLUSTER, CONF_AXNOISE, CONF_SAXNOISE, CONF_AX1MODE, CONF_PARRES, CONF_AXITON, CONF_STRWAVE };
// cfg: 0-5 QCD potential + 10*PQ potential + 100*damping (or 300 for all of them), with each evolution; 6, 16, 26 kinds of initial conditions; 7, 17, 27 their types; 8 self-coupling
V_ENTRY(h_par) {
  mkfield(0, 8);
  int c = cfg%10, h = cfg/10%10;
  if (c < 6) P.pot = (VqcdType) (Q[c] | PQ[h] | DA[cfg/100] | (v_choose(2) ? V_EVOL_RHO : V_NONE));
  if (c == 6) P.ct = CT[3*h + v_choose(3)];
  if (c == 7) P.sm = SM[4*h + v_choose(h < 2 ? 4 : 3)];
  if (cfg == 8) P.lt = v_choose(2) ? LAMBDA_Z2 : LAMBDA_FIXED;
  put(false); write(3, false); read(3, false, 0); params();
}
