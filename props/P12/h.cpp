#include "vh.h"
#include "vstd.h"
#define _TUNABLE_
#include <string>
struct Tunable { template<typename S> void setName(const S &) {} template<typename S> void appendName(const S &) {} void add(double, double) {} std::string Name() { return std::string(); } double GFlops() { return 0; } double GBytes() { return 0; } };
#define private public
#define protected public
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "utils/logger.h"
#include "utils/profiler.h"
#include "scalar/fourier.h"
#include "strings/stringXeon.cpp"
#undef opCode
#undef opCode_P
#undef opCode_N
#undef Align
#undef _PREFIX_
#undef _MData_
#undef step
#include "strings/strings.cpp"
#undef private
#undef protected

struct W { long sh, Lx, YC, XC, Sf, Lz, Ng; int p; char *str; void *M; };
static W G;
static double at(long x, long yc, long s, long z, int c) {
  if (x >= G.Lx) x -= G.Lx;
  if (yc >= G.YC) { yc -= G.YC; s = (s + 1) % G.sh; }
  long i = 2*((z + G.Ng)*G.Sf + yc*G.XC + x*G.sh + s) + c;
  return G.p == FIELD_DOUBLE ? ((double *) G.M)[i] : ((float *) G.M)[i];
}
// the field turns from a to b across the real axis: +-1, by the sense of rotation
static int turn(double ar, double ai, double br, double bi) { return ai*bi < 0 ? (ai*br - ar*bi > 0 ? 1 : -1) : 0; }
// and does so on the negative side
static bool wall(double ar, double ai, double br, double bi) { return ai*bi < 0 && (ai*br - ar*bi)*(ai - bi) < 0; }
#define P(x, y, z) at(x, y, s, z, 0), at(x, y, s, z, 1)
static int plaq(int n, long x, long y, long s, long z) {
  if (n == 0) return turn(P(x, y, z), P(x+1, y, z)) + turn(P(x+1, y, z), P(x+1, y+1, z)) + turn(P(x+1, y+1, z), P(x, y+1, z)) + turn(P(x, y+1, z), P(x, y, z));
  if (n == 1) return turn(P(x, y, z), P(x, y+1, z)) + turn(P(x, y+1, z), P(x, y+1, z+1)) + turn(P(x, y+1, z+1), P(x, y, z+1)) + turn(P(x, y, z+1), P(x, y, z));
  return turn(P(x, y, z), P(x, y, z+1)) + turn(P(x, y, z+1), P(x+1, y, z+1)) + turn(P(x+1, y, z+1), P(x+1, y, z)) + turn(P(x+1, y, z), P(x, y, z));
}
static bool walls(long x, long y, long s, long z) { return wall(P(x, y, z), P(x+1, y, z)) || wall(P(x, y, z), P(x, y+1, z)) || wall(P(x, y, z), P(x, y, z+1)); }
static int flags(long x, long y, long s, long z) {
  int f = 0, a = plaq(0, x, y, s, z), b = plaq(1, x, y, s, z), c = plaq(2, x, y, s, z);
  if (a == 2) f |= STRING_XY_POSITIVE; if (a == -2) f |= STRING_XY_NEGATIVE;
  if (b == 2) f |= STRING_YZ_POSITIVE; if (b == -2) f |= STRING_YZ_NEGATIVE;
  if (c == 2) f |= STRING_ZX_POSITIVE; if (c == -2) f |= STRING_ZX_NEGATIVE;
  if (walls(x, y, s, z)) f |= STRING_WALL;
  return f;
}
static int count(int kind, long x, long y, long s, long z) {
  if (kind == 2) return walls(x, y, s, z);
  int n = 0;
  for (int i = 0; i < 3; i++) { int p = plaq(i, x, y, s, z); if (p == 2) n++; else if (p == -2) n += kind ? -1 : 1; }
  return n;
}
#ifdef V_SYM
extern "C" void v_split(bool);
extern "C" double v_here(double);
extern "C" double v_sumterm(double total, long k, long n);
static void sumEq(double total, int kind, const char *lab) {
  V_FORALL(z, 0, G.Lz) V_FORALL(yc, 0, G.YC) V_FORALL(x, 0, G.Lx) {
    double e = 0;
    v_split(x == G.Lx - 1); v_split(yc == G.YC - 1);
    for (int s = 0; s < G.sh; s++) e += count(kind, x, yc, s, z);
    V_EQ(v_sumterm(total, (z*G.YC + yc)*G.Lx + x, G.Lz*G.YC*G.Lx), e, lab);
  }
}
#else
#define v_split(x)
#define v_here(x) (x)
static void sumEq(double total, int kind, const char *lab) {
  double e = 0;
  for (long z = 0; z < G.Lz; z++) for (long yc = 0; yc < G.YC; yc++) for (long x = 0; x < G.Lx; x++) for (int s = 0; s < G.sh; s++) e += count(kind, x, yc, s, z);
  V_EQ(total, e, lab);
}
#endif
static void *A2; static long ranks; static Scalar *Fd; static int sums;
// the environment of the search: space, folding and ghosts come to be what they have to be when asked for
FTfield::FTfield(Scalar *f) : field(f), Lz(1), n1(1), n2(1), n3(1), N(1) { v_assert(f == Fd, "the field searched is transformed"); }
void FTfield::operator()(FieldIndex fi, FFTdir d) { v_assert((fi & FIELD_M) && d == FFT_BCK, "the field is taken back to position space"); Fd->mmomspace = Fd->vmomspace = false; }
Folder::Folder(Scalar *s) : field(s), Lz(1), n1(1), n2(1), n3(1) { v_assert(s == Fd, "the field searched is folded"); }
void Folder::operator()(FoldType t, size_t) { v_assert((t == FOLD_ALL) && !Fd->folded && !Fd->mmomspace, "the field is folded in position space"); Fd->folded = true; }
void Scalar::exchangeGhosts(FieldIndex fi) { v_assert(this == Fd && (fi & FIELD_M) && folded && !mmomspace, "ghosts of the folded field are exchanged"); memcpy(m, A2, 2*v3*(precision == FIELD_DOUBLE ? 8 : 4)); }
// every rank finds the same
extern "C" int MPI_Allreduce(const void *snd, void *rcv, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  v_assert((t == MPI_UNSIGNED_LONG || t == MPI_LONG) && c == MPI_COMM_WORLD && (o == MPI_SUM || o == MPI_MAX), "numbers of every rank are added");
  for (int i = 0; i < n; i++) ((long *) rcv)[i] = (o == MPI_SUM ? ranks : 1)*((const long *) snd)[i];
  return 0;
}
static void shape(bool dbl) {
  G.p = dbl ? FIELD_DOUBLE : FIELD_SINGLE; G.sh = dbl ? 2 : 4;
  G.YC = v_int("YC", 2, 1 << 10, 2, 5); G.Lx = G.YC*G.sh; G.XC = G.Lx*G.sh; G.Sf = G.Lx*G.Lx; G.Lz = v_int("Lz", 1, 1 << 12, 1, 5);
}
static void found(const StringData &r, int what) {
  if (what == 0) sumEq((double) r.strDen_local, 0, "number of plaquettes around which the phase winds");
  if (what == 1) sumEq((double) r.strChr_local, 1, "winding summed over plaquettes");
  if (what == 2) sumEq((double) r.wallDn_local, 2, "number of sites with a domain wall at one of their links");
  if (what == 3) for (int s = 0; s < G.sh; s++) V_FORALL(z, 0, G.Lz) V_FORALL(yc, 0, G.YC) V_FORALL(x, 0, G.Lx) {
    v_split(x == G.Lx - 1); v_split(yc == G.YC - 1);
    V_EQ(v_here(G.str[x + (yc + s*G.YC)*G.Lx + z*G.Sf]), flags(x, yc, s, z), "map of strings and walls, in natural order");
  }
}
template<typename F> static void kern(int Ng, int what) {
  shape(sizeof(F) == 8); G.Ng = Ng;
  long v3 = G.Sf*(G.Lz + 2*Ng), n3 = G.Sf*G.Lz;
  F *m = v_array<F>("m", 2*v3), *m0 = v_snap(m, 2*v3); G.M = m;
  G.str = v_array<char>("str", n3);
  memset(G.str, 0, n3);
  StringData r = stringKernelXeon(m, G.Lx, G.Lz, Ng*G.Sf, (Ng + G.Lz)*G.Sf, G.Lx, G.Lz, (FieldPrecision) G.p, G.str);
  v_cover("kernel returns");
  found(r, what);
  if (what == 2) V_FORALL(i, 0, 2*v3) V_EQ(m[i], m0[i], "field kept");
}
// cfg = Ng + 10*single + 100*(0 strings, 1 winding, 2 walls, 3 map)
V_ENTRY(h_kern) { if (cfg/10%10) kern<float>(cfg%10, cfg/100); else kern<double>(cfg%10, cfg/100); }
static int ST, NG;
template<typename F> static void all(int ft, int what) {
  shape(sizeof(F) == 8); G.Ng = NG;
  long v3 = G.Sf*(G.Lz + 2*G.Ng), n3 = G.Sf*G.Lz;
  Scalar *f = Fd = v_zeroed<Scalar>("field");
  ranks = v_int("ranks", 1, 1 << 12, 1, 3);
  f->n1 = G.Lx; f->n2 = G.Sf; f->n3 = n3; f->Lz = G.Lz; f->v3 = v3; f->Ng = G.Ng; *(int *) &f->nSplit = ranks; f->Tz = G.Lz*ranks; f->Ez = G.Lz + 2*G.Ng;
  f->precision = (FieldPrecision) G.p; f->device = DEV_CPU; f->fSize = 2*sizeof(F); f->shift = G.sh; f->mAlign = 32;
  static const int T[4] = { FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_WKB };
  f->fieldType = (FieldType) T[ft]; { int k = ft ? v_choose(4) : ST; f->folded = k == 1; f->mmomspace = k == 2; f->vmomspace = k > 1; }
  F *m = v_array<F>("m", 2*v3), *m0 = v_snap(m, 2*v3); A2 = v_array<F>("field in position space, folded, with ghosts", 2*v3); G.M = A2;
  f->m = m; f->str = G.str = v_array<char>("str", n3);
  StringData r = strings(f);
  v_cover("search returns");
  if (ft) { v_assert(!r.strDen && !r.strChr && !r.wallDn && !r.strDen_local && !r.strChr_local && !r.wallDn_local, "no strings are reported in an angle"); return; }
  found(r, what);
  if (what == 3) v_assert(f->statusSD == SD_MAP, "the map is declared");
  if (what == 0) v_assert((long) r.strDen == ranks*(long) r.strDen_local, "strings of every rank are counted");
  if (what == 1) v_assert((long) r.strChr == ranks*(long) r.strChr_local, "winding of every rank is counted");
  if (what == 2) { v_assert((long) r.wallDn == ranks*(long) r.wallDn_local, "walls of every rank are counted"); V_FORALL(i, 0, 2*v3) V_EQ(((F *) f->m)[i], ((F *) A2)[i], "field kept"); }
}
// cfg = field type (0 complex) + 10*single + 100*(as above) + 1000*(0 unfolded, 1 folded, 2 in momentum space) + 10000*Ng
V_ENTRY(h_strings) { NG = cfg/10000; ST = cfg/1000%10; cfg %= 1000; if (cfg/10%10) all<float>(cfg%10, cfg/100); else all<double>(cfg%10, cfg/100); }
