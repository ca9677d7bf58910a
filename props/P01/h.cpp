#include "vh.h"
#include "vstd.h"
#define private public
#define protected public
#include "scalar/folder.cpp"
#undef private
#undef protected

// The grid of one rank: Lz slices of n1 x n1 sites, Ng ghost slices in front and behind.
template<typename cF> struct ftraits;
template<> struct ftraits<double> { typedef double F; static const int w = 1; static const FieldPrecision p = FIELD_DOUBLE; };
template<> struct ftraits<float>  { typedef float F; static const int w = 1; static const FieldPrecision p = FIELD_SINGLE; };
template<> struct ftraits<std::complex<double>> { typedef double F; static const int w = 2; static const FieldPrecision p = FIELD_DOUBLE; };
template<> struct ftraits<std::complex<float>>  { typedef float F; static const int w = 2; static const FieldPrecision p = FIELD_SINGLE; };

struct G { long shift, q, n1, n2, n3, Lz, Ng, v3, vo, vn; Scalar *f; };

template<typename cF>
static G grid(int align, FieldType t) {
  typedef typename ftraits<cF>::F F; const int w = ftraits<cF>::w;
  G g;
  g.shift = align/sizeof(cF);
  g.q  = v_int("q", 1, 1 << 12, 1, 3);
  g.n1 = g.shift*g.q; g.n2 = g.n1*g.n1;
  g.Lz = v_int("Lz", 1, 1 << 12, 1, 4);
  g.Ng = v_int("Ng", 1, 8, 1, 3);
  g.n3 = g.n2*g.Lz; g.v3 = g.n3 + 2*g.n2*g.Ng;
  Scalar *f = v_zeroed<Scalar>("field"); g.f = f;
  f->n1 = g.n1; f->n2 = g.n2; f->n3 = g.n3; f->Lz = g.Lz; f->Ng = g.Ng; f->v3 = g.v3;
  f->fSize = sizeof(cF); f->mAlign = align; f->precision = ftraits<cF>::p; f->fieldType = t; f->device = DEV_CPU;
  f->m  = v_array<F>("m", w*g.v3);
  // a paxion velocity carries ghost slices like the field, any other one two spare slices at its end
  g.vo = t == FIELD_PAXION ? g.n2*g.Ng : 0; g.vn = t == FIELD_PAXION ? g.v3 : g.n2*(g.Lz + 2);
  f->v  = v_array<F>("v", w*g.vn);
  f->m2 = v_array<F>("m2", w*g.v3);
  return g;
}

#define VIEW  const int w = ftraits<cF>::w; typedef typename ftraits<cF>::F F; \
  F *gm = (F *) g.f->m, *gv = (F *) g.f->v + w*g.vo, *gs = (F *) g.f->m2; \
  F *m0 = v_snap(gm, w*g.v3), *v0 = v_snap(gv, w*g.n3), *s0 = v_snap(gs, w*g.v3); \
  const long o = w*g.n2*g.Ng, ob = o + w*g.n3;
#define SAME(a, a0, lo, hi, what) V_FORALL(k_, lo, hi) V_EQ(a[k_], a0[k_], what);
// site (ix, iy + sy*q, iz) of the folded (fo) and of the natural (na) layout
#define SITES(iz) V_FORALL(iy, 0, g.q) V_FORALL(ix, 0, g.n1) V_FORALL(sy, 0, g.shift) V_FORALL(c, 0, w)
#define NA w*((iy + sy*g.q)*g.n1 + ix) + c
#define FO w*(iy*g.n1*g.shift + ix*g.shift + sy) + c
#define ZZ w*iz*g.n2

// whole-field fold and unfold (and the second buffer's): what = 0 fold, 1 unfold, 2 fold m2, 3 unfold m2, +4: already in that state
template<typename cF> static void whole(int align, FieldType t, int what) {
  G g = grid<cF>(align, t); VIEW
  bool un = what & 1, second = what & 2, already = what & 4;
  bool st = un != already;
  g.f->folded = second ? !st : st; g.f->M2folded = second ? st : !st;
  bool other = second ? g.f->folded : g.f->M2folded;
  (*new (v_cells<Folder>("fd")) Folder(g.f))(second ? (un ? UNFOLD_M2 : FOLD_M2) : (un ? UNFOLD_ALL : FOLD_ALL));
  v_cover("fold returns");
  v_assert((second ? g.f->M2folded : g.f->folded) == !un, "the field is marked with its new layout");
  v_assert((second ? g.f->folded : g.f->M2folded) == other, "the other buffer keeps its layout mark");
  if (already) {
    SAME(gm, m0, 0, w*g.v3, "a field already in the layout is left alone");
    SAME(gs, s0, 0, w*g.v3, "a field already in the layout is left alone");
    SAME(gv, v0, 0, w*g.n3, "a field already in the layout is left alone");
    return;
  }
  if (second) {
    V_FORALL(iz, 0, g.Lz) SITES(iz) {
      if (un) V_EQ(gs[o + ZZ + NA], s0[o + ZZ + FO], "site (ix, iy+sy*n1/shift) of the unfolded second buffer is lane sy of vector site (ix,iy)");
      else    V_EQ(gs[o + ZZ + FO], s0[o + ZZ + NA], "lane sy of vector site (ix,iy) of the folded second buffer is site (ix, iy+sy*n1/shift)");
    }
    SAME(gs, s0, 0, o, "ghost slices of the second buffer are kept");
    SAME(gs, s0, ob, w*g.v3, "ghost slices of the second buffer are kept");
    SAME(gm, m0, o, ob, "the field itself is kept");
    SAME(gv, v0, 0, w*g.n3, "the velocity is kept");
  } else {
    V_FORALL(iz, 0, g.Lz) SITES(iz) {
      if (un) { V_EQ(gm[o + ZZ + NA], m0[o + ZZ + FO], "site (ix, iy+sy*n1/shift) of the unfolded field is lane sy of vector site (ix,iy)");
                V_EQ(gv[ZZ + NA], v0[ZZ + FO], "unfolded velocity in the same layout as the field"); }
      else    { V_EQ(gm[o + ZZ + FO], m0[o + ZZ + NA], "lane sy of vector site (ix,iy) of the folded field is site (ix, iy+sy*n1/shift)");
                V_EQ(gv[ZZ + FO], v0[ZZ + NA], "folded velocity in the same layout as the field"); }
    }
    SAME(gs, s0, 0, w*g.v3, "the second buffer is kept");
  }
}

// one constant-z slice (second = 0: field and velocity into the ghost zones of m; 1: m2 into its own front ghost zone)
template<typename cF> static void slice(int align, FieldType t, bool fo, bool second) {
  G g = grid<cF>(align, t); VIEW
  long iz = v_int("sZ", 0, 1L << 40, 0, 5);
  g.f->folded = second ? !fo : fo; g.f->M2folded = second ? fo : !fo;
  (*new (v_cells<Folder>("fd")) Folder(g.f))(second ? UNFOLD_SLICEM2 : UNFOLD_SLICE, iz);
  v_cover("unfold slice returns");
  F *a = second ? gs : gm, *a0 = second ? s0 : m0;
  if (iz < g.Lz) {
    if (fo) SITES(iz) {
      V_EQ(a[NA], a0[o + ZZ + FO], "the front ghost zone holds slice sZ in natural order");
      if (!second) V_EQ(a[ob + NA], v0[ZZ + FO], "the back ghost zone holds velocity slice sZ in natural order");
    } else V_FORALL(k, 0, w*g.n2) {
      V_EQ(a[k], a0[o + ZZ + k], "the front ghost zone holds slice sZ in natural order");
      if (!second) V_EQ(a[ob + k], v0[ZZ + k], "the back ghost zone holds velocity slice sZ in natural order");
    }
  } else {
    SAME(a, a0, 0, w*g.v3, "a slice outside this rank's grid is ignored");
  }
  SAME(a, a0, o, ob, "slicing keeps the field");
  SAME(gv, v0, 0, w*g.n3, "slicing keeps the velocity");
  v_assert(g.f->folded == (second ? !fo : fo) && g.f->M2folded == (second ? fo : !fo), "slicing keeps the layout marks");
}

// one constant-x slice: field and velocity, as Lz rows of n1 values, in the ghost zones of m
template<typename cF> static void sliceX(int align, FieldType t, bool fo) {
  G g = grid<cF>(align, t); VIEW
  v_assume(g.Lz <= g.n1*g.Ng);              // the rows fit in the ghost zone
  long sx = v_int("sX", 0, 1L << 40, 0, 9);
  g.f->folded = fo;
  (*new (v_cells<Folder>("fd")) Folder(g.f))(UNFOLD_SLICEYZ, sx);
  v_cover("unfold x slice returns");
  if (sx < g.n1) {
    if (fo) V_FORALL(iz, 0, g.Lz) V_FORALL(iy, 0, g.q) V_FORALL(sy, 0, g.shift) V_FORALL(c, 0, w) {
      V_EQ(gm[w*(iz*g.n1 + iy + sy*g.q) + c], m0[o + ZZ + w*(iy*g.n1*g.shift + sx*g.shift + sy) + c], "the front ghost zone holds the yz plane at x = sX");
      V_EQ(gm[ob + w*(iz*g.n1 + iy + sy*g.q) + c], v0[ZZ + w*(iy*g.n1*g.shift + sx*g.shift + sy) + c], "the back ghost zone holds the velocity's yz plane at x = sX");
    } else V_FORALL(iz, 0, g.Lz) V_FORALL(y, 0, g.n1) V_FORALL(c, 0, w) {
      V_EQ(gm[w*(iz*g.n1 + y) + c], m0[o + ZZ + w*(y*g.n1 + sx) + c], "the front ghost zone holds the yz plane at x = sX");
      V_EQ(gm[ob + w*(iz*g.n1 + y) + c], v0[ZZ + w*(y*g.n1 + sx) + c], "the back ghost zone holds the velocity's yz plane at x = sX");
    }
  } else {
    SAME(gm, m0, 0, w*g.v3, "a plane outside the grid is ignored");
  }
  SAME(gm, m0, o, ob, "slicing keeps the field");
  SAME(gv, v0, 0, w*g.n3, "slicing keeps the velocity");
}

#define TYPES(body) switch (cfg) { \
    case 0: { typedef double cF; const int al = 32; const FieldType t = FIELD_AXION; body; } break; \
    case 1: { typedef float cF; const int al = 32; const FieldType t = FIELD_PAXION; body; } break; \
    case 2: { typedef std::complex<double> cF; const int al = 32; const FieldType t = FIELD_SAXION; body; } break; \
    case 3: { typedef std::complex<float> cF; const int al = 32; const FieldType t = FIELD_NAXION; body; } break; \
    case 4: { typedef double cF; const int al = 16; const FieldType t = FIELD_WKB; body; } break; \
    case 5: { typedef float cF; const int al = 16; const FieldType t = FIELD_AXION_MOD; body; } break; \
    case 6: { typedef std::complex<float> cF; const int al = 16; const FieldType t = FIELD_SAXION; body; } break; \
    case 7: { typedef double cF; const int al = 64; const FieldType t = FIELD_AXION; body; } break; \
    case 8: { typedef std::complex<double> cF; const int al = 64; const FieldType t = FIELD_SAXION; body; } break; }

V_ENTRY(h_fold)      { TYPES((whole<cF>(al, t, 0))) }
V_ENTRY(h_unfold)    { TYPES((whole<cF>(al, t, 1))) }
V_ENTRY(h_foldM2)    { TYPES((whole<cF>(al, t, 2))) }
V_ENTRY(h_unfoldM2)  { TYPES((whole<cF>(al, t, 3))) }
V_ENTRY(h_idle)      { TYPES((whole<cF>(al, t, 4 + v_choose(4)))) }
V_ENTRY(h_slice)     { TYPES((slice<cF>(al, t, true, false))) }
V_ENTRY(h_sliceM2)   { TYPES((slice<cF>(al, t, true, true))) }
V_ENTRY(h_copy)      { TYPES((slice<cF>(al, t, false, false))) }
V_ENTRY(h_copyM2)    { TYPES((slice<cF>(al, t, false, true))) }
V_ENTRY(h_sliceX)    { TYPES((sliceX<cF>(al, t, true))) }
V_ENTRY(h_copyX)     { TYPES((sliceX<cF>(al, t, false))) }
