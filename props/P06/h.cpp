#include "vh.h"
#include "vstd.h"
// tabulated functions of the QCD cosmology: arbitrary functions of the conformal time
#define TK_SPLINE_H
namespace tk { struct spline {
  const char *nm;
  double operator()(double x) const { return v_ufn(nm, x, 0, 0); }
  void set_points(const std::vector<double> &, const std::vector<double> &, bool = true) {}
}; }
#define private public
#define protected public
#include "cosmos/cosmos.cpp"
#include "scalar/scalarField.cpp"
#undef private
#undef protected

double wDz = 0.8;        // step fraction, set by the command line
static double pw(double x, double y) { return std::pow(x, y); }
// the background in one place: parameters, and the documented functions of conformal time
struct Bg { double frw, g, n, nr, th, zr, i3, lam, le, L; bool ue; Cosmos *b;
  double R(double t)   const { return ue ? b->sR(t) : frw == 1 && g > 0 ? t + g*t*t/4 : pw(t, frw); }
  double Rp(double t)  const { return ue ? (b->sR(t + 1e-3) - b->sR(t - 1e-3))/(2e-3*b->sR(t)) : frw == 1 && g > 0 ? (1 + g*t/2)/R(t) : frw/t; }
  double Rpp(double t) const { return ue ? b->sRpp(t)/(t*t) : frw == 1 && g > 0 ? g/2/R(t) : frw*(frw - 1)/(t*t); }
  // exponent of the axion mass squared at that time
  double e(double t)   const { double r = R(t); return r < th ? n : th <= zr && r > zr ? nr : 0; }
  double m2(double t)  const {
    if (ue) return b->schi(t);
    double r = R(t), m = i3*i3*(r < th ? pw(r, n) : pw(th, n));
    return th <= zr && r > zr ? m*pw(r/zr, nr) : m;
  }
};
// kind: 0 radiation, 1 Minkowski, 2 any power, 3 radiation and matter, 4 tabulated, 5 matter, 6 square root
static Bg bg(int kind) {
  Bg p; p.ue = kind == 4;
  Cosmos *b = p.b = v_zeroed<Cosmos>("bck");
  b->sR.nm = "R"; b->sRpp.nm = "Rpp"; b->schi.nm = "chi"; b->sT.nm = "T";
  p.g = -1; p.frw = kind == 1 ? 0 : kind == 2 ? v_real("frw", 0.1, 3) : kind == 5 ? 2 : kind == 6 ? 0.5 : 1;
  if (kind == 3) p.g = v_real("grav", 1e-6, 1);
  p.n = v_real("nQcd", 0, 9); p.nr = v_real("nQcdr", 0, 9); p.th = v_real("zThRes", 0.5, 4); p.zr = v_real("zRestore", 0.5, 8);
  p.i3 = v_real("indi3", 0.1, 4); p.lam = v_real("lambda", 0.1, 1e4); p.le = kind == 1 ? 2 : v_real("lz2e", 0, 2); p.L = v_real("L", 0.1, 50);
  b->frw = p.frw; b->icdatastruc.grav = p.g; b->nQcd = p.n; b->nQcdr = p.nr; b->zThRes = p.th; b->zRestore = p.zr; b->indi3 = p.i3; b->lambda = p.lam; b->lz2e = p.le; b->lSize = p.L; b->ueCosm = p.ue;
  return p;
}
// cfg: kind of background
V_ENTRY(h_cosmos) {
  Bg p = bg(cfg); Cosmos *b = p.b;
  double t = v_real("ct", 0.01, 30);
  if (p.ue) v_assume(p.R(t) > 0.01 && p.m2(t) > 0.01 && p.m2(t + 1e-6) > 0.01 && p.m2(t - 1e-6) > 0.01);
  v_cover("background");
  V_EQ(b->R(t), p.R(t), "scale factor follows its law");
  V_EQ(b->Rp(t), p.Rp(t), "R'/R is the derivative of the scale factor");
  V_EQ(b->Rpp(t), p.Rpp(t), "R''/R is the second derivative of the scale factor");
  V_EQ(b->AxionMass2(t), p.m2(t), "axion mass grows with R, saturates and is restored at its thresholds");
  if (p.ue) {
    V_EQ(b->DAxionMass2Dct(t), (p.m2(t + 1e-6) - p.m2(t - 1e-6))/2e-6, "derivative of the tabulated axion mass");
    double e = 1e-6;
    V_EQ(b->DlogMARDlogct(t)*std::sqrt(p.m2(t))*p.R(t)*2*e, t*(std::sqrt(p.m2(t + e))*p.R(t + e) - std::sqrt(p.m2(t - e))*p.R(t - e)), "logarithmic derivative of the tabulated m R");
    V_EQ(b->TopSus(t), p.m2(t), "susceptibility table"); V_EQ(b->T(t), b->sT(t), "temperature table");
  } else {
    V_EQ(b->DAxionMass2Dct(t), p.e(t)*p.Rp(t)*p.m2(t), "derivative of the axion mass squared");
    V_EQ(b->DlogMARDlogct(t), t*p.Rp(t)*(p.e(t)/2 + 1), "logarithmic derivative of m R");
  }
  V_EQ(b->LambdaP(t)*pw(p.R(t), p.le), p.lam, "saxion coupling is diluted with its exponent");
  const VqcdType pq[4] = { V_NONE, V_PQ1, V_PQ2, V_PQ3 }; const double f[4] = { 0, 2, 8, 2 };
  for (int k = 0; k < 4; k++) { b->pot = (VqcdType) (pq[k] | V_QCD1 | V_DAMP_RHO); V_EQ(b->SaxionMass2(t)*pw(p.R(t), p.le), f[k]*p.lam, "saxion mass squared is the curvature of the potential"); }
}
V_ENTRY(h_set) {
  Cosmos *b = v_zeroed<Cosmos>("bck"); double x = v_realx("x"), y = v_realx("y");
  v_cover("setters");
  b->SetQcdExp(x); v_assert(b->QcdExp() == x && b->QcdExpr() == x, "one exponent rules both regimes unless told otherwise");
  b->SetQcdExpr(y); v_assert(b->QcdExp() == x && b->QcdExpr() == y, "exponent after restoration is set on its own");
  b->SetFrw(x); b->SetMink(false); v_assert(b->Frw() == x && !b->Mink(), "expansion power is kept"); b->SetMink(true); v_assert(b->Frw() == 0 && b->Mink(), "Minkowski does not expand");
  b->SetZThRes(x); b->SetZRestore(y); v_assert(b->ZThRes() == x && b->ZRestore() == y, "thresholds");
  b->SetPhysSize(x); b->SetLambda(y); v_assert(b->PhysSize() == x && b->Lambda() == y, "size and coupling");
  b->SetLamZ2Exp(x); b->SetIndi3(y); v_assert(b->LamZ2Exp() == x && b->Indi3() == y, "coupling exponent and mass");
  b->SetGamma(x); b->SetDecTime(y); v_assert(b->Gamma() == x && b->DecTime() == y, "damping");
  b->SetQcdPot(V_QCD2_PQ2); v_assert(b->QcdPot() == V_QCD2_PQ2, "potential");
}
static Scalar *field(const Bg &p, double t) {
  Scalar *f = v_zeroed<Scalar>("field");
  f->bckgnd = p.b; f->n1 = v_int("Lx", 1, 1 << 15, 1, 4096);
  static double z[4], R[4]; f->z = z; f->R = R; *f->z = t; *f->R = v_real("stale R", 0, 9);
  return f;
}
// the field evaluates the background at its own time
V_ENTRY(h_field) {
  Bg p = bg(cfg);
  double t = v_real("ct", 0.01, 30), u = v_real("other ct", 0.01, 30);
  if (p.ue) v_assume(p.R(t) > 0.01 && p.m2(t) > 0.01 && p.R(u) > 0.01 && p.m2(u) > 0.01);
  p.b->pot = V_QCD1_PQ2;
  Scalar *f = field(p, t);
  v_cover("field");
  f->updateR();
  V_EQ(*f->R, p.R(t), "R of the field is that of its time"); V_EQ(*f->z, t, "time is kept"); V_EQ(f->Rfromct(u), p.R(u), "R at any time");
  V_EQ(f->AxionMassSq(), p.m2(t), "axion mass squared now"); V_EQ(f->AxionMassSq(u), p.m2(u), "axion mass squared at any time");
  V_EQ(f->AxionMass(), std::sqrt(p.m2(t)), "axion mass now"); V_EQ(f->AxionMass(u), std::sqrt(p.m2(u)), "axion mass at any time");
  V_EQ(f->LambdaP()*pw(p.R(t), p.le), p.lam, "coupling now");
  V_EQ(f->SaxionMassSq()*pw(p.R(t), p.le), 8*p.lam, "saxion mass now"); V_EQ(f->SaxionMassSq(u)*pw(p.R(u), p.le), 8*p.lam, "saxion mass at any time");
  V_EQ(f->Rpp(), p.Rpp(t), "R''/R now"); V_EQ(f->HubbleMassSq(), p.Rpp(t), "R''/R now"); V_EQ(f->HubbleConformal(), p.Rp(t), "R'/R now");
  V_EQ(f->Msa()*f->n1, std::sqrt(2*f->LambdaP())*p.R(t)*p.L, "saxion mass in lattice units");
}
// cfg = 100*potential + 10*field type + kind; the step resolves the fastest mode and is positive
V_ENTRY(h_step) {
  Bg p = bg(cfg%10);
  double t = v_real("ct", 0.01, 30);
  wDz = v_real("wDz", 0.01, 2);
  const VqcdType pq[3] = { V_PQ1, V_PQ2, V_PQ3 }; const FieldType ft[5] = { FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_WKB, FIELD_PAXION };
  p.b->pot = (VqcdType) (pq[cfg/100] | V_QCD1);
  Scalar *f = field(p, t); int k = cfg/10%10; f->fieldType = ft[k];
  if (p.ue) v_assume(p.R(t) > 0.01 && p.m2(t) > 0.01);
  double R = p.R(t), k2 = 12.*f->n1*f->n1/(p.L*p.L), m2 = p.m2(t)*R*R, d = v_choose(2) ? f->dzSize(t) : f->dzSize();
  v_cover("step");
  v_assert(d > 0, "time advances");
  if (k < 4) { v_assert(d*std::sqrt(m2 + k2) <= wDz*(1 + 1e-9), "axion modes are resolved"); }
  else       { v_assert(d*k2 <= (1 + 1e-9)*wDz*(std::sqrt(m2 + k2) + std::sqrt(p.m2(t))*R), "non-relativistic modes are resolved"); }
  if (k == 0) { double ms = p.b->SaxionMass2(t)*R*R; v_assert(d*std::sqrt(ms + k2) <= wDz*(1 + 1e-9), "saxion modes are resolved"); }
}
// shift of the saxion minimum: x^3 - x = m^2/lambda for x = 1 + shift
V_ENTRY(h_shift) {
  Bg p = bg(cfg);
  double t = v_real("ct", 0.01, 30); Scalar *f = field(p, t); f->updateR();
  double a = p.m2(t)/f->LambdaP(), d = 4./3 - 9*a*a;
  int k = v_choose(2);
  const VqcdType qcd[6] = { V_QCD0, V_QCDV, V_QCD2, V_QCDL, V_QCDC, V_QCD1 };
  if (k == 0) { int j = v_choose(5); p.b->pot = (VqcdType) (qcd[j] | V_PQ1); v_assert(f->Saskia() == 0, "only the tilted potential shifts the minimum"); return; }
  p.b->pot = v_choose(2) ? V_QCD1_PQ1 : V_QCD1_PQ3;
  if (d > 0) {
    double c = cos(atan2(sqrt(d), 3*a)/3);
    v_assume(c <= 1 && 4*c*c*c - 3*c == a*2.598076211353316);     // cos(3x), and the cosine of an arc tangent; 3 sqrt(3)/2
    v_cover("trigonometric branch");
  } else {
    v_assume(d < 0);
    double c = cosh(atanh(sqrt(-d)/(3*a))/3);
    v_assume(c >= 1 && 4*c*c*c - 3*c == a*2.598076211353316);     // cosh(3x), and the hyperbolic cosine of an area tangent
    v_cover("hyperbolic branch");
  }
  double x = 1 + f->Saskia();
  double q = x*x*x - x - a;
  v_assert(q <= 1e-6*(1 + a) && -q <= 1e-6*(1 + a), "shifted radius is the minimum of the tilted potential");
}
// time integrals of m^2 R^n, with R a power of time and the mass saturating at R = zThRes
V_ENTRY(h_integral) {
  Bg p = bg(cfg);
  double a = v_real("z0", 0.01, 30), z = v_real("z", 0.01, 30); int nn = v_choose(4); Scalar *f = field(p, a);
  double w = p.frw, th = p.th, c = p.i3*p.i3, T, B, M;
  if (w == 0) { v_cover("Minkowski"); M = th > 1 ? c : c*pw(th, p.n); V_EQ(f->IAxionMassSqn(a, z, nn), M*(z - a), "integral of a constant mass"); V_EQ(f->IIAxionMassSqn(a, z, nn), M*(z - a)*(z - a)/2, "second integral of a constant mass"); return; }
  T = pw(th, 1/w); M = c*pw(th, p.n);
  double eb = w*(p.n + nn) + 1, ea = w*nn + 1;
  auto I1 = [&](double x) { return x <= T ? c*pw(x, eb)/eb : c*pw(T, eb)/eb + M*(pw(x, ea) - pw(T, ea))/ea; };
  auto I2 = [&](double x) { double q = eb + 1, s = ea + 1; return x <= T ? c*pw(x, q)/(eb*q) : c*pw(T, q)/(eb*q) + c*pw(T, eb)/eb*(x - T) + M*((pw(x, s) - pw(T, s))/s - pw(T, ea)*(x - T))/ea; };
  v_cover("integrals");
  V_EQ(f->IAxionMassSqn(a, z, nn), I1(z) - I1(a), "integral of m^2 R^n");
  V_EQ(f->IIAxionMassSqn(a, z, nn), I2(z) - I2(a) - I1(a)*(z - a), "second integral of m^2 R^n");
}
