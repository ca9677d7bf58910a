// Specification primitives shared by the verifier (V_SYM) and the native replay build of the same harness.
#ifndef VH_H
#define VH_H
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <vector>
#include <string>

template<typename T> struct v_kind;
template<> struct v_kind<double> { static const int k = 0; };
template<> struct v_kind<float>  { static const int k = 1; };
template<> struct v_kind<unsigned char> { static const int k = 2; };
template<> struct v_kind<char>   { static const int k = 2; };
template<> struct v_kind<int>    { static const int k = 3; };
template<> struct v_kind<long>   { static const int k = 4; };

#ifdef V_SYM
extern "C" {
void   v_assume(bool);
void   v_assert_(bool, const char *);
void   v_check_eq(double a, double b, double tol, double scale, const char *);
void   v_cover(const char *);
long   v_int_(const char *, long lo, long hi);
bool   v_any_in(const char *, long lo, long hi, long *);
double v_real_(const char *, double lo, double hi);
int    v_choose(int);
void  *v_array_(const char *, long n, int kind);
void  *v_cells_(const char *, long bytes);
void  *v_zeroed_(const char *, long bytes);
void  *v_old(void *);
void   v_trace(const char *, long);
void   v_dead();
double v_ufn(const char *, double, double, double);
}
#define v_int(nm, lo, hi, nlo, nhi) v_int_(nm, lo, hi)
#define v_real(nm, lo, hi)  v_real_(nm, lo, hi)
#define v_realx(nm)         v_real_(nm, -1e300, 1e300)
#define v_realn(nm, lo, hi, nlo, nhi) v_real_(nm, lo, hi)
#define V_FORALL(i, lo, hi) for (long i, _v_##i = v_any_in(#i, (lo), (hi), &i); _v_##i; v_dead())
#define V_ENTRY(name) extern "C" void name(int cfg)
template<typename T> static inline T *v_snap(T *p, size_t) { return (T *) v_old((void *) p); }
#else
extern "C" {
void   v_assume(bool);
void   v_assert_(bool, const char *);
void   v_check_eq(double a, double b, double tol, double scale, const char *);
void   v_cover(const char *);
long   v_nint(const char *, long lo, long hi);
double v_nreal(const char *, double lo, double hi);
int    v_choose(int);
void  *v_array_(const char *, long n, int kind);
void  *v_cells_(const char *, long bytes);
void  *v_zeroed_(const char *, long bytes);
void   v_trace(const char *, long);
void   v_dead();
double v_ufn(const char *, double, double, double);
void   v_register(const char *, void (*)(int));
void  *v_copy(const void *, size_t);
}
#define v_int(nm, lo, hi, nlo, nhi) v_nint(nm, nlo, nhi)
#define v_real(nm, lo, hi)  v_nreal(nm, lo, hi)
#define v_realx(nm)         v_nreal(nm, -2., 2.)
#define v_realn(nm, lo, hi, nlo, nhi) v_nreal(nm, nlo, nhi)
#define V_FORALL(i, lo, hi) for (long i = (lo); i < (long)(hi); i++)
struct v_reg { v_reg(const char *n, void (*f)(int)) { v_register(n, f); } };
#define V_ENTRY(name) extern "C" void name(int); static v_reg v_reg_##name(#name, name); extern "C" void name(int cfg)
template<typename T> static inline T *v_snap(T *p, size_t n) { return (T *) v_copy((const void *) p, n*sizeof(T)); }
#endif

#define v_assert(c, label) v_assert_((c), label)
#define V_EQ(a, b, label)   v_check_eq((double)(a), (double)(b), 1e-9, 1., label)      // equality of reals (natively: up to rounding)
#define V_EQF(a, b, label)  v_check_eq((double)(a), (double)(b), 2e-4, 1., label)      // same, single precision
template<typename T> static inline T *v_array(const char *nm, long n) { return (T *) v_array_(nm, n, v_kind<T>::k); }
template<typename T> static inline T *v_zeroed(const char *nm) { return (T *) v_zeroed_(nm, sizeof(T)); }
template<typename T> static inline T *v_cells(const char *nm) { return (T *) v_cells_(nm, sizeof(T)); }
#endif
