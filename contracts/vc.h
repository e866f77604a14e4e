// Contract language.  A proof function is the contract of the real function(s) it names: VC_REQUIRES is the precondition on
// arbitrary inputs, the real body is executed symbolically, VC_ENSURES is the postcondition, VC_ASSIGNS/VC_FRAME the frame.
// The same file is compiled natively to replay counterexamples against the real code.
#ifndef VC_H_
#define VC_H_
#include <cstddef>
#include <cstdint>
#include <cmath>
extern "C" {
uint8_t  __vc_any_i8(const char *name);
uint16_t __vc_any_i16(const char *name);
uint32_t __vc_any_i32(const char *name);
uint64_t __vc_any_i64(const char *name);
bool     __vc_any_bool(const char *name);
uint32_t __vc_any_range(const char *name, int lo, int hi);
uint32_t __vc_havoc_i32(); uint64_t __vc_havoc_i64(); uint8_t __vc_havoc_i8(); bool __vc_havoc_bool(); double __vc_havoc_real();
double   __vc_any_real(const char *name);
void     __vc_assume(bool);
void     __vc_assert(bool, const char *name);
void     __vc_cover(bool, const char *name);
void    *__vc_fresh(const char *name, uint64_t n, uint64_t elemsize, int kind, int heap);
void     __vc_fill(const char *name, void *p, uint64_t n, uint64_t elemsize, int kind);
uint64_t __vc_concretize(uint64_t v, uint64_t lo, uint64_t hi);
void     __vc_option(const char *k, const char *v);
void     __vc_replace(const char *target, void *stub);
bool     __vc_real_eq(double a, double b);
void     __vc_heap_mark();
bool     __vc_no_leak();
int      __vc_case();
bool     __vc_symbolic();
void     __vc_snapshot();
void     __vc_assigns(const void *p, uint64_t n);
void     __vc_frame(const char *name);
void     __vc_loop(const char *fn, int ordinal, void *inv, void *ctx);
}
#define VC_STR2(x) #x
#define VC_STR(x) VC_STR2(x)
#define VC_PROOF(id, targets) VC_PROOF_(id, targets)
#define VC_PROOF_(id, targets) \
  extern "C" { extern const char vc_targets_##id[]; const char vc_targets_##id[] = targets; void vc_proof_##id(); } \
  void vc_proof_##id()
#define VC_CASES(id, n) VC_CASES_(id, n)
#define VC_CASES_(id, n) extern "C" { extern const int vc_cases_##id; const int vc_cases_##id = (n); }
#define VC_BOUNDED(id, text) VC_BOUNDED_(id, text)
#define VC_BOUNDED_(id, text) extern "C" { extern const char vc_bounded_##id[]; const char vc_bounded_##id[] = text; }
// an induction step: it starts from the states an invariant allows, so a failure has no failing input of its own
#define VC_INDUCTIVE(id)
// proof options: "key=value key=value"
#define VC_OPTIONS(id, text) VC_OPTIONS_(id, text)
#define VC_OPTIONS_(id, text) extern "C" { extern const char vc_options_##id[]; const char vc_options_##id[] = text; }
#define VC_REQUIRES(c) __vc_assume(c)
#define VC_ASSUME(c) __vc_assume(c)
#define VC_ENSURES(name, c) __vc_assert((c), name)
#define VC_COVER(name, c) __vc_cover((c), name)
#define VC_ASSIGNS(p, n) __vc_assigns((p), (n))

namespace vc {
inline int      any_int(const char *n) { return (int)__vc_any_i32(n); }
inline unsigned any_uint(const char *n) { return __vc_any_i32(n); }
inline long     any_long(const char *n) { return (long)__vc_any_i64(n); }
inline unsigned long any_ulong(const char *n) { return __vc_any_i64(n); }
inline char     any_char(const char *n) { return (char)__vc_any_i8(n); }
inline unsigned char any_uchar(const char *n) { return __vc_any_i8(n); }
inline short    any_short(const char *n) { return (short)__vc_any_i16(n); }
inline unsigned short any_ushort(const char *n) { return __vc_any_i16(n); }
inline bool     any_bool(const char *n) { return __vc_any_bool(n); }
inline double   any_double(const char *n) { return __vc_any_real(n); }
inline float    any_float(const char *n) { return (float)__vc_any_real(n); }
inline int      any_in(const char *n, int lo, int hi) { return (int)__vc_any_range(n, lo, hi); }
// concrete value in [lo,hi], every value explored
inline int      choose(const char *n, int lo, int hi) { return (int)__vc_concretize((uint64_t)(int64_t)any_in(n, lo, hi) & 0xffffffffu, lo, hi); }
template<class T> struct kind { enum { k = 'i' }; };
template<> struct kind<double> { enum { k = 'f' }; };
template<> struct kind<float> { enum { k = 'f' }; };
template<class T> inline T *fresh(const char *name, uint64_t n) { return (T *)__vc_fresh(name, n, sizeof(T), kind<T>::k, 0); }
template<class T> inline void fill(const char *name, T *p, uint64_t n) { __vc_fill(name, p, n, sizeof(T), kind<T>::k); }
inline bool real_eq(double a, double b) { return __vc_real_eq(a, b); }
}
#endif
