// Contracts of ecl_type_traits and ecl_mpl: numeric limits and type predicates (C27).
// VC-ASSUME: the platform configuration header (sizes of the fundamental types) is the stand-in of /verif/stubs, which is checked here against sizeof
#include "vc.h"
#include <limits>
#include <climits>
#include <ecl/type_traits.hpp>
#include <ecl_type_traits/src/lib/numeric_limits.cpp>
#include <ecl/mpl.hpp>

template<class T, class A, class B> static void limits(A lo, B hi) {
  VC_ENSURES("width in bytes", ecl::numeric_limits<T>::bytes == sizeof(T));
  VC_ENSURES("width in bits", ecl::numeric_limits<T>::bits == CHAR_BIT * sizeof(T));
  VC_ENSURES("published minimum", ecl::numeric_limits<T>::minimum == lo);
  VC_ENSURES("published maximum", ecl::numeric_limits<T>::maximum == hi);
  VC_ENSURES("standard limits stay available", ecl::numeric_limits<T>::is_signed == std::numeric_limits<T>::is_signed && ecl::numeric_limits<T>::is_integer == std::numeric_limits<T>::is_integer && ecl::numeric_limits<T>::digits == std::numeric_limits<T>::digits
    && ecl::numeric_limits<T>::min() == std::numeric_limits<T>::min() && ecl::numeric_limits<T>::max() == std::numeric_limits<T>::max());
}
template<class T> static void integral() {
  limits<T>(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
  VC_ENSURES("one is one", ecl::numeric_limits<T>::one == 1);
}
template<class T> static void in_range(T x) {
  VC_ENSURES("every value of the type lies between the published limits", x >= ecl::numeric_limits<T>::minimum && x <= ecl::numeric_limits<T>::maximum);
}
VC_PROOF(C27_limits, "") {
  integral<char>(); integral<unsigned char>(); integral<short>(); integral<unsigned short>(); integral<int>(); integral<unsigned int>();
  integral<long>(); integral<unsigned long>(); integral<long long>(); integral<unsigned long long>();
  limits<float>(-std::numeric_limits<float>::max(), std::numeric_limits<float>::max());
  limits<double>(-std::numeric_limits<double>::max(), std::numeric_limits<double>::max());
  VC_ENSURES("width of long double", ecl::numeric_limits<long double>::bytes == sizeof(long double) && ecl::numeric_limits<long double>::bits == CHAR_BIT * sizeof(long double));
  VC_ENSURES("default precisions", ecl::numeric_limits<float>::dummy_precision == 1e-5f && ecl::numeric_limits<double>::dummy_precision == 1e-12 && ecl::numeric_limits<int>::dummy_precision == 0.0f && ecl::numeric_limits<long>::dummy_precision == 0.0f && ecl::numeric_limits<unsigned long long>::dummy_precision == 0.0f);
}
VC_PROOF(C27_range, "") {
  in_range<char>(vc::any_char("char")); in_range<unsigned char>(vc::any_uchar("uchar")); in_range<short>(vc::any_short("short")); in_range<unsigned short>(vc::any_ushort("ushort"));
  in_range<int>(vc::any_int("int")); in_range<unsigned>(vc::any_uint("uint")); in_range<long>(vc::any_long("long")); in_range<unsigned long>(vc::any_ulong("ulong"));
  in_range<long long>(vc::any_long("longlong")); in_range<unsigned long long>(vc::any_ulong("ulonglong"));
}
struct S {}; union U { int i; }; enum En { e0 }; class WithInt { public: operator int() const { return 1; } };
template<class T> static void classify(bool integral, bool uns, bool sig, bool flt, bool sbyte, bool ubyte) {
  VC_ENSURES("integral types are classified", ecl::is_integral<T>::value == integral);
  VC_ENSURES("unsigned types are classified", ecl::is_unsigned<T>::value == uns);
  VC_ENSURES("signed types are classified", ecl::is_signed<T>::value == sig);
  VC_ENSURES("floating types are classified", ecl::is_float<T>::value == flt);
  VC_ENSURES("signed bytes are classified", ecl::is_signed_byte<T>::value == sbyte);
  VC_ENSURES("unsigned bytes are classified", ecl::is_unsigned_byte<T>::value == ubyte);
  VC_ENSURES("bytes are classified", ecl::is_byte<T>::value == (sbyte || ubyte));
}
VC_PROOF(C27_predicates, "") {
  const bool cs = std::numeric_limits<char>::is_signed;
  classify<char>(true, false, true, false, cs, !cs);
  classify<unsigned char>(true, true, false, false, false, true);
  classify<short>(true, false, true, false, false, false);        classify<unsigned short>(true, true, false, false, false, false);
  classify<int>(true, false, true, false, false, false);          classify<unsigned int>(true, true, false, false, false, false);
  classify<long>(true, false, true, false, false, false);         classify<unsigned long>(true, true, false, false, false, false);
  classify<long long>(true, false, true, false, false, false);    classify<unsigned long long>(true, true, false, false, false, false);
  classify<float>(false, false, false, true, false, false); classify<double>(false, false, false, true, false, false); classify<long double>(false, false, false, true, false, false);
  classify<S>(false, false, false, false, false, false); classify<U>(false, false, false, false, false, false); classify<En>(false, false, false, false, false, false); classify<WithInt>(false, false, false, false, false, false);
  classify<int *>(false, false, false, false, false, false); classify<char *>(false, false, false, false, false, false); classify<double *>(false, false, false, false, false, false); classify<void *>(false, false, false, false, false, false);
  classify<int[3]>(false, false, false, false, false, false); classify<float &>(false, false, false, false, false, false); classify<int(int)>(false, false, false, false, false, false);
  VC_ENSURES("a signed char is a signed byte", ecl::is_signed_byte<signed char>::value && ecl::is_byte<signed char>::value && !ecl::is_unsigned_byte<signed char>::value && !ecl::is_float<signed char>::value && !ecl::is_unsigned<signed char>::value);
}
