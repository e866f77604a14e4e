// Contracts of the cumulative statistics (C12).
// VC-ASSUME: floating point arithmetic is taken as real arithmetic
#include "vc.h"
#include <ecl/statistics/cumulative_statistics.hpp>
using namespace ecl;
template <class T> static void exact(const CumulativeStatistics<T> &s, const T *x, int n) {
  T sum = 0, dev = 0; for (int i = 0; i < n; ++i) sum += x[i];
  T mean = n ? sum / n : 0; for (int i = 0; i < n; ++i) dev += (x[i] - mean) * (x[i] - mean);
  VC_ENSURES("the number of samples", vc::real_eq(s.size(), n));
  VC_ENSURES("the mean of the samples", vc::real_eq(s.mean(), mean));
  VC_ENSURES("the unbiased variance of the samples", vc::real_eq(s.variance(), n > 1 ? dev / (n - 1) : 0));
}
template <class T> static void samples(T *x, int n) { vc::fill("x", x, n); for (int i = 0; i < n; ++i) VC_REQUIRES(x[i] >= -1000 && x[i] <= 1000); }
template <class T> static void first(int n) {
  T x[6]; CumulativeStatistics<T> s; 
  VC_ENSURES("without samples there is nothing", s.size() == 0 && s.mean() == 0 && s.variance() == 0);
  samples(x, n);
  for (int i = 0; i < n; ++i) { s.push_back(x[i]); exact(s, x, i + 1); }
  s.clear();
  VC_ENSURES("cleared there is nothing", s.size() == 0 && s.mean() == 0 && s.variance() == 0);
  for (int i = 0; i < n && i < 2; ++i) { s.push_back(x[i]); exact(s, x, i + 1); }
}
VC_CASES(C12_first_samples, 4)
VC_BOUNDED(C12_first_samples, "up to 4 samples of magnitude up to 1000, cleared, and up to 2 again")
VC_PROOF(C12_first_samples, "ecl::CumulativeStatistics") { if (__vc_case() < 2) first<double>(__vc_case() * 2 + 2); else first<float>((__vc_case() - 2) * 2 + 1); }
// Induction over the number of samples.  A state is what size(), mean() and variance() report plus the relations between the words of
// the object that are there after every number of samples; the relations are guessed from running the code and proved by the induction.
template <class T> struct Words {
  enum { N = sizeof(CumulativeStatistics<T>) / sizeof(T) };
  bool same[N][N], zero[N], one[N];
  static T *w(CumulativeStatistics<T> &s) { return (T *)&s; }
  void look(CumulativeStatistics<T> &s, bool first) {
    for (int i = 0; i < N; ++i) {
      T a = w(s)[i]; bool z = a == 0, o = a == 1; if (first) { zero[i] = z; one[i] = o; } else { zero[i] = zero[i] && z; one[i] = one[i] && o; }
      for (int j = 0; j < i; ++j) { bool e = a == w(s)[j]; same[i][j] = first ? e : same[i][j] && e; }
    }
  }
  // the relations seen after n samples (n = 2: after two and more)
  Words(int n) {
    static const T xs[3][5] = {{1.5, 4.25, -3, 0.5, 9}, {-7, 2, 2, 8, 8}, {3, 5, 100, -0.25, 6}};
    for (int k = 0; k < 3; ++k) {
      CumulativeStatistics<T> s; for (int i = 0; i < 5; ++i) s.push_back(xs[(k + 1) % 3][i]);
      s.clear(); s.push_back(xs[k][0]); if (n == 1) { look(s, k == 0); continue; }
      for (int i = 1; i < 5; ++i) { s.push_back(xs[k][i]); look(s, k == 0 && i == 1); }
    }
  }
  bool hold(CumulativeStatistics<T> &s) {
    bool r = true;
    for (int i = 0; i < N; ++i) {
      if (zero[i]) r = r & vc::real_eq(w(s)[i], 0);
      if (one[i]) r = r & vc::real_eq(w(s)[i], 1);
      for (int j = 0; j < i; ++j) if (same[i][j]) r = r & vc::real_eq(w(s)[i], w(s)[j]);
    }
    return r;
  }
};
template <class T> static void step(int from) {
  typedef CumulativeStatistics<T> S;
  T arbitrary[Words<T>::N], x; vc::fill("state", arbitrary, Words<T>::N); vc::fill("x", &x, 1);
  S s; for (int i = 0; i < Words<T>::N; ++i) Words<T>::w(s)[i] = arbitrary[i];
  Words<T> before(from ? from : 1), after(from == 0 ? 1 : 2);
  if (from == 0) {       // whatever came before, clearing starts afresh
    s.clear();
    VC_ENSURES("cleared there is nothing", s.size() == 0 && s.mean() == 0 && s.variance() == 0);
    s.push_back(x);
    VC_ENSURES("one sample", vc::real_eq(s.size(), 1) && vc::real_eq(s.mean(), x) && s.variance() == 0);
    VC_ENSURES("invariant", after.hold(s));
    return;
  }
  T n = vc::any_double("n"), m = vc::any_double("mean"), v = vc::any_double("variance");
  VC_REQUIRES(from == 1 ? n == 1 && v == 0 : n >= 2);
  VC_REQUIRES(before.hold(s)); VC_REQUIRES(s.size() == n); VC_REQUIRES(s.mean() == m); VC_REQUIRES(s.variance() == v);
  s.push_back(x);
  T m2 = (n * m + x) / (n + 1);
  VC_ENSURES("one sample more", vc::real_eq(s.size(), n + 1));
  VC_ENSURES("the mean of one sample more", vc::real_eq(s.mean(), m2));
  VC_ENSURES("the variance of one sample more", vc::real_eq(n * s.variance(), (n - 1) * v + (x - m) * (x - s.mean())));
  VC_ENSURES("invariant", after.hold(s));
}
VC_CASES(C12_one_more_sample, 6)
VC_INDUCTIVE(C12_one_more_sample)
VC_PROOF(C12_one_more_sample, "ecl::CumulativeStatistics") { int k = __vc_case(); if (k < 3) step<double>(k); else step<float>(k - 3); }
