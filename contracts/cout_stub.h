#ifndef COUT_STUB_H_
#define COUT_STUB_H_
// Under the verifier what the code prints for a human goes nowhere (std::cout, std::cerr); natively it is really printed.
#include <iostream>
#include <iomanip>
#ifdef VC_SYMBOLIC
namespace std {
struct vc_ostream {
  template <class T> vc_ostream &operator<<(const T &) { return *this; }
  vc_ostream &operator<<(ostream &(*)(ostream &)) { return *this; }
  vc_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
};
static vc_ostream vc_cout;
}
#define cout vc_cout
#define cerr vc_cout
#endif
#endif
