// Contracts of time stamps (C10), sleeps and the periodic sleeper (C11).
// VC-ASSUME: the system clock and nanosleep are stand-ins that return any valid time and record what was asked for (ecl_time_lite is not part of the repository)
// VC-ASSUME: times lie within 2^61 seconds of the epoch
#include "vc.h"
#include "cout_stub.h"
#include <sstream>
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include <ecl_time/src/lib/timestamp_base.cpp>
#include <ecl_time/src/lib/timestamp_pos.cpp>
#include <ecl_time/src/lib/sleep_pos.cpp>
#include <ecl_time/src/lib/snooze_pos.cpp>
#include <ecl_time/src/lib/stopwatch.cpp>
using namespace ecl;
static const long G = 1000000000L, FAR_OFF = 1L << 61;
static timespec now[8]; static int reads, reads_left = 8; static timespec asked; static int sleeps;
namespace ecl {
TimeError epoch_time(TimeStructure &t) { t = now[reads < 7 ? reads : 7]; ++reads; return TimeError(NoError); }
TimeError realtime_epoch_time(TimeStructure &t) { return epoch_time(t); }
TimeError sleep_until(const TimeStructure &t) { asked = t; ++sleeps; return TimeError(NoError); }
}
extern "C" int nanosleep(const timespec *r, timespec *) { asked = *r; ++sleeps; return 0; }
static bool normal(long s, long n) { return (n > -G) & (n < G) & !((s > 0) & (n < 0)) & !((s < 0) & (n > 0)); }
static TimeStamp stamp(const char *name) {
  long s = vc::any_long(name), n = vc::any_long(name); VC_REQUIRES((s <= FAR_OFF) & (s >= -FAR_OFF) & normal(s, n));
  return TimeStamp(s, n);
}
// exactly: r = s seconds and n nanoseconds
static bool is(const TimeStampBase &r, long s, long n) { long c = r.sec() - s; if ((c < -2) | (c > 2)) return false; c = (long)__vc_concretize((unsigned long)(c + 2), 0, 4) - 2; return r.nsec() == n - c * G; }
VC_PROOF(C10_add, "ecl::TimeStampBase::operator+; ecl::TimeStampBase::operator+=") {
  TimeStamp a = stamp("a"), b = stamp("b");
  TimeStamp r = a + b;
  VC_ENSURES("exactly the sum", is(r, a.sec() + b.sec(), a.nsec() + b.nsec()));
  VC_ENSURES("in normal form", normal(r.sec(), r.nsec()));
  TimeStamp c = a; c += b;
  VC_ENSURES("exactly the sum", is(c, a.sec() + b.sec(), a.nsec() + b.nsec()));
  VC_ENSURES("in normal form", normal(c.sec(), c.nsec()));
  TimeStamp d = a; d += d;
  VC_ENSURES("added to itself, twice", is(d, 2 * a.sec(), 2 * a.nsec()) & normal(d.sec(), d.nsec()));
}
VC_PROOF(C10_subtract, "ecl::TimeStampBase::operator-; ecl::TimeStampBase::operator-=") {
  TimeStamp a = stamp("a"), b = stamp("b");
  TimeStamp r = a - b;
  VC_ENSURES("exactly the difference", is(r, a.sec() - b.sec(), a.nsec() - b.nsec()));
  VC_ENSURES("in normal form", normal(r.sec(), r.nsec()));
  TimeStamp c = a; c -= b;
  VC_ENSURES("exactly the difference", is(c, a.sec() - b.sec(), a.nsec() - b.nsec()));
  VC_ENSURES("in normal form", normal(c.sec(), c.nsec()));
  TimeStamp d = a; d -= d;
  VC_ENSURES("from itself, nothing", d.sec() == 0 && d.nsec() == 0);
}
VC_PROOF(C10_compare, "ecl::TimeStampBase::operator==; ecl::TimeStampBase::operator!=; ecl::TimeStampBase::operator<; ecl::TimeStampBase::operator<=; ecl::TimeStampBase::operator>; ecl::TimeStampBase::operator>=") {
  TimeStamp a = stamp("a"), b = stamp("b");
  long s = a.sec() - b.sec(); s = s > 3 ? 3 : s < -3 ? -3 : s; s = (long)__vc_concretize((unsigned long)(s + 3), 0, 6) - 3;      // three seconds outweigh any nanoseconds
  long d = s * G + (a.nsec() - b.nsec());
  VC_ENSURES("==", (a == b) == (d == 0)); VC_ENSURES("!=", (a != b) == (d != 0));
  VC_ENSURES("<", (a < b) == (d < 0)); VC_ENSURES("<=", (a <= b) == (d <= 0));
  VC_ENSURES(">", (a > b) == (d > 0)); VC_ENSURES(">=", (a >= b) == (d >= 0));
}
VC_PROOF(C10_access, "ecl::TimeStampBase::TimeStampBase(long const&, long const&); ecl::TimeStampBase::stamp(long const&, long const&); ecl::TimeStampBase::msec; ecl::TimeStampBase::usec") {
  long s = vc::any_long("s"), n = vc::any_long("n"); bool threw = false;
  VC_REQUIRES((n > -G) & (n < G));
  bool ok = normal(s, n);
  try {
    TimeStamp t(s, n);
    VC_ENSURES("the parts of the stamp", t.sec() == s && t.nsec() == n && t.msec() == n / 1000000 && t.usec() == n / 1000);
  } catch (const StandardException &) { threw = true; }
  VC_ENSURES("parts of different sign are rejected", threw == !ok);
  threw = false; TimeStamp u(1, 2);
  try {
    u.stamp(s, n);
    VC_ENSURES("the parts of the stamp", u.sec() == s && u.nsec() == n);
  } catch (const StandardException &) { threw = true; VC_ENSURES("a rejected stamp changes nothing", u.sec() == 1 && u.nsec() == 2); }
  VC_ENSURES("parts of different sign are rejected", threw == !ok);
}
static void clock(int n) { for (int i = 0; i < n; ++i) { now[i].tv_sec = vc::any_long("clock s"); now[i].tv_nsec = vc::any_long("clock ns"); VC_REQUIRES((now[i].tv_sec >= 0) & (now[i].tv_sec < FAR_OFF) & (now[i].tv_nsec >= 0) & (now[i].tv_nsec < G)); } reads = sleeps = 0; }
VC_PROOF(C10_stopwatch, "ecl::StopWatch::restart; ecl::StopWatch::elapsed; ecl::StopWatch::split; ecl::TimeStamp::stamp()") {
  clock(5);
  StopWatch w; 
  reads = 0; w.restart();                     // at now[0]
  int r = reads; VC_ENSURES("the clock is read", r == 1);
  TimeStamp e = w.elapsed();                  // at now[1]
  VC_ENSURES("the time since the start", is(e, now[1].tv_sec - now[0].tv_sec, now[1].tv_nsec - now[0].tv_nsec));
  reads = 2; TimeStamp s = w.split();
  VC_ENSURES("the time since the start", is(s, now[2].tv_sec - now[0].tv_sec, now[2].tv_nsec - now[0].tv_nsec));
}
// what is asked of the system
static void sleeps_for(long s, long n) { VC_ENSURES("one sleep of exactly that time", sleeps == 1 && asked.tv_sec == s && asked.tv_nsec == n); sleeps = 0; }
template <class S> static void sleeper(unsigned long unit) {      // unit: how many make a second
  unsigned long x = vc::any_ulong("x"), y = vc::any_ulong("y"); VC_REQUIRES((x / unit < (1ul << 62)) & (y / unit < (1ul << 62)));
  long sx = x / unit, nx = x % unit * (G / unit), sy = y / unit, ny = y % unit * (G / unit);
  sleeps = 0;
  S s(x); s(); sleeps_for(sx, nx);
  VC_ENSURES("the duration", s.duration().sec() == sx && s.duration().nsec() == nx);
  s(y); sleeps_for(sy, ny);
  S t; t(y); sleeps_for(sy, ny);
  t(); sleeps_for(sy, ny);
  S u; u(); sleeps_for(0, 0);
}
VC_CASES(C11_sleep, 4)
VC_PROOF(C11_sleep, "ecl::Sleep::operator()(unsigned long const&); ecl::MilliSleep::operator()(unsigned long const&); ecl::MicroSleep::operator()(unsigned long const&); ecl::NanoSleep::operator()(unsigned long const&)") {
  switch (__vc_case()) { case 0: sleeper<Sleep>(1); break; case 1: sleeper<MilliSleep>(1000); break; case 2: sleeper<MicroSleep>(1000000); break; case 3: sleeper<NanoSleep>(1000000000); break; }
}
VC_PROOF(C11_sleep_duration, "ecl::Sleep::Sleep(ecl::TimeStamp const&); ecl::Sleep::operator()(ecl::TimeStamp const&)") {
  TimeStamp d = stamp("d"), e = stamp("e"); VC_REQUIRES((d.sec() >= 0) & (d.nsec() >= 0) & (e.sec() >= 0) & (e.nsec() >= 0)); sleeps = 0;
  Sleep s(d); s(); sleeps_for(d.sec(), d.nsec()); s(e); sleeps_for(e.sec(), e.nsec()); s(); sleeps_for(e.sec(), e.nsec());
}
static bool before(const timespec &a, long s, long n) { return (a.tv_sec < s) | ((a.tv_sec == s) & (a.tv_nsec <= n)); }
// one period after any start is the start of the next: the step holds from every valid time
VC_CASES(C11_snooze, 3)
VC_PROOF(C11_snooze, "ecl::Snooze::operator()(); ecl::Snooze::add_period; ecl::Snooze::period; ecl::Snooze::initialise") {
  clock(6);
  TimeStamp p = stamp("period"); VC_REQUIRES((p.sec() >= 0) & (p.nsec() >= 0) & (p.sec() < FAR_OFF));
  Snooze z(p, __vc_case() == 1);
  VC_ENSURES("the period", z.period().sec() == p.sec() && z.period().nsec() == p.nsec());
  if (__vc_case() == 2) z.initialise();
  long s = now[reads - 1].tv_sec, n = now[reads - 1].tv_nsec;      // started here
  for (int k = 0; k < 2; ++k) {
    int r = reads;
    s += p.sec(); n += p.nsec(); if (n >= G) { n -= G; ++s; }
    VC_REQUIRES(s < FAR_OFF); VC_REQUIRES(before(now[r], s, n) & before(now[r + 1], s, n));   // not late
    z();
    VC_ENSURES("sleeps once", sleeps == k + 1);
    VC_ENSURES("until exactly one period after the last time", asked.tv_sec == s && asked.tv_nsec == n);
  }
}
VC_PROOF(C11_snooze_late, "ecl::Snooze::operator()(); ecl::Snooze::validate") {
  clock(6); TimeStamp p = stamp("period"); VC_REQUIRES((p.sec() >= 0) & (p.nsec() >= 0) & (p.sec() < FAR_OFF));
  Snooze z(p); z();
  VC_ENSURES("a valid time", asked.tv_nsec >= 0 && asked.tv_nsec < G);
  VC_ENSURES("sleeps once", sleeps == 1);
  long s = now[0].tv_sec + p.sec(), n = now[0].tv_nsec + p.nsec(); if (n >= G) { n -= G; ++s; }
  long s2 = now[1].tv_sec + p.sec(), n2 = now[1].tv_nsec + p.nsec(); if (n2 >= G) { n2 -= G; ++s2; }
  bool late = !before(now[1], s, n); VC_COVER("late", late);
  VC_ENSURES("late, until one period from now, otherwise until one period after the last time", late ? asked.tv_sec == s2 && asked.tv_nsec == n2 : asked.tv_sec == s && asked.tv_nsec == n);
}
