// mechanical amalgamation of the translation units under contract (no code of its own)
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
// force emission of the inline member and free functions
namespace vcg_force {
using namespace icl_core;
int64_t f1(const TimeStamp& a) { return a.days() + a.hours() + a.minutes() + a.seconds() + a.milliSeconds() + a.microSeconds() + a.nanoSeconds() + a.tsSec() + a.tsUSec() + a.tsNSec(); }
int64_t f2(const TimeBase& a) { return a.tbSec() + a.tbNSec() + a.days(); }
bool f3(const TimeStamp& a, const TimeStamp& b) { return (a == b) + (a != b) + (a < b) + (a > b) + (a <= b) + (a >= b); }
TimeStamp f4(const TimeStamp& a, const TimeSpan& b) { TimeStamp c(a); c += b; c -= b; return (a + b) - (b + a - b - a) ; }
TimeSpan f5(const TimeSpan& a, const TimeSpan& b) { return (a + b) - abs(a - b); }
TimeStamp f6() { return TimeStamp::maxTime(); }
TimeStamp f7(uint64_t a, uint32_t b, time_t t, struct timespec s) { TimeStamp x(a, b); TimeStamp y(t); TimeStamp z(s); TimeStamp w; return x; }
}
