// mechanical amalgamation of the translation units under contract (no code of its own but wrappers)
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
using icl_core::TimeStamp; using icl_core::String;
extern "C" {
TimeStamp vcg_round(const TimeStamp& t) { return TimeStamp::fromIso8601BasicUTC(t.formatIso8601BasicUTC()); }
}
