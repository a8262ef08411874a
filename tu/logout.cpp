// mechanical amalgamation of the translation units under contract (no code of its own but a concrete output stream and wrappers)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core_logging/SemaphoreImplPosix.cpp"
#include "icl_core_logging/Semaphore.cpp"
#include "icl_core_logging/ThreadImplPosix.cpp"
#include "icl_core_logging/Thread.cpp"
#include "icl_core_logging/LogLevel.cpp"
#include "icl_core_logging/LogOutputStream.cpp"
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core/os_posix_time.cpp"
extern "C" { void vcg_on_start(void*); void vcg_on_shutdown(void*); void vcg_write(void*, const void*); }
using icl_core::logging::LogOutputStream; typedef icl_core::logging::LogLevel LL;
namespace vcg {
struct Out : public LogOutputStream {
  Out(const icl_core::String& n, LL l, bool w) : LogOutputStream(n, l, w) {}
  virtual ~Out() {}
  virtual void onStart() { vcg_on_start(this); }
  virtual void onShutdown() { vcg_on_shutdown(this); }
  virtual void pushImpl(const LogMessage& m) { vcg_write(this, &m); }
};
}
extern "C" {
typedef LogOutputStream::WorkerThread WT; typedef LogOutputStream::LogMessage LM;
extern const unsigned long vcg_out = sizeof(vcg::Out), vcg_execute = offsetof(WT, m_execute), vcg_starting = offsetof(WT, m_starting), vcg_worker = offsetof(LogOutputStream, m_worker_thread), vcg_level = offsetof(LogOutputStream, m_log_level), vcg_mutex = offsetof(WT, m_mutex), vcg_fill = offsetof(WT, m_fill_count), vcg_msg = sizeof(LM), vcg_wt = sizeof(WT);
void vcg_ctor(void* p, const std::string& n, LL l, bool w) { new (p) vcg::Out(n, l, w); }
void vcg_dtor(LogOutputStream& o) { o.~LogOutputStream(); }
void vcg_run(WT& w) { w.run(); }
void vcg_push(LogOutputStream& o, LL l, const char* s, const char* f, int line, const char* c, const char* ob, const char* fn, const char* t) { o.push(l, s, f, line, c, ob, fn, t); }
void vcg_shutdown(LogOutputStream& o) { o.shutdown(); }
void vcg_set_level(LogOutputStream& o, LL l) { o.setLogLevel(l); }
LL vcg_get_level(const LogOutputStream& o) { return o.getLogLevel(); }
void vcg_start(LogOutputStream& o) { o.start(); }
}
