// mechanical amalgamation of the translation units under contract (no code of its own but a concrete output stream and wrappers)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core/os_posix_mem.cpp"
#include "icl_core_logging/SemaphoreImplPosix.cpp"
#include "icl_core_logging/Semaphore.cpp"
#include "icl_core_logging/ThreadImplPosix.cpp"
#include "icl_core_logging/Thread.cpp"
#include "icl_core_logging/LogLevel.cpp"
#include "icl_core_logging/LogOutputStream.cpp"
#include "icl_core_logging/UdpLogOutput.cpp"
extern "C" { void vcg_line(void*, const void*); }
using icl_core::logging::LogOutputStream; typedef icl_core::logging::LogLevel LL; typedef icl_core::logging::UdpLogOutput UDP;
namespace vcg {
struct Line : public LogOutputStream {
  Line(const icl_core::String& n, LL l) : LogOutputStream(n, l, false) {}
  virtual ~Line() {}
  virtual void pushImpl(const icl_core::String& s) { vcg_line(this, &s); }
};
}
extern "C" {
typedef LogOutputStream::LogMessage LM; typedef LogOutputStream::LogFormatEntry FE;
#define OFF(n, t, m) extern const unsigned long vcg_##n = offsetof(t, m), vcg_size_##n = sizeof(((t*)0)->m);
OFF(fmutex, LogOutputStream, m_format_mutex) OFF(nmutex, LogOutputStream, m_no_worker_thread_push_mutex) OFF(worker, LogOutputStream, m_worker_thread) OFF(format, LogOutputStream, m_log_format) OFF(next, LogOutputStream, m_new_log_format) OFF(tformat, LogOutputStream, m_time_format) OFF(oname, LogOutputStream, m_name)
OFF(type, FE, type) OFF(width, FE, width) OFF(text, FE, text) OFF(suffix, FE, suffix)
OFF(stamp, LM, timestamp) OFF(level, LM, log_level) OFF(stream, LM, log_stream) OFF(file, LM, filename) OFF(lineno, LM, line) OFF(cls, LM, class_name) OFF(object, LM, object_name) OFF(function, LM, function_name) OFF(message, LM, message_text)
OFF(socket, UDP, m_socket) OFF(system, UDP, m_system_name)
extern const unsigned long vcg_out = sizeof(vcg::Line), vcg_msg = sizeof(LM), vcg_entry = sizeof(FE), vcg_udp = sizeof(UDP);
extern const unsigned long vcg_c_text = FE::eT_TEXT, vcg_c_class = FE::eT_CLASSNAME, vcg_c_object = FE::eT_OBJECTNAME, vcg_c_function = FE::eT_FUNCTION, vcg_c_message = FE::eT_MESSAGE, vcg_c_file = FE::eT_FILENAME, vcg_c_line = FE::eT_LINE, vcg_c_level = FE::eT_LEVEL, vcg_c_stream = FE::eT_STREAM, vcg_c_time = FE::eT_TIMESTAMP, vcg_c_ms = FE::eT_TIMESTAMP_MS;
void vcg_ctor(void* p, const std::string& n, LL l) { new (p) vcg::Line(n, l); }
void vcg_record(void* p, const icl_core::TimeStamp& t, LL l, const char* s, const char* f, size_t line, const char* c, const char* o, const char* fn, const char* m) { new (p) LM(t, l, s, f, line, c, o, fn, m); }
void vcg_parse(LogOutputStream& o, const char* f) { o.parseLogFormat(f); }
void vcg_change(LogOutputStream& o, const char* f) { o.changeLogFormat(f); }
void vcg_write_line(LogOutputStream& o, const LM& m) { o.LogOutputStream::pushImpl(m); }
void vcg_udp_push(UDP& o, const LM& m) { o.UDP::pushImpl(m); }
const char* vcg_description(LL l) { return icl_core::logging::logLevelDescription(l); }
bool vcg_level_from(const std::string& s, LL& l) { return icl_core::logging::stringToLogLevel(s, l); }
}
