// mechanical amalgamation of the translation units under contract (no code of its own but wrappers that name the members called)
#include <stddef.h>
#include "icl_core/Noncopyable.cpp"
#include "icl_core/os_posix_thread.cpp"
#include "icl_core/os_posix_string.cpp"
#include "icl_core/os_string.cpp"
#include "icl_core_logging/LogLevel.cpp"
#include "icl_core_logging/stream_operators_impl_posix.cpp"
#include "icl_core_logging/ThreadStream.cpp"
#include "icl_core_logging/LogStream.cpp"
#include "icl_core_logging/LoggingMacros_SLOGGING.h"
typedef icl_core::logging::ThreadStream TS; typedef icl_core::logging::LogStream LS; typedef icl_core::logging::LogLevel LL; typedef icl_core::logging::LogOutputStream LO;
extern "C" {
#define OFF(n, t, m) extern const unsigned long vcg_##n = offsetof(t, m), vcg_size_##n = sizeof(((t*)0)->m);
OFF(parent, TS, m_parent) OFF(level, TS, m_level) OFF(lline, TS, m_line_log_level) OFF(filename, TS, m_filename) OFF(line, TS, m_line) OFF(classname, TS, m_classname) OFF(objectname, TS, m_objectname) OFF(function, TS, m_function) OFF(data, TS, m_data) OFF(wi, TS, m_write_index)
OFF(ilevel, LS, m_initial_level) OFF(active, LS, m_active) OFF(mutex, LS, m_mutex) OFF(infos, LS, m_thread_stream_map) OFF(outputs, LS, m_output_stream_list) OFF(name, LS, m_name)
OFF(itid, LS::ThreadStreamInfo, thread_id) OFF(ilvl, LS::ThreadStreamInfo, log_level) OFF(its, LS::ThreadStreamInfo, thread_stream)
extern const unsigned long vcg_ts = sizeof(TS), vcg_ls = sizeof(LS), vcg_info = sizeof(LS::ThreadStreamInfo), vcg_pool = cDEFAULT_LOG_THREAD_STREAM_POOL_SIZE;
void vcg_ls_ctor(void* p, const std::string& n, LL l) { new (p) LS(n, l); }
void vcg_ls_dtor(LS& s) { s.~LS(); }
void vcg_ts_ctor(void* p, LS* l) { new (p) TS(l); }
TS& vcg_stream(LS& s, LL l) { return s.threadStream(l); }
void vcg_release(LS& s, TS* t) { s.releaseThreadStream(t); }
void vcg_add(LS& s, LO* o) { s.addOutputStream(o); }
void vcg_remove(LS& s, LO* o) { s.removeOutputStream(o); }
void vcg_flush(TS& t) { t.flush(); }
void vcg_flush_f(TS& t) { t << icl_core::logging::flush; }
void vcg_endl(TS& t) { t << icl_core::logging::endl; }
void vcg_write(TS& t, const char* s, size_t n, size_t p) { t.write(s, n, p); }
void vcg_printf(TS& t, const char* f, int x) { t.printf(f, x); }
void vcg_set_filename(TS& t, const char* s) { t.setFilename(s); }
void vcg_set_classname(TS& t, const char* s) { t.setClassname(s); }
void vcg_set_objectname(TS& t, const char* s) { t.setObjectname(s); }
void vcg_set_function(TS& t, const char* s) { t.setFunction(s); }
void vcg_set_line(TS& t, size_t l) { t.setLine(l); }
void vcg_set_lline(TS& t, LL l) { t.setLineLogLevel(l); }
void vcg_op_u8(TS& t, uint8_t v) { t << v; }
void vcg_op_u16(TS& t, uint16_t v) { t << v; }
void vcg_op_u32(TS& t, uint32_t v) { t << v; }
void vcg_op_u64(TS& t, uint64_t v) { t << v; }
void vcg_op_i8(TS& t, int8_t v) { t << v; }
void vcg_op_i16(TS& t, int16_t v) { t << v; }
void vcg_op_i32(TS& t, int32_t v) { t << v; }
void vcg_op_i64(TS& t, int64_t v) { t << v; }
void vcg_op_text(TS& t, const char* v) { t << v; }
void vcg_op_string(TS& t, const std::string& v) { t << v; }
void vcg_op_double(TS& t, double v) { t << v; }
void vcg_op_bool(TS& t, bool v) { t << v; }
void vcg_op_ptr(TS& t, void* v) { t << v; }
void vcg_set_active(LS& s, bool a) { s.setActive(a); }
bool vcg_is_active(const LS& s) { return s.isActive(); }
LL vcg_level_of(const LS& s) { return s.getLogLevel(); }
void vcg_log(LS& s, LL l, const char* f, int line, const char* c, const char* o, const char* text) { SLOGGING_LOG_FLCO(s, l, f, line, c, o, text << icl_core::logging::endl); }
}
