#define private public
#define protected public
#include <icl_core_logging/FileLogOutput.h>
#undef private
#undef protected
#include <icl_core/os_fs.cpp>
#include <icl_core_logging/FileLogOutput.cpp>
#include <cstddef>
#define OFF(n, m) extern const unsigned long vcg_##n = __builtin_offsetof(icl_core::logging::FileLogOutput, m);
extern "C" {
extern const unsigned long vcg_size = sizeof(icl_core::logging::FileLogOutput);
OFF(filename, m_filename) OFF(file, m_log_file) OFF(rotate, m_rotate) OFF(last, m_last_rotation) OFF(delold, m_delete_old_files) OFF(flush, m_flush) OFF(zip, m_online_zip) OFF(zipped, m_zipped_log_file)
}
