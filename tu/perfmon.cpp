// mechanical amalgamation of the translation units under contract (no code of its own)
#include "icl_core/TimeBase.cpp"
#include "icl_core/TimeSpan.cpp"
#include "icl_core/TimeStamp.cpp"
#include "icl_core_performance_monitor/PerformanceMonitor.cpp"
typedef icl_core::perf_mon::PerformanceMonitor PM;
extern "C" {
extern const unsigned long vcg_size = sizeof(PM), vcg_enabled = offsetof(PM, m_enabled), vcg_print_stop = offsetof(PM, m_print_stop), vcg_all = offsetof(PM, m_all_enabled), vcg_data = offsetof(PM, m_data), vcg_nontime = offsetof(PM, m_data_nontime),
  vcg_timer = offsetof(PM, m_timer), vcg_buffer = offsetof(PM, m_buffer), vcg_prefix = offsetof(PM, m_enabled_prefix), vcg_static = offsetof(PM, m_static_data);
}
