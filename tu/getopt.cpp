// mechanical amalgamation of the translation units under contract (no code of its own but wrappers and layout constants)
#include "icl_core_config/GetoptParameter.cpp"
#include "icl_core_config/GetoptPositionalParameter.cpp"
#include "icl_core_config/GetoptParser.cpp"
#include <cstddef>
using icl_core::config::Getopt;
using icl_core::config::GetoptParameter;
using icl_core::config::GetoptPositionalParameter;
using icl_core::String;
typedef std::pair<const String, GetoptParameter> Entry;
typedef std::pair<const String, String> Value;
#define OFF(n, c, f) extern const unsigned long vcg_##n = offsetof(c, f);
extern "C" {
OFF(parameters, Getopt, m_parameters) OFF(prefix_parameters, Getopt, m_prefix_parameters) OFF(short_parameters, Getopt, m_short_parameters) OFF(short_prefix_parameters, Getopt, m_short_prefix_parameters)
OFF(required, Getopt, m_required_positional_parameters) OFF(optional, Getopt, m_optional_positional_parameters) OFF(extra_active, Getopt, m_extra_cmd_param_activated) OFF(extra_delim, Getopt, m_extra_cmd_param_delimiter)
OFF(initialized, Getopt, m_initialized) OFF(argc, Getopt, m_argc) OFF(argv, Getopt, m_argv) OFF(program, Getopt, m_program_name) OFF(version, Getopt, m_program_version) OFF(description, Getopt, m_program_description)
OFF(non_opt, Getopt, m_param_non_opt) OFF(opt, Getopt, m_param_opt) OFF(prefix_opt, Getopt, m_prefix_param_opt) OFF(extra, Getopt, m_extra_cmd_param)
extern const unsigned long vcg_strict = Getopt::ePRC_Strict, vcg_relaxed = Getopt::ePRC_Relaxed, vcg_none = Getopt::eCLC_None, vcg_cleanup = Getopt::eCLC_Cleanup;
extern const unsigned long vcg_getopt = sizeof(Getopt), vcg_param = sizeof(GetoptParameter), vcg_pos = sizeof(GetoptPositionalParameter), vcg_entry = sizeof(Entry);
OFF(p_option, GetoptParameter, m_option) OFF(p_value, GetoptParameter, m_has_value) OFF(p_short, GetoptParameter, m_short_option) OFF(p_help, GetoptParameter, m_help) OFF(p_prefix, GetoptParameter, m_is_prefix)
OFF(q_name, GetoptPositionalParameter, m_name) OFF(q_help, GetoptPositionalParameter, m_help) OFF(q_optional, GetoptPositionalParameter, m_is_optional)
OFF(entry_second, Entry, second) OFF(value_second, Value, second)
}
