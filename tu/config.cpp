// mechanical amalgamation of the translation units under contract (no code of its own but wrappers and layout constants)
#include "icl_core_config/ConfigParameter.cpp"
#include "icl_core_config/ConfigPositionalParameter.cpp"
#include "icl_core_config/ConfigManager.cpp"
#include "icl_core_config/Config.cpp"
#include <cstddef>
using icl_core::String;
using namespace icl_core::config;
typedef std::pair<const String, String> Item;
typedef icl_core::KeyValueDirectory<String> Dir;
typedef icl_core::KeyValueDirectoryIterator<String> Iter;
#define OFF(n, c, f) extern const unsigned long vcg_##n = offsetof(c, f);
extern "C" {
OFF(items, ConfigManager, m_items) OFF(initialized, ConfigManager, m_initialized) OFF(parameters, ConfigManager, m_parameter_list) OFF(positionals, ConfigManager, m_postional_parameter_list) OFF(observers, ConfigManager, m_observers)
extern const unsigned long vcg_manager = sizeof(ConfigManager), vcg_param = sizeof(ConfigParameter), vcg_pos = sizeof(ConfigPositionalParameter), vcg_gparam = sizeof(GetoptParameter), vcg_gpos = sizeof(GetoptPositionalParameter), vcg_keyvalue = sizeof(Getopt::KeyValue), vcg_iter = sizeof(Iter);
extern const unsigned long vcg_element = TiXmlNode::TINYXML_ELEMENT, vcg_textnode = TiXmlNode::TINYXML_TEXT, vcg_ok = AttributeTree::eOK, vcg_loaderror = AttributeTree::eFILE_LOAD_ERROR;
OFF(p_option, ConfigParameter, m_option) OFF(p_key, ConfigParameter, m_config_key) OFF(p_default, ConfigParameter, m_default_value)
OFF(q_name, ConfigPositionalParameter, m_name) OFF(q_key, ConfigPositionalParameter, m_config_key) OFF(q_default, ConfigPositionalParameter, m_default_value)
OFF(k_key, Getopt::KeyValue, m_key) OFF(k_value, Getopt::KeyValue, m_value) OFF(item_second, Item, second)
OFF(i_directory, Iter, m_directory) OFF(i_query, Iter, m_query) OFF(i_results, Iter, m_current_results) OFF(i_entry, Iter, m_current_entry) OFF(i_reset, Iter, m_reset)
bool vcg_set(ConfigManager* m, const String* k, const String* v) { return m->setValue<String>(*k, *v); }
bool vcg_cget(const String* k, String* v) { return get<String>(*k, *v); }
void vcg_default(String* r, const String* k, const String* v) { new (r) String(getDefault<String>(*k, *v)); }
void vcg_cset(const String* k, const String* v) { setValue(*k, *v); }
bool vcg_present(const String* k) { return paramOptPresent(*k); }
bool vcg_get(Dir* d, const String* k, String* v) { return d->get(*k, *v); }
}
template class icl_core::KeyValueDirectoryIterator<String>;
