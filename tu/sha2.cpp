#include <stddef.h>
#include <icl_core_crypt/Sha2.h>
using namespace icl_core::crypt;
extern "C" {
#define L(T) extern const unsigned long vcg_##T##_size = sizeof(T), vcg_##T##_digest = offsetof(T, m_digest), vcg_##T##_total = offsetof(T, m_message_size), \
  vcg_##T##_buffer = offsetof(T, m_buffer), vcg_##T##_fill = offsetof(T, m_buffer_fill), vcg_##T##_word = sizeof(((T*)0)->m_digest[0]), vcg_##T##_bsize = sizeof(((T*)0)->m_buffer);
L(Sha224) L(Sha256) L(Sha384) L(Sha512)
// entry points named after the algorithm (the class names carry the initial values)
#define E(T) void vcg_##T##_ctor(void* p) { new (p) T(); } \
  void vcg_##T##_clear(T& x) { x.clear(); } \
  void vcg_##T##_block(T& x) { x.processBuffer(); } \
  void vcg_##T##_cstr(T& x, const char* s) { x.process(s); } \
  void vcg_##T##_data(T& x, const void* s, size_t n) { x.process(s, n); } \
  void vcg_##T##_string(T& x, const std::string& s) { x.process(s); } \
  void vcg_##T##_finalize(T& x) { x.finalize(); } \
  std::string vcg_##T##_hex(const T& x) { return x.getHexDigest(); }
E(Sha224) E(Sha256) E(Sha384) E(Sha512)
}
