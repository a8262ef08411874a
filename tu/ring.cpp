// explicit instantiation of the real templates; the offset constants tell the specification where the members live
#include <icl_core/RingBuffer.h>
#include <icl_core/tRingBuffer.h>
#include <stdint.h>
template class icl_core::RingBuffer<uint32_t>;
template class icl_core::tRingBuffer<uint32_t>;
typedef icl_core::RingBuffer<uint32_t> RB;
typedef icl_core::tRingBuffer<uint32_t> TRB;
typedef RB::const_iterator CI;
typedef RB::iterator IT;
extern "C" {
extern const unsigned long vcg_rb_buffer = __builtin_offsetof(RB, m_buffer), vcg_rb_write = __builtin_offsetof(RB, m_write), vcg_rb_read = __builtin_offsetof(RB, m_read), vcg_rb_size = sizeof(RB);
extern const unsigned long vcg_trb_buffer = __builtin_offsetof(TRB, m_buffer), vcg_trb_write = __builtin_offsetof(TRB, m_write), vcg_trb_read = __builtin_offsetof(TRB, m_read), vcg_trb_size = sizeof(TRB);
extern const unsigned long vcg_it_current = __builtin_offsetof(CI, m_current), vcg_it_cbegin = __builtin_offsetof(CI, m_cbegin), vcg_it_cend = __builtin_offsetof(CI, m_cend), vcg_it_begin = __builtin_offsetof(CI, m_begin), vcg_it_size = sizeof(CI);
}
// the iterator classes' inline members
int64_t vcg_use(CI& a, CI& b, IT& c) { a++; ++a; a--; --a; a += 1; a -= 1; CI d(a + 1); CI e = a - 1; d = e; IT f(c); f = c; return (a - b) + (a == b) + (a != b) + *a + *a.operator->() + *c + *c.operator->(); }
