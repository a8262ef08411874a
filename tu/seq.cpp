#include <icl_core/SequenceNumber.h>
#include <stdint.h>
template class icl_core::SequenceNumber<uint8_t, 255>;
template class icl_core::SequenceNumber<uint8_t, 200, 10>;
template class icl_core::SequenceNumber<uint16_t, 1000, 3, 17>;
template class icl_core::SequenceNumber<uint32_t, 4294967295u>;
template class icl_core::SequenceNumber<uint64_t, 18446744073709551615ull>;
template class icl_core::SequenceNumber<uint64_t, 7, 1>;
template class icl_core::SequenceNumber<int32_t, 2147483647>;
typedef icl_core::SequenceNumber<uint16_t, 1000, 3, 17> S17;
extern "C" uint16_t vcg_default() { S17 s; return s; }
