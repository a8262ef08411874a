#include <icl_core/BitfieldHelper.h>
#include <stdint.h>
#define I(T) template void icl_core::setBits<T>(int, T&); template void icl_core::clearBits<T>(int, T&); template bool icl_core::isBitSet<T>(int, const T&);
I(uint8_t) I(uint16_t) I(uint32_t) I(uint64_t) I(int8_t) I(int16_t) I(int32_t) I(int64_t)
enum En { eA = 1, eB = 2, eC = 0x10000 };
I(En)
