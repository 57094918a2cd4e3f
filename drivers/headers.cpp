// Gives the analysis a translation unit for code that lives in headers only.
#include "hzip_core/preprocessor/zigzag.h"
#include "hzip_core/utils/stack.h"
#include "hzip_core/utils/utils.h"

template struct HZ_Stack<uint64_t>;
#include "hzip_core/preprocessor/color.h"
template class hztrans::RGBColorTransformer<uint8_t>;
template class hztrans::RGBColorTransformer<uint16_t>;
template class hztrans::RGBColorTransformer<uint32_t>;
template class hztrans::RGBColorTransformer<int16_t>;
template class hztrans::RGBColorTransformer<int32_t>;
