#include <cstddef>
#include "hzip_core/preprocessor/jpeg_codec.h"

void hzv_jpeg(uint8_t *buf, uint64_t len, std::string name, FILE *out) {
    hzj_iface a(buf, len);
    hzj_iface b(name);
    auto image = a.read();
    b.write(image, out);
}
