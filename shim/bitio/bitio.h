// Stand-in for the bitio bit-stream library (an empty git submodule in the
// analysed repository): MSB-first bit access over a FILE* or a memory buffer.
// read/write/seek/seek_to count in bits; the position is shared by reads and
// writes; writes keep the other bits of a partly written byte.
#ifndef BITIO_STANDIN_H
#define BITIO_STANDIN_H

#include <cstdint>
#include <cstdio>
#include <vector>

namespace bitio {
    class stream {
    private:
        FILE *_fp = nullptr;
        uint8_t *_buf = nullptr;
        uint64_t _size = 0;
        uint64_t _pos = 0;

        int get(uint64_t byte) {
            if (_fp != nullptr) {
                if (fseek(_fp, (long) byte, SEEK_SET) != 0) return 0;
                int c = fgetc(_fp);
                return c == EOF ? 0 : c;
            }
            return byte < _size ? _buf[byte] : 0;
        }

        void put(uint64_t byte, int c) {
            if (_fp != nullptr) {
                fseek(_fp, (long) byte, SEEK_SET);
                fputc(c, _fp);
            } else if (byte < _size) {
                _buf[byte] = (uint8_t) c;
            }
        }

    public:
        stream() = default;

        explicit stream(FILE *fp) : _fp(fp) {}

        stream(uint8_t *buf, uint64_t size) : _buf(buf), _size(size) {}

        uint64_t read(uint64_t n) {
            uint64_t v = 0;
            while (n > 0) {
                uint64_t off = _pos & 7, take = 8 - off;
                if (take > n) take = n;
                uint64_t c = (uint64_t) get(_pos >> 3);
                v = (v << take) | ((c >> (8 - off - take)) & ((1u << take) - 1));
                _pos += take;
                n -= take;
            }
            return v;
        }

        void write(uint64_t obj, uint64_t n) {
            while (n > 0) {
                uint64_t off = _pos & 7, take = 8 - off;
                if (take > n) take = n;
                uint64_t bits = (obj >> (n - take)) & ((1u << take) - 1);
                int c = get(_pos >> 3);
                uint64_t mask = ((1u << take) - 1) << (8 - off - take);
                put(_pos >> 3, (int) ((c & ~mask) | (bits << (8 - off - take))));
                _pos += take;
                n -= take;
            }
        }

        void seek(uint64_t n) { _pos += n; }

        void seek_to(uint64_t n) { _pos = n; }

        void flush() { if (_fp != nullptr) fflush(_fp); }
    };
}

#endif
