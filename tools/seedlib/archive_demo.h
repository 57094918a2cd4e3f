// Helpers of the demonstrations: an archive in a scratch directory.
#include <hzip_storage/archive/archive.h>
#include <hzip_storage/errors/archive.h>
#include <hzip_core/utils/utils.h>
#include <semaphore.h>
#include <cstdio>
#include <string>
#include <vector>

static std::string dir;

struct Arc {
    std::string p;
    HZ_Archive *a;

    explicit Arc(const std::string &name) : p(dir + "/" + name) {
        a = new HZ_Archive(p);
        a->load();
    }

    HZ_Archive *operator->() { return a; }

    void reopen() {
        a->close();
        a = new HZ_Archive(p);
        a->load();
    }

    ~Arc() {
        sem_unlink(("/" + hz_sha512(p)).c_str());
    }
};

static rainman::ptr<uint8_t> bytes(uint64_t n, uint8_t seed) {
    auto r = rainman::ptr<uint8_t>(n);
    for (uint64_t i = 0; i < n; i++) r[i] = (uint8_t) (seed + 7 * i);
    return r;
}

static rainman::ptr<HZ_MState> mstate(uint64_t n, uint8_t seed) {
    auto m = rainman::ptr<HZ_MState>();
    m->data = bytes(n, seed);
    m->alg = hzcodec::algorithms::ALGORITHM::UNCOMPRESSED;
    return m;
}

static HZ_Blob blob(uint64_t n, uint8_t seed, uint64_t mstate_id, uint64_t header = 5) {
    HZ_Blob b{};
    b.header.raw = bytes(header, seed + 1);
    b.data = bytes(n, seed);
    b.size = n;
    b.o_size = n;
    b.mstate_id = mstate_id;
    return b;
}

static bool same(const HZ_Blob &x, const HZ_Blob &y) {
    if (x.size != y.size || x.o_size != y.o_size || x.mstate_id != y.mstate_id || x.header.raw.size() != y.header.raw.size()) return false;
    for (uint64_t i = 0; i < x.size; i++) if (x.data[i] != y.data[i]) return false;
    for (uint64_t i = 0; i < x.header.raw.size(); i++) if (x.header.raw[i] != y.header.raw[i]) return false;
    return true;
}

static int fails = 0;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); fails++; } } while (0)

static void demo();

int main(int, char **argv) {
    dir = argv[1];
    loguru::g_stderr_verbosity = -9;
    try {
        demo();
    } catch (std::exception &e) {
        fprintf(stderr, "FAILED: exception %s\n", e.what());
        fails++;
    } catch (...) {
        fprintf(stderr, "FAILED: exception\n");
        fails++;
    }
    return fails ? 1 : 0;
}
