// Helpers of the demonstrations: the real server on a loopback port, with archives in a scratch directory.
#include <hzip_network/api/api.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_network/errors/api.h>
#include <hzip_codec/codec_provider.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/utils/utils.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <csignal>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include <semaphore.h>
#include <unistd.h>

using namespace hzapi;

static std::string dir;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); fails++; } } while (0)

static void demo();
static std::vector<std::string> used;

// The path of an archive in the scratch directory.
static std::string scratch(const std::string &name) {
    used.push_back(dir + "/" + name);
    return used.back();
}

struct Server {
    Api *api;
    uint16_t port = 0;

    explicit Server(uint64_t instances = 4, uint64_t threads = 4, const std::string &password = "secret") {
        int s = socket(PF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = inet_addr("127.0.0.1");
        socklen_t n = sizeof(a);
        bind(s, (sockaddr *) &a, n);
        getsockname(s, (sockaddr *) &a, &n);
        port = ntohs(a.sin_port);
        close(s);
        api = new Api(instances);
        api->process(threads)->protect(password);
        std::thread([this] {
            try { api->start("127.0.0.1", port); } catch (...) { fprintf(stderr, "FAILED: the server did not start\n"); _exit(1); }
        }).detach();
    }
};

struct Client {
    int fd = -1;
    bool lost = false;

    explicit Client(const Server &s, int seconds = 20) {
        for (int i = 0; i < 200; i++) {
            fd = socket(PF_INET, SOCK_STREAM, 0);
            timeval tv{seconds, 0};
            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(s.port);
            a.sin_addr.s_addr = inet_addr("127.0.0.1");
            if (connect(fd, (sockaddr *) &a, sizeof(a)) == 0) return;
            close(fd);
            usleep(20000);
        }
        lost = true;
    }

    ~Client() { if (fd >= 0) close(fd); }

    // Raw bytes.
    bool get(void *p, size_t n) {
        if (!lost && recv(fd, p, n, MSG_WAITALL) != (ssize_t) n) lost = true;
        return !lost;
    }
    void put(const void *p, size_t n) { if (!lost && ::send(fd, p, n, MSG_NOSIGNAL) != (ssize_t) n) lost = true; }

    // The server asks for every item with one byte.
    std::string last_error;
    bool asked() {
        uint8_t b = 1;
        if (!get(&b, 1)) return false;
        if (b == 0xff) { take_error(); return false; }
        return b == 0;
    }
    void take_error() {
        uint16_t n = 0;
        get(&n, 2);
        last_error = std::string(n, ' ');
        get(last_error.data(), n);
        if (lost) last_error = "";
    }
    bool item(const void *p, size_t n) { if (!asked()) return false; put(p, n); return !lost; }
    bool u8(uint8_t x) { return item(&x, 1); }
    bool u64(uint64_t x) { return item(&x, 8); }
    bool str(const std::string &s) { uint16_t n = s.size(); return item(&n, 2) && item(s.data(), n); }

    // An item of the server: a status byte and its bytes.
    bool take(void *p, size_t n) { return asked() && get(p, n); }
    std::string message() {
        uint16_t n = 0;
        if (!take(&n, 2)) return "";
        std::string s(n, ' ');
        return take(s.data(), n) ? s : "";
    }

    bool login(const std::string &password = "secret") {
        uint64_t x = 0;
        if (!take(&x, 8)) return false;
        x = hz_enc_token(password, x);
        if (!item(&x, 8)) return false;
        return message() == "Handshake successful";
    }
};

int main(int, char **argv) {
    dir = argv[1];
    loguru::g_stderr_verbosity = -9;
    signal(SIGPIPE, SIG_IGN);
    try {
        hzruntime::CacheProvider::init_cache(dir + "/cache", 4, 4096);
        demo();
    } catch (std::exception &e) {
        fprintf(stderr, "FAILED: exception %s\n", e.what());
        fails++;
    } catch (...) {
        fprintf(stderr, "FAILED: exception\n");
        fails++;
    }
    for (auto &p : used) sem_unlink(("/" + hz_sha512(p)).c_str());
    fflush(stdout);
    _exit(fails ? 1 : 0);
}
