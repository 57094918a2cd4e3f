// Helpers of the demonstrations: a query session over a socket pair, with an archive in a scratch directory.
#include <hzip_network/api/handlers/query.h>
#include <hzip_network/api/providers/archive_provider.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_network/errors/api.h>
#include <hzip_core/utils/utils.h>
#include <sys/socket.h>
#include <semaphore.h>
#include <csignal>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

static std::string dir;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); fails++; } } while (0)

static void demo();

struct Session {
    int fd[2];
    rainman::ptr<hzapi::ArchiveProvider> provider;
    std::string refused;   // the message of the exception that ended the session
    bool ended = false;
    std::thread worker;

    explicit Session(const rainman::ptr<hzapi::ArchiveProvider> &p) : provider(p) {
        socketpair(AF_UNIX, SOCK_STREAM, 0, fd);
        timeval tv{10, 0};
        setsockopt(fd[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
    }

    // The client's bytes are all queued before the session starts.
    void put(const void *p, size_t n) { if (write(fd[0], p, n) != (ssize_t) n) perror("write"); }
    void u8(uint8_t x) { put(&x, 1); }
    void str(const std::string &s) { uint16_t n = s.size(); put(&n, 2); put(s.data(), n); }

    void run() {
        worker = std::thread([this] {
            try {
                hzapi::Query(fd[1], "peer", 0, provider).start();
            } catch (std::exception &e) {
                refused = e.what();
            } catch (...) {
                refused = "exception";
            }
            ended = true;
            shutdown(fd[1], SHUT_RDWR);
        });
    }

    // Everything the session sent.
    std::vector<uint8_t> finish() {
        std::vector<uint8_t> out;
        uint8_t b;
        while (read(fd[0], &b, 1) == 1) out.push_back(b);
        worker.join();
        close(fd[0]);
        close(fd[1]);
        return out;
    }
};

int main(int, char **argv) {
    dir = argv[1];
    loguru::g_stderr_verbosity = -9;
    signal(SIGPIPE, SIG_IGN);
    try {
        demo();
    } catch (std::exception &e) {
        fprintf(stderr, "FAILED: exception %s\n", e.what());
        fails++;
    } catch (...) {
        fprintf(stderr, "FAILED: exception\n");
        fails++;
    }
    fflush(stdout);
    _exit(fails ? 1 : 0);
}
