exec(open('/verif/tools/specs/s8.py').read().split('BUGS = [')[0])
RUN = HEAD + r'''
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
static io::Worker& live(io::WorkerConfig c = {}) { static auto* w = new io::Worker(0, c); static std::thread t([&] { w->loop_forever(); }); static bool once = (w->wait_ready(), t.detach(), true); (void)once; return *w; }
static void until(std::atomic<int>& f, const char* what) { for (int i = 0; i < 5000 && !f; ++i) usleep(1000); if (!f) bad(what); }
static std::string dir() { char t[] = "/tmp/demoXXXXXX"; return mkdtemp(t); }
'''
W = 'kio/core/worker.cpp'
SHORT = SHIM + '''static inline void kio_short_read(struct io_uring_sqe *sqe, int fd, void *b, unsigned n, __u64 off) { io_uring_prep_read(sqe, fd, b, n > 700 ? 700 : n, off); }
#define io_uring_prep_read kio_short_read
'''
BUGS = [
dict(id='sendfile-short-splice', property='C22', edits=[(W, 'current_offset += res_in;\n        remaining -= res_in;', 'current_offset += static_cast<off_t>(to_splice);\n        remaining -= to_splice;')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
int main() {
    auto d = dir(); std::string p = d + "/f"; int in = open(p.c_str(), O_RDWR | O_CREAT, 0600);
    std::string text(5000, 'x'); (void)!::pwrite(in, text.data(), text.size(), 0); unlink(p.c_str()); rmdir(d.c_str());
    int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
    auto& w = live(); static std::atomic<int> done; static Result<void> r;
    auto f = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r = co_await w.async_sendfile(sv[0], in, 0, 9000); done = 1; };
    f().detach(); until(done, "sendfile does not end");
    if (r.has_value()) bad("success although the file ended early"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a splice that moves less than was asked for, here because the file is shorter', breaks='success is reported although not every byte was sent'),
dict(id='read-exact-at-resume', property='C22', edits=[(W, '''            const uint64_t current_offset = offset + total_bytes_read;
            std::span<char> remaining_buf = buf.subspan(total_bytes_read);
''', '''            const uint64_t current_offset = offset + (total_bytes_read & ~size_t{511});
            std::span<char> remaining_buf = buf.subspan(total_bytes_read);
''')],
     files={'shim.h': SHORT, 'demo.cpp': RUN + r'''
int main() {
    auto d = dir(); std::string p = d + "/f"; int in = open(p.c_str(), O_RDWR | O_CREAT, 0600); unlink(p.c_str()); rmdir(d.c_str());
    std::string text; for (int i = 0; i < 6000; ++i) text += char('a' + i * 7 % 23);
    (void)!::pwrite(in, text.data(), text.size(), 0);
    auto& w = live(); static std::atomic<int> done; static Result<void> r; std::string got(6000, 0);
    auto g = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r = co_await w.async_read_exact_at(in, got, 0); done = 1; };
    g().detach(); until(done, "the read does not end"); if (!r) bad("the read fails");
    if (got != text) bad("the bytes are not those of the file");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a short positional read that ends in the middle of a block', breaks='the next part is read from the wrong position'),
dict(id='write-exact-far', property='C22', edits=[(W, 'const uint64_t current_offset = offset + total_bytes_written;', 'const off_t current_offset = static_cast<off_t>(static_cast<unsigned>(offset) + total_bytes_written);')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
int main() {
    auto d = dir(); std::string p = d + "/f"; int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600); unlink(p.c_str()); rmdir(d.c_str());
    auto& w = live(); static std::atomic<int> done; static Result<void> r; std::string text(100, 'z'), got(100, 0);
    auto g = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r = co_await w.async_write_exact_at(fd, text, 5ull << 30); done = 1; };
    g().detach(); until(done, "the write does not end"); if (!r) bad("the write fails");
    if (::pread(fd, got.data(), 100, 5ll << 30) != 100 || got != text) bad("the bytes are not where they were written");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='an offset of 4 GiB or more', breaks='the bytes go to the offset modulo 4 GiB'),
dict(id='sendfile-empty-leak', property='C22', edits=[(W, '''    // Use FDGuard to be sure those will always properly be closed
''', '''    if (count == 0)
    {
        // nothing to move
        co_return {};
    }

    // Use FDGuard to be sure those will always properly be closed
''')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
int main() {
    auto& w = live(); static std::atomic<int> done; static Result<void> r;
    int first = dup(0); close(first);
    auto g = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r = co_await w.async_sendfile(1, 0, 0, 0); done = 1; };
    g().detach(); until(done, "sendfile does not end"); if (!r) bad("sendfile of nothing fails");
    int next = dup(0); if (next != first) bad("a descriptor is left open");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a transfer of 0 bytes', breaks='both ends of the pipe stay open'),
dict(id='connect-again', property='C21', edits=[(W, '''        auto ret = co_await make_uring_awaitable(*this, prep, client_fd, addr, addrlen);
        if (ret < 0)
''', '''        auto ret = co_await make_uring_awaitable(*this, prep, client_fd, addr, addrlen);
        if (ret < 0 && ret != -EISCONN)
''')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
#include <netinet/in.h>
#include <arpa/inet.h>
static int listener(sockaddr_in& a) { int s = socket(AF_INET, SOCK_STREAM, 0); a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (bind(s, (sockaddr*)&a, n) || listen(s, 4) || getsockname(s, (sockaddr*)&a, &n)) bad("listen"); return s; }
int main() {
    auto& w = live(); static std::atomic<int> done; static Result<void> r1, r2; sockaddr_in a, b; listener(a); listener(b); int s = socket(AF_INET, SOCK_STREAM, 0);
    auto g = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r1 = co_await w.async_connect(s, (sockaddr*)&a, sizeof a); r2 = co_await w.async_connect(s, (sockaddr*)&b, sizeof b); done = 1; };
    g().detach(); until(done, "connect does not end"); if (!r1) bad("connect fails");
    if (r2.has_value()) bad("connect reports success for an address it is not connected to");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a connect on a socket that is connected already', breaks='success is reported for another address'),
dict(id='open-borrowed-path', property='C21', edits=[(W, 'Worker::async_openat(const std::filesystem::path path,', 'Worker::async_openat(const std::filesystem::path& path,'), ('kio/core/worker.h', 'async_openat(std::filesystem::path path,', 'async_openat(const std::filesystem::path& path,')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
int main() {
    auto& w = live(); static std::atomic<int> done; static Result<int> r; auto d = dir();
    std::string p = d + "/a-name-that-is-longer-than-the-small-string-buffer"; close(open(p.c_str(), O_RDWR | O_CREAT, 0600));
    auto g = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); auto t = w.async_openat(std::filesystem::path(p), O_RDONLY, 0); r = co_await std::move(t); done = 1; };
    g().detach(); until(done, "open does not end"); unlink(p.c_str()); rmdir(d.c_str());
    if (!r) bad("the file is not found: the path was gone");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a task that is awaited after the statement that made it: the path was a temporary', breaks='the operation reads a freed path'),
]
