exec(open('/verif/tools/specs/s10.py').read().split('\nBUGS = [')[0])
N, L, C_, S_ = 'kio/net/net.cpp', 'kio/tls/listener.cpp', 'kio/tls/context.cpp', 'kio/tls/stream.cpp'
NDEMO = DEMO.replace('"$PWD/kio/core/worker.cpp"', '"$PWD/kio/net/net.cpp"').replace(' -luring', '')
NHEAD = r'''#include "kio/net/net.h"
#include "kio/net/socket.h"
#include <sys/syscall.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
using namespace kio;
using namespace kio::net;
[[maybe_unused]] static int bad(const char* w) { std::printf("%s\n", w); std::fflush(stdout); _exit(1); }
[[maybe_unused]] static int good() { std::puts("ok"); std::fflush(stdout); _exit(0); }
'''
TDEMO = DEMO.replace('"$PWD/kio/core/worker.cpp"', '"$PWD/kio/core/worker.cpp" "$PWD/kio/net/net.cpp" "$PWD/kio/tls/stream.cpp" "$PWD/kio/tls/context.cpp"').replace('-luring', '-luring -lssl -lcrypto')
THEAD = RUN + r'''
#include "kio/tls/context.h"
#include "kio/tls/stream.h"
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/evp.h>
[[maybe_unused]] static int good() { std::puts("ok"); std::fflush(stdout); _exit(0); }
[[maybe_unused]] static tls::TlsContext client(tls::TlsConfig c = {}) { auto r = tls::TlsContext::make_client(c); if (!r) bad("no context"); return std::move(*r); }
// a key and a certificate made for this run, in a directory of its own
[[maybe_unused]] static tls::TlsConfig pair() {
    auto d = dir(); tls::TlsConfig c; c.cert_path = d + "/c"; c.key_path = d + "/k";
    EVP_PKEY* k = EVP_EC_gen("P-256"); X509* x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 3600);
    X509_set_pubkey(x, k); X509_NAME* n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)"demo", -1, -1, 0); X509_set_issuer_name(x, n); X509_sign(x, k, EVP_sha256());
    FILE* f = fopen(c.cert_path.c_str(), "w"); PEM_write_X509(f, x); fclose(f); f = fopen(c.key_path.c_str(), "w"); PEM_write_PrivateKey(f, k, 0, 0, 0, 0, 0); fclose(f);
    return c; }
[[maybe_unused]] static void drop(const tls::TlsConfig& c) { unlink(c.cert_path.c_str()); unlink(c.key_path.c_str()); rmdir(c.cert_path.parent_path().c_str()); }
'''
BUGS = [
dict(id='socket-errno-log', property='C26', edits=[(N, '''            const int err = errno;
            ALOG_ERROR("Failed to create socket: {}", strerror(err));
            return std::unexpected(Error::from_errno(err));''', '''            ALOG_ERROR("Failed to create socket: {}", strerror(errno));
            return std::unexpected(Error::from_errno(errno));''')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
extern "C" int socket(int, int, int) { errno = EMFILE; return -1; }
// waking the thread of the logger succeeds, and changes errno as a call that succeeds may
extern "C" ssize_t write(int fd, const void* b, size_t n) { ssize_t r = syscall(SYS_write, fd, b, n); errno = ENOTTY; return r; }
int main() { auto r = create_tcp_fd(AF_INET); if (r.has_value() || r.error().value != EMFILE) bad("the reason of the failure is lost"); good(); }
'''}, demo=NDEMO, needs='no descriptor left for the socket, and a logger whose call changes errno', breaks='another error is reported than the one socket() gave'),
dict(id='listen-in-use', property='C26', edits=[(N, 'if (::listen(fd, backlog) < 0)', 'if (::listen(fd, backlog) < 0 && errno != EADDRINUSE)')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
extern "C" int listen(int, int) { errno = EADDRINUSE; return -1; }
int main() { auto a = resolve_address("127.0.0.1", 0); int fd = socket(AF_INET, SOCK_STREAM, 0); auto r = listen_on_sock(fd, *a, 5); if (r.has_value() || r.error().value != EADDRINUSE) bad("success although the socket does not listen"); good(); }
'''}, demo=NDEMO, needs='another socket of the address that starts to listen between bind() and listen()', breaks='success is reported for a socket that does not listen'),
dict(id='socket-assign-zero', property='C27', edits=[('kio/net/socket.h', 'if (fd_ >= 0) ::close(fd_);', 'if (fd_ > 0) ::close(fd_);')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
int main() { close(0); int fd = open("/dev/null", O_RDONLY); if (fd != 0) bad("no descriptor 0"); { Socket a(fd); a = Socket(open("/dev/null", O_RDONLY)); if (fcntl(0, F_GETFD) >= 0) bad("the descriptor owned before stays open"); } good(); }
'''}, demo=NDEMO, needs='a socket with descriptor 0 (standard input was closed) that is assigned to', breaks='the descriptor leaks'),
dict(id='fdguard-move-keep', property='C27', edits=[('kio/net/net.h', 'FDGuard(FDGuard&& other) noexcept : fd(other.fd) { other.fd = -1; }', 'FDGuard(FDGuard&& other) noexcept : fd(other.fd) {}')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
int main() { int other; { FDGuard a(open("/dev/null", O_RDONLY)); { FDGuard b(std::move(a)); } other = open("/dev/null", O_RDONLY); } if (fcntl(other, F_GETFD) < 0) bad("the descriptor of somebody else was closed"); good(); }
'''}, demo=NDEMO, needs='a descriptor that is opened between the ends of the new and the old owner', breaks='the descriptor is closed twice, and with it a file of somebody else'),
dict(id='server-socket-leak', property='C27', edits=[(N, '''        if (auto res = set_fd_server_options(*server_fd); !res)
        {
            ::close(*server_fd);
''', '''        if (auto res = set_fd_server_options(*server_fd); !res)
        {
''')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
extern "C" int setsockopt(int, int, int, const void*, socklen_t) { errno = ENOPROTOOPT; return -1; }
int main() { (void)create_tcp_server_socket("127.0.0.1", 0, 5); int a = open("/dev/null", O_RDONLY); (void)create_tcp_server_socket("127.0.0.1", 0, 5); int b = open("/dev/null", O_RDONLY); if (b != a + 1) bad("the socket of a failure stays open"); good(); }
'''}, demo=NDEMO, needs='a kernel that refuses an option of the socket', breaks='the socket leaks'),
dict(id='told-short-buffer', property='C28', edits=[('kio/net/net.h', 'char ipbuf[INET6_ADDRSTRLEN];', 'char ipbuf[INET_ADDRSTRLEN + 8];')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
int main() { auto r = resolve_address("2001:db8:1234:5678:9abc:def0:1234:5678", 80); if (!r || !r->populate_from_storage() || r->ip != "2001:db8:1234:5678:9abc:def0:1234:5678") bad("the address is not told"); good(); }
'''}, demo=NDEMO, needs='an IPv6 address that has a long text', breaks='the ip of the address is not told'),
dict(id='dns-free-first', property='C28', edits=[(N, '''        result.family = res->ai_family;
        result.addrlen = res->ai_addrlen;
        std::memcpy(&result.addr, res->ai_addr, res->ai_addrlen);

        freeaddrinfo(res);
''', '''        result.family = res->ai_family;
        result.addrlen = res->ai_addrlen;
        const sockaddr* first = res->ai_addr;
        freeaddrinfo(res);
        std::memcpy(&result.addr, first, result.addrlen);
''')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
static sockaddr_in in; static addrinfo ai;
extern "C" int getaddrinfo(const char*, const char* s, const addrinfo*, addrinfo** r) { in.sin_family = AF_INET; in.sin_port = htons(atoi(s ? s : "0")); in.sin_addr.s_addr = htonl(0x0a000001); ai.ai_family = AF_INET; ai.ai_addrlen = sizeof in; ai.ai_addr = (sockaddr*)&in; *r = &ai; return 0; }
// the memory of the list is used for something else
extern "C" void freeaddrinfo(addrinfo*) { memset(&in, 0xDD, sizeof in); memset(&ai, 0xDD, sizeof ai); }
int main() { auto r = resolve_address("host.example", 8080); if (!r || reinterpret_cast<sockaddr_in*>(&r->addr)->sin_addr.s_addr != htonl(0x0a000001)) bad("the address was read after its list was freed"); good(); }
'''}, demo=NDEMO, needs='a host that is a name, and an allocator that reuses the memory of the list', breaks='the address is read from freed memory'),
dict(id='dns-family-guess', property='C28', edits=[(N, '''        result.family = res->ai_family;
        result.addrlen = res->ai_addrlen;
''', '''        result.family = res->ai_family;
        result.addrlen = res->ai_family == AF_INET6 && res->ai_next != nullptr ? sizeof(sockaddr_in) : res->ai_addrlen;
''')],
     files={'shim.h': '', 'demo.cpp': NHEAD + r'''
static sockaddr_in6 in; static addrinfo ai, more;
extern "C" int getaddrinfo(const char*, const char* s, const addrinfo*, addrinfo** r) { in.sin6_family = AF_INET6; in.sin6_port = htons(atoi(s ? s : "0")); in.sin6_addr.s6_addr[15] = 7; ai.ai_family = AF_INET6; ai.ai_addrlen = sizeof in; ai.ai_addr = (sockaddr*)&in; ai.ai_next = &more; *r = &ai; return 0; }
extern "C" void freeaddrinfo(addrinfo*) {}
int main() { auto r = resolve_address("host.example", 8080); if (!r || r->addrlen != sizeof(sockaddr_in6)) bad("the length is not that of the family"); good(); }
'''}, demo=NDEMO, needs='a name with several addresses, an IPv6 address first', breaks='the length of the address is that of another family'),
dict(id='tickets-min-version', property='C29', edits=[(C_, 'if (role == TlsRole::Server)\n        {\n            SSL_CTX_set_num_tickets(ctx, 0);', 'if (role == TlsRole::Server && config.min_version == TlsVersion::TLS_1_3)\n        {\n            SSL_CTX_set_num_tickets(ctx, 0);')],
     files={'shim.h': SHIM, 'demo.cpp': THEAD + r'''
int main() { auto c = pair(); auto r = tls::TlsContext::make_server(c); drop(c); if (!r) bad("no context"); if (SSL_CTX_get_num_tickets(r->get()) != 0) bad("session tickets are sent"); good(); }
'''}, demo=TDEMO, needs='a server that also accepts TLS 1.2, and a client that speaks 1.3', breaks='the server sends session tickets that kernel TLS cannot read'),
dict(id='verify-needs-ca', property='C29', edits=[(C_, '        SSL_CTX_set_verify(ctx, config.verify_mode, nullptr);', '''        if (role == TlsRole::Client || !config.ca_cert_path.empty())
        {
            SSL_CTX_set_verify(ctx, config.verify_mode, nullptr);
        }''')],
     files={'shim.h': SHIM, 'demo.cpp': THEAD + r'''
int main() { auto c = pair(); auto d = dir(); c.ca_dir_path = d; c.verify_mode = SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT; auto r = tls::TlsContext::make_server(c); drop(c); rmdir(d.c_str()); if (!r) bad("no context"); if (SSL_CTX_get_verify_mode(r->get()) != c.verify_mode) bad("clients are not verified"); good(); }
'''}, demo=TDEMO, needs='a server that verifies its clients against a directory of authorities', breaks='clients are let in without a certificate'),
dict(id='ktls-one-direction', property='C29', edits=[(S_, 'if (tx && rx)', 'if (tx || rx)')],
     files={'shim.h': SHIM, 'demo.cpp': THEAD + r'''
extern "C" int SSL_connect(SSL*) { return 1; }
extern "C" long BIO_ctrl(BIO*, int cmd, long, void*) { return cmd == 76; }
int main() {
    auto& w = live(); static auto ctx = client(); int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
    static tls::TlsStream s(w, net::Socket(sv[0]), ctx, tls::TlsRole::Client); static std::atomic<int> done; static Result<void> r;
    auto f = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r = co_await s.async_handshake(); done = 1; };
    f().detach(); until(done, "no end"); if (r.has_value() || s.is_ktls_active()) bad("success although what is sent is not encrypted"); good(); }
'''}, demo=TDEMO, needs='a kernel or cipher that takes over one direction only', breaks='success is reported although one direction is not handled by the kernel: it goes out in the clear'),
dict(id='tls-short-pending', property='C29', edits=[(S_, '            if (n > 0)\n', '            if (n == static_cast<int>(buf.size()))\n')],
     files={'shim.h': SHIM, 'demo.cpp': THEAD + r'''
extern "C" int SSL_pending(const SSL*) { static int n = 0; return n++ == 0 ? 5 : 0; }
extern "C" int SSL_read(SSL*, void* b, int n) { int k = n < 5 ? n : 5; std::memcpy(b, "first", k); return k; }
int main() {
    auto& w = live(); static auto ctx = client(); int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); (void)!::send(sv[1], "second", 6, 0);
    static tls::TlsStream s(w, net::Socket(sv[0]), ctx, tls::TlsRole::Client); static std::atomic<int> done; static Result<int> r; static char buf[16];
    auto f = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); r = co_await s.async_read(buf); done = 1; };
    f().detach(); until(done, "no end"); if (!r || *r != 5 || std::memcmp(buf, "first", 5)) bad("bytes were dropped"); good(); }
'''}, demo=TDEMO, needs='bytes that OpenSSL read together with the end of the handshake, fewer than the buffer holds', breaks='these bytes are dropped'),
dict(id='handshake-want-write', property='C29', edits=[(S_, '''                case SSL_ERROR_WANT_READ:
                    KIO_TRY(co_await worker_.async_poll(socket_.get(), POLLIN));
                    break;

                case SSL_ERROR_WANT_WRITE:
                    KIO_TRY(co_await worker_.async_poll(socket_.get(), POLLOUT));
                    break;

                case SSL_ERROR_ZERO_RETURN:
                    ALOG_ERROR("TLS handshake: peer closed''', '''                case SSL_ERROR_WANT_READ:
                case SSL_ERROR_WANT_WRITE:
                    KIO_TRY(co_await worker_.async_poll(socket_.get(), POLLIN));
                    break;

                case SSL_ERROR_ZERO_RETURN:
                    ALOG_ERROR("TLS handshake: peer closed''')],
     files={'shim.h': SHIM, 'demo.cpp': THEAD + r'''
static int calls;
extern "C" int SSL_connect(SSL*) { return calls++ == 0 ? -1 : 1; }
extern "C" int SSL_get_error(const SSL*, int) { return SSL_ERROR_WANT_WRITE; }
int main() {
    auto& w = live(); static auto ctx = client(); int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
    static tls::TlsStream s(w, net::Socket(sv[0]), ctx, tls::TlsRole::Client); static std::atomic<int> done;
    auto f = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); (void)co_await s.async_handshake(); done = 1; };
    f().detach(); until(done, "the handshake waits for the peer although it has to send first"); good(); }
'''}, demo=TDEMO, needs='a socket whose send buffer is full during the handshake', breaks='the handshake waits for the wrong event and hangs'),
]
