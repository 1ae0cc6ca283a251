BUILD = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
'''
def simple(extra='', flags=''):
    return BUILD + 'clang++-20 -std=gnu++23 -D_GNU_SOURCE -O1 -g -w %s -I"$PWD" "$here/demo.cpp" %s -o "$out/demo"\ntimeout 60 "$out/demo"\n' % (flags, extra)
RESP = simple('kio/resp/parser.cpp')
RESPA = simple('kio/resp/parser.cpp', '-fsanitize=address')
LOG = simple('-pthread', '-include sys/syscall.h')
HEAD = r'''#include <kio/core/async_logger.h>
#include <sstream>
#include <cstdio>
#include <csignal>
#include <filesystem>
#include <atomic>
using namespace kio;
'''
BUGS = [
dict(id='logger-final-drain', property='C13', edits=[('kio/core/async_logger.h', '''                flush();
            }
            flush();
        }''', '''                flush();
            }
        }''')], files={'demo.cpp': HEAD + r'''
int main() {
  int lost = 0;
  for (int i = 0; i < 3000; ++i) {
    std::ostringstream os;
    { Logger l(16, LogLevel::Info, os); l.info(std::source_location::current(), "hello {}", i); }
    if (os.str().find("hello") == std::string::npos) ++lost;
  }
  if (lost) { std::printf("%d of 3000 messages lost at shutdown\n", lost); return 1; }
  return 0; }
'''}, demo=LOG, needs='a message logged while the consumer thread is between its last drain and the stop check', breaks='messages queued at shutdown are lost'),
dict(id='logger-eintr', property='C13', edits=[('kio/core/async_logger.h', 'if (errno == EINTR) continue;', 'if (errno == EAGAIN) continue;')], files={'demo.cpp': HEAD + r'''
#include <unistd.h>
int main() {
  struct sigaction sa {}; sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, nullptr);
  std::ostringstream os;
  int missing = 0;
  {
    Logger l(16, LogLevel::Info, os);
    usleep(200000);
    for (auto& e : std::filesystem::directory_iterator("/proc/self/task")) {
      int tid = std::stoi(e.path().filename().string());
      if (tid != getpid()) syscall(SYS_tgkill, getpid(), tid, SIGUSR1);
    }
    usleep(200000);
    l.info(std::source_location::current(), "after the signal");
    usleep(500000);
    missing = os.str().find("after the signal") == std::string::npos;
  }
  if (missing) { std::printf("nothing is written after a signal\n"); return 1; }
  return 0; }
'''}, demo=LOG, needs='a signal delivered to the consumer thread while it waits', breaks='the consumer thread ends at the first interrupted wait, later messages stay queued'),
dict(id='logger-wake-order', property='C13', edits=[('kio/core/async_logger.h', '''                if (queue_.try_push(std::move(entry))) {
                    if (wakeup_fd_ >= 0) {
                        constexpr uint64_t val = 1;
                        if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
                            std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
                                    std::endl;
                        }
                    }
                } else {''', '''                if (wakeup_fd_ >= 0) {
                    constexpr uint64_t val = 1;
                    if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
                        std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
                                std::endl;
                    }
                }
                if (!queue_.try_push(std::move(entry))) {''')], files={'demo.cpp': HEAD + r'''
#include <unistd.h>
#include <mutex>
struct Buf : std::streambuf { std::atomic<long> n{0}; std::streamsize xsputn(const char*, std::streamsize k) override { n.fetch_add(1); return k; } int overflow(int c) override { n.fetch_add(c == '\n'); return c; } };
int main() {
  Buf b; std::ostream os(&b);
  Logger l(16, LogLevel::Info, os);
  usleep(100000);
  for (int i = 0; i < 60000; ++i) {
    const long before = b.n.load();
    l.info(std::source_location::current(), "{}", i);
    int k = 0;
    while (b.n.load() == before && k < 400000) { ++k; if (k > 1000) usleep(10); if (k > 21000) break; }
    if (b.n.load() == before) { std::printf("message %d is not written\n", i); return 1; }
  }
  return 0; }
'''}, demo=LOG, needs='the consumer thread reads the wakeup and finds the queue empty before the producer has pushed', breaks='a message stays in the queue until the next one is logged'),
dict(id='logger-boundary', property='C14', edits=[('kio/core/async_logger.h', 'if (result.size >= 0 && static_cast<size_t>(result.size) <= LogMessage::MSG_CAPACITY) {', 'if (result.size >= 0 && static_cast<size_t>(result.size) <= LogMessage::MSG_CAPACITY + 1) {')], files={'demo.cpp': HEAD + r'''
int main() {
  for (size_t n : {1, 255, 256, 257, 300, 511, 512, 513, 1000}) {
    std::ostringstream os;
    { Logger l(16, LogLevel::Info, os); l.info(std::source_location::current(), "{}", std::string(n, 'x') + "$"); }
    if (os.str().find(std::string(n, 'x') + "$") == std::string::npos) { std::printf("text of length %zu is cut off\n", n + 1); return 1; }
  }
  return 0; }
'''}, demo=LOG, needs='a text of exactly 257 bytes', breaks='the last character is cut off'),
dict(id='logger-stale-heap', property='C14', edits=[('kio/core/async_logger.h', '''                buffer = other.buffer;
                msg = std::span<const char>(buffer.data(), other.msg.size());
                heap_msg.reset();''', '''                buffer = other.buffer;
                msg = std::span<const char>(buffer.data(), other.msg.size());''')], files={'demo.cpp': HEAD + r'''
int main() {
  LogMessage a, s, l;
  l.set_large_message(std::string(400, 'L'));
  const std::string_view t = "short text";
  s.set_small_message({t.data(), t.size()});
  a = std::move(l);
  if (a.view() != std::string(400, 'L')) return 2;
  a = std::move(s);
  if (a.view() != t) return 3;
  LogMessage b(std::move(a));
  if (b.view() != t) { std::printf("the old text came back\n"); return 1; }
  return 0; }
'''}, demo=LOG, needs='a long text replaced by a short one in the same object, which is then moved', breaks='the old long text replaces the short one'),
dict(id='logger-shared-tid', property='C14', edits=[('kio/core/async_logger.h', 'thread_local const int64_t tid', 'static const int64_t tid')], files={'demo.cpp': HEAD + r'''
int main() {
  std::ostringstream os; std::string want[2];
  { Logger l(16, LogLevel::Info, os);
    for (int i = 0; i < 2; ++i) { std::thread t([&] { want[i] = std::format("[tid:{}]", syscall(SYS_gettid)); l.info(std::source_location::current(), "x"); }); t.join(); } }
  for (auto& w : want) if (os.str().find(w) == std::string::npos) { std::printf("no line of thread %s\n", w.c_str()); return 1; }
  return 0; }
'''}, demo=LOG, needs='two threads that log', breaks='all messages carry the thread id of the first thread'),
]
