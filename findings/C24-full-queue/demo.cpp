#include "kio/core/worker.h"
#include "kio/sync/baton.h"
#include "kio/sync/event.h"
#include "kio/sync/when_any.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <malloc.h>
using namespace kio;
using namespace std::chrono_literals;
// freed memory is overwritten, so that a use after free shows
void operator delete(void* p) noexcept { if (p) { std::memset(p, 0xDD, malloc_usable_size(p)); std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
static int bad(const char* w) { std::printf("%s\n", w); std::fflush(stdout); _exit(1); }
// a worker whose loop is run by hand
static io::Worker& worker() { static auto* w = [] { auto* x = new io::Worker(0, io::WorkerConfig{}); x->thread_id_ = std::this_thread::get_id(); return x; }(); return *w; }
static int pump() { int n = 0; std::coroutine_handle<> h; while (worker().task_queue_.try_pop(h)) { h.resume(); ++n; } return n; }

#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
static io::Worker& live(io::WorkerConfig c = {}) { static auto* w = new io::Worker(0, c); static std::thread t([&] { w->loop_forever(); }); static bool once = (w->wait_ready(), t.detach(), true); (void)once; return *w; }
static void until(std::atomic<int>& f, const char* what) { for (int i = 0; i < 5000 && !f; ++i) usleep(1000); if (!f) bad(what); }
static std::string dir() { char t[] = "/tmp/demoXXXXXX"; return mkdtemp(t); }

// more coroutines posted than the task queue of the worker holds, while the worker is busy: the rest is never resumed
int main() {
    io::WorkerConfig c; c.task_queue_capacity = 8;
    auto& w = *new io::Worker(0, c); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
    static std::atomic<int> blocked, go, ran;
    auto b = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); co_await w.async_sleep(1ms); blocked = 1; while (!go) usleep(1000); };
    b().detach(); until(blocked, "no start");
    auto a = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); ++ran; };
    for (int i = 0; i < 20; ++i) a().detach();
    go = 1; for (int i = 0; i < 2000 && ran < 20; ++i) usleep(1000);
    std::printf("%d of 20 posted coroutines were resumed\n", ran.load()); std::fflush(stdout); _exit(ran == 20 ? 0 : 1); }
