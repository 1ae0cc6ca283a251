SHIM = '''#pragma once
#include <sys/syscall.h>
#include <liburing.h>
static inline void kio_shim_ftruncate(struct io_uring_sqe *sqe, int fd, long len) { io_uring_prep_rw(55, sqe, fd, 0, 0, len); }
#define io_uring_prep_ftruncate kio_shim_ftruncate
'''
DEMO = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-20 -std=gnu++23 -D_GNU_SOURCE -DNDEBUG -O1 -g -w -fno-access-control -include "$here/shim.h" -I"$PWD" "$here/demo.cpp" "$PWD/kio/core/worker.cpp" -luring -pthread -o "$out/demo"
timeout 100 "$out/demo"
'''
HEAD = r'''#include "kio/core/worker.h"
#include "kio/sync/baton.h"
#include "kio/sync/event.h"
#include "kio/sync/when_any.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <malloc.h>
using namespace kio;
using namespace std::chrono_literals;
// freed memory is overwritten, so that a use after free shows
void operator delete(void* p) noexcept { if (p) { std::memset(p, 0xDD, malloc_usable_size(p)); std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
static int bad(const char* w) { std::printf("%s\n", w); std::fflush(stdout); _exit(1); }
// a worker whose loop is run by hand
static io::Worker& worker() { static auto* w = [] { auto* x = new io::Worker(0, io::WorkerConfig{}); x->thread_id_ = std::this_thread::get_id(); return x; }(); return *w; }
static int pump() { int n = 0; std::coroutine_handle<> h; while (worker().task_queue_.try_pop(h)) { h.resume(); ++n; } return n; }
'''
BUGS = [
dict(id='event-next-after-post', property='C19', edits=[('kio/sync/event.h', '''                // read next with acquire to observe what the waiter published
                auto* next = curr->next.load(std::memory_order_acquire);

''', ''), ('kio/sync/event.h', '''                curr = next;''', '''                curr = curr->next.load(std::memory_order_acquire);''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
static sync::AsyncEvent* ev; static int woken; static bool fast;
// the worker runs what is posted before notify() goes on
extern "C" ssize_t write(int, const void*, size_t n) { if (fast) { fast = false; pump(); fast = true; } return n; }
DetachedTask waiter() { co_await ev->wait(); ++woken; }
int main() { static sync::AsyncEvent e(worker()); ev = &e; for (int i = 0; i < 3; ++i) waiter().detach(); fast = true; e.notify(); fast = false; pump(); if (woken != 3) bad("not every waiter was woken"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a worker that runs a posted waiter to its end before notify() goes on to the next', breaks='notify() reads a freed coroutine frame'),
dict(id='event-link-once', property='C19', edits=[('kio/sync/event.h', '''                    // link to current head (relaxed is fine; visibility is established by CAS below)
                    next.store(static_cast<Awaiter*>(old_head), std::memory_order_relaxed);
''', '''                    // link to current head (relaxed is fine; visibility is established by CAS below)
                    if (old_head != nullptr && next.load(std::memory_order_relaxed) == nullptr)
                    {
                        next.store(static_cast<Awaiter*>(old_head), std::memory_order_relaxed);
                    }
''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
#include <barrier>
static std::atomic<int> woken;
DetachedTask waiter(sync::AsyncEvent& e) { co_await e.wait(); ++woken; }
int main() {
    constexpr int T = 4, N = 60000;
    static sync::AsyncEvent* e; static std::barrier<> b(T + 1);
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([] { for (int i = 0; i < N; ++i) { b.arrive_and_wait(); for (int k = 0; k < 4; ++k) waiter(*e).detach(); b.arrive_and_wait(); } });
    for (int i = 0; i < N; ++i) { e = new sync::AsyncEvent(worker()); woken = 0; b.arrive_and_wait(); b.arrive_and_wait(); e->notify(); pump(); if (woken != 4 * T) bad("a waiter was lost"); }
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='two coroutines that register at the same time: the compare-exchange of one fails after it was linked', breaks='the waiters that registered in between are lost'),
dict(id='event-resume-list-head', property='C19', edits=[('kio/sync/event.h', '''                if (hptr)
                {
                    std::coroutine_handle<> h''', '''                if (hptr && !is_stale(curr))
                {
                    std::coroutine_handle<> h'''), ('kio/sync/event.h', '''        // A dummy variable to take the address of''', '''        // A waiter that got here after another round of notify() is not ours to wake
        [[nodiscard]] bool is_stale(const Awaiter* w) const noexcept { return state_.load(std::memory_order_acquire) != &SET_SENTINEL && w->next.load(std::memory_order_acquire) == nullptr; }

        // A dummy variable to take the address of''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
static sync::AsyncEvent* ev; static int woken; static bool fast;
extern "C" ssize_t write(int, const void*, size_t n) { if (fast) { fast = false; pump(); ev->reset(); fast = true; } return n; }
DetachedTask waiter() { co_await ev->wait(); ++woken; }
int main() { static sync::AsyncEvent e(worker()); ev = &e; for (int i = 0; i < 3; ++i) waiter().detach(); fast = true; e.notify(); fast = false; pump(); if (woken != 3) bad("a waiter was left behind"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='reset() by the first waiter that wakes, while notify() still works through the list', breaks='the oldest waiter is never resumed'),
dict(id='baton-stale-waiter', property='C18', edits=[('kio/sync/baton.h', 'prev == WAITING)', 'prev != SET)')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
int main() {
    static io::Worker& w = *new io::Worker(0, io::WorkerConfig{}); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
    static sync::AsyncBaton b(w); static std::atomic<int> done{0}, resumed{0};
    auto f = []() -> DetachedTask { (void)co_await b.wait_for(5ms); ++done; };
    f().detach(); while (!done) usleep(500);
    b.notify(); usleep(20000);
    std::coroutine_handle<> h;
    static std::atomic<int> alive{0};
    auto g = []() -> DetachedTask { co_await io::SwitchToWorker(w); ++alive; };
    g().detach(); for (int i = 0; i < 200 && !alive; ++i) usleep(1000);
    if (!alive) bad("the worker is gone"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a notify() after a wait_for() that timed out', breaks='the handle of the finished waiter is posted: a freed frame is resumed'),
dict(id='baton-timeout-store', property='C18', edits=[('kio/sync/baton.h', '''                        // Try to unregister from baton
                        if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
''', '''                        // Unregister from baton: the timer won
                        if (baton.state_.exchange(NOT_SET, std::memory_order_acq_rel) != NOT_SET)
''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
int main() {
    static io::Worker& w = *new io::Worker(0, io::WorkerConfig{}); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
    static sync::AsyncBaton b(w); static std::atomic<int> done{0}, started{0}, blocked{0}, go{0}; static bool got;
    auto f = []() -> DetachedTask { co_await io::SwitchToWorker(w); started = 1; got = co_await b.wait_for(20ms); ++done; co_await w.async_sleep(2s); };
    auto g = []() -> DetachedTask { co_await io::SwitchToWorker(w); co_await w.async_sleep(1ms); blocked = 1; while (!go) usleep(100); };
    f().detach(); while (!started) usleep(100);
    usleep(3000); g().detach(); while (!blocked) usleep(100);
    usleep(60000);            // the timer expires while the worker is busy
    b.notify(); go = 1;
    for (int i = 0; i < 300 && !done; ++i) usleep(1000);
    if (!done) bad("the wait never ended"); if (!got) bad("wait_for() reports a timeout although the baton was signalled, and the signal is lost"); if (!b.ready()) bad("the signal is lost");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a notify() between the expiry of the timer and the resumption of the waiter', breaks='the signal is lost'),
dict(id='baton-sub-millisecond', property='C18', edits=[('kio/sync/baton.h', '''                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);

                    ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
                    ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
''', '''                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);

                    const auto whole = std::chrono::duration_cast<std::chrono::seconds>(duration);
                    ts.tv_sec = whole.count();
                    ts.tv_nsec = std::chrono::nanoseconds(std::chrono::duration_cast<std::chrono::milliseconds>(duration - whole)).count();
''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
int main() {
    static io::Worker& w = *new io::Worker(0, io::WorkerConfig{}); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
    static sync::AsyncBaton b(w); static std::atomic<int> done{0}; static int early;
    auto f = []() -> DetachedTask { co_await io::SwitchToWorker(w); for (int i = 0; i < 20; ++i) { auto t0 = std::chrono::steady_clock::now(); (void)co_await b.wait_for(3900us); if (std::chrono::steady_clock::now() - t0 < 3850us) ++early; } ++done; };
    f().detach(); for (int i = 0; i < 3000 && !done; ++i) usleep(1000);
    if (!done) bad("the wait never ended"); if (early) bad("wait_for() timed out early"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a timeout that is no whole number of milliseconds', breaks='wait_for() times out early'),
dict(id='when-any-overwrite', property='C20', edits=[('kio/sync/when_any.h', '''                size_t expected = N;
                return winner.compare_exchange_strong(expected, index, std::memory_order_acq_rel, std::memory_order_acquire);
''', '''                return winner.exchange(index, std::memory_order_acq_rel) == N;
''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
static int order[4], n; Task<void> quick(int i) { order[n++] = i; co_return; }
static size_t answer = 99;
DetachedTask race() { answer = co_await sync::when_any(worker(), quick(0), quick(1), quick(2)); }
int main() { race().detach(); pump(); if (answer == 99) bad("no answer"); if (answer != (size_t)order[0]) bad("not the first task"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a second task that finishes before the waiter is resumed', breaks='the later task overwrites the winner'),
dict(id='when-any-borrowed-task', property='C20', edits=[('kio/sync/when_any.h', 'DetachedTask run_and_notify(std::shared_ptr<WhenAnyState<N>> state, Task task)', 'DetachedTask run_and_notify(std::shared_ptr<WhenAnyState<N>> state, Task&& task)')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
static sync::AsyncEvent* ev; static int finished; static size_t answer = 99;
Task<void> quick() { co_return; } Task<void> slow() { co_await ev->wait(); ++finished; co_return; }
DetachedTask race() { answer = co_await sync::when_any(worker(), slow(), quick()); }
int main() { static sync::AsyncEvent e(worker()); ev = &e; race().detach(); pump(); if (answer != 1) bad("not the first task"); e.notify(); pump(); if (finished != 1) bad("the slower task did not go on in the background"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a task that is still running when when_any() has returned', breaks='the task is destroyed while it is suspended'),
dict(id='when-any-notify-loser', property='C20', edits=[('kio/sync/when_any.h', '''            // Run the task
            co_await task;

            // Try to win the race
            if (state->try_win(Index))
            {
                // We won! Notify the waiter
                state->done.notify();
            }
''', '''            // Claim the race before the waiter can be gone
            const bool first = state->winner.load(std::memory_order_acquire) == N;

            // Run the task
            co_await task;

            // Try to win the race
            if (first && state->try_win(Index) && !state->done.ready())
            {
                // We won! Notify the waiter
                state->done.notify();
            }
            else if (!first)
            {
                state->winner.store(Index, std::memory_order_release);
            }
''')],
     files={'shim.h': SHIM, 'demo.cpp': HEAD + r'''
static int order[4], n; Task<void> quick(int i) { order[n++] = i; co_return; }
static size_t answer = 99;
DetachedTask race() { answer = co_await sync::when_any(worker(), quick(0), quick(1)); }
int main() { race().detach(); pump(); if (answer == 99) bad("no answer"); if (answer != (size_t)order[0]) bad("not the first task"); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a task that is started after another one has won', breaks='the answer is not the first task that finished'),
]
