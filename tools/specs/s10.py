exec(open('/verif/tools/specs/s9.py').read().split('\nBUGS = [')[0])
P = 'kio/core/worker_pool.cpp'
PDEMO = DEMO.replace('"$PWD/kio/core/worker.cpp"', '"$PWD/kio/core/worker.cpp" "$PWD/kio/core/worker_pool.cpp"')
PHEAD = RUN + r'''
#include "kio/core/worker_pool.h"
'''
SLOWWRITE = r'''
// the thread that wakes the worker is preempted right after its write
static int slow_fd = -1;
extern "C" ssize_t write(int fd, const void* b, size_t n) { ssize_t r = syscall(SYS_write, fd, b, n); if (fd == slow_fd) usleep(100000); return r; }
'''
BUSY = SHIM + '''static int kio_busy = 0;
static inline int kio_busy_submit(struct io_uring *r, unsigned n) { if (++kio_busy == 3) return -16; return io_uring_submit_and_wait(r, n); }
#define io_uring_submit_and_wait kio_busy_submit
'''
BUGS = [
dict(id='completion-drop-at-stop', property='C23', edits=[(W, '''            set_op_result(op_id, cqe->res);
            resume_coro_by_id(op_id);
''', '''            set_op_result(op_id, cqe->res);
            // nobody looks at failed operations once the worker stops
            if (cqe->res >= 0 || !stop_token_.stop_requested()) resume_coro_by_id(op_id);
''')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
int main() {
    auto& w = *new io::Worker(0, io::WorkerConfig{}); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
    static std::atomic<int> slept, blocked, go;
    auto a = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); (void)co_await w.async_sleep(30ms); slept = 1; };
    auto b = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); co_await w.async_sleep(1ms); blocked = 1; while (!go) usleep(1000); usleep(50000); };
    a().detach(); b().detach(); until(blocked, "no start");
    (void)w.request_stop(); go = 1; t.join();
    if (!slept) bad("the sleeping coroutine was not resumed although its timer had expired");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='a timer that expires between the request to stop and the last pass over the completions', breaks='the coroutine is never resumed'),
dict(id='op-pool-growth-extra', property='C23', edits=[(W, 'for (size_t i = cur_size; i < new_size; ++i)', 'for (size_t i = cur_size; i <= new_size; ++i)')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
#include <set>
int main() {
    io::WorkerConfig c; c.default_op_slots = 4; auto& w = *new io::Worker(0, c); std::set<uint64_t> seen;
    for (int i = 0; i < 40; ++i) { auto id = w.get_op_id(); if (!seen.insert(id).second) bad("a number is handed out twice"); if (id >= w.op_data_pool_.size()) bad("a number outside the pool"); }
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='more operations in flight than the pool was made for', breaks='a number outside the pool is handed out, and twice after the next growth'),
dict(id='wakeup-drain-budget', property='C23', edits=[(W, '''                while (task_queue_.try_pop(h))
                {''', '''                // leave some time for the completions
                for (int budget = 128; budget > 0 && task_queue_.try_pop(h); --budget)
                {''')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + r'''
int main() {
    auto& w = live(); static std::atomic<int> blocked, go, ran;
    auto b = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); co_await w.async_sleep(1ms); blocked = 1; while (!go) usleep(1000); };
    b().detach(); until(blocked, "no start");
    auto a = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); ++ran; };
    for (int i = 0; i < 300; ++i) a().detach();
    go = 1; for (int i = 0; i < 1000 && ran < 300; ++i) usleep(1000);
    if (ran != 300) bad("posted coroutines are not resumed");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='more than 128 coroutines posted before one wake-up is handled', breaks='the rest stays in the queue without a wake-up'),
dict(id='post-wake-first', property='C24', edits=[(W, '''        if (!task_queue_.try_push(h))
        {
            ALOG_ERROR("Worker {} task queue is full. Dropping task.", id_);
            // TODO: have a different strategy, like growing the queue or blocking the producer.
            return;
        }

        // Signal the worker to wake up
''', '''        // Signal the worker to wake up
'''), (W, '''            ALOG_WARN("Worker {}: Failed to write to eventfd: {}", id_, strerror(errno));
        }
    }
''', '''            ALOG_WARN("Worker {}: Failed to write to eventfd: {}", id_, strerror(errno));
        }

        if (!task_queue_.try_push(h))
        {
            ALOG_ERROR("Worker {} task queue is full. Dropping task.", id_);
            // TODO: have a different strategy, like growing the queue or blocking the producer.
        }
    }
''')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + SLOWWRITE + r'''
int main() {
    auto& w = live(); static std::atomic<int> ran; slow_fd = w.wakeup_fd_;
    auto a = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); ran = 1; };
    a().detach(); for (int i = 0; i < 1000 && !ran; ++i) usleep(1000);
    if (!ran) bad("the posted coroutine is never resumed");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='the poster preempted between its write and its push', breaks='the worker wakes up to an empty queue and sleeps again'),
dict(id='stop-wake-first', property='C24', edits=[(W, '''        const auto stop = stop_source_.request_stop();
        // submit a wakeup write to wake up the io uring ring
        wakeup_write();
        return stop;''', '''        // submit a wakeup write to wake up the io uring ring
        wakeup_write();
        return stop_source_.request_stop();''')],
     files={'shim.h': SHIM, 'demo.cpp': RUN + SLOWWRITE + r'''
int main() {
    auto& w = live(); static std::atomic<int> ended; slow_fd = w.wakeup_fd_;
    (void)w.request_stop(); std::thread([&] { w.wait_shutdown(); ended = 1; }).detach();
    for (int i = 0; i < 1000 && !ended; ++i) usleep(1000);
    if (!ended) bad("the worker does not stop");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='the caller preempted between the wake-up and the request', breaks='the worker sleeps again and never stops'),
dict(id='submit-busy-fatal', property='C24', edits=[(W, '-ret == EINTR || -ret == EAGAIN || -ret == EBUSY)', '-ret == EINTR || -ret == EAGAIN)')],
     files={'shim.h': BUSY, 'demo.cpp': RUN + r'''
int main() {
    auto& w = live(); static std::atomic<int> n;
    auto a = [&]() -> DetachedTask { co_await io::SwitchToWorker(w); for (int i = 0; i < 8; ++i) { co_await w.async_sleep(1ms); ++n; } };
    a().detach(); for (int i = 0; i < 1000 && n < 8; ++i) usleep(1000);
    if (n < 8) bad("the worker ended");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=DEMO, needs='the kernel answers EBUSY because its completion queue overflows', breaks='the worker ends and drops its coroutines'),
dict(id='pool-key-signed', property='C25', edits=[(P, 'return std::hash<std::string_view>{}(key) % workers_.size();', 'return static_cast<int>(std::hash<std::string_view>{}(key)) % static_cast<int>(workers_.size());')],
     files={'shim.h': SHIM, 'demo.cpp': PHEAD + r'''
int main() {
    auto& p = *new io::IOPool(3); 
    for (int i = 0; i < 1000; ++i) { auto id = p.get_worker_id_by_key("key" + std::to_string(i)); if (id >= 3 || !p.get_worker(id)) bad("a key has no worker"); }
    p.stop(); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=PDEMO, needs='a key whose hash has its 32nd bit set', breaks='the key is given to a worker that does not exist'),
dict(id='pool-stop-one-by-one', property='C25', edits=[(P, '''                    ALOG_WARN("worker {} failed to request shutdown", worker->get_id());
                }
            }
        }


        // Wait for all workers to confirm shutdown
        for (const auto &worker: workers_)
        {
            ALOG''', '''                    ALOG_WARN("worker {} failed to request shutdown", worker->get_id());
                }
            }

            // Wait for the worker to confirm shutdown
            ALOG''')],
     files={'shim.h': SHIM, 'demo.cpp': PHEAD + r'''
int main() {
    auto& p = *new io::IOPool(2); static std::atomic<int> busy, ended; auto* w0 = p.get_worker(0); auto* w1 = p.get_worker(1);
    // the first worker ends its work when the second one is asked to stop
    auto a = [&]() -> DetachedTask { co_await io::SwitchToWorker(*w0); busy = 1; while (!w1->get_stop_token().stop_requested()) usleep(1000); };
    a().detach(); until(busy, "no start");
    std::thread([&] { p.stop(); ended = 1; }).detach();
    for (int i = 0; i < 1000 && !ended; ++i) usleep(1000);
    if (!ended) bad("the pool does not stop");
    std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=PDEMO, needs='a worker that finishes its work only after another one is asked to stop', breaks='the pool never stops'),
dict(id='pool-get-past-end', property='C25', edits=[(P, 'if (id < workers_.size())', 'if (id <= workers_.size())')],
     files={'shim.h': SHIM, 'demo.cpp': PHEAD + r'''
int main() {
    auto& p = *new io::IOPool(3); if (p.get_worker(3)) bad("there is no worker 3"); if (!p.get_worker(2)) bad("no worker 2");
    p.stop(); std::puts("ok"); std::fflush(stdout); _exit(0); }
'''}, demo=PDEMO, needs='the number one past the last worker', breaks='memory after the table is taken for a worker'),
]
