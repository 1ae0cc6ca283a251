BUILD = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
'''
def simple(extra='', flags=''):
    return BUILD + 'clang++-20 -std=gnu++23 -D_GNU_SOURCE -O1 -g -w %s -I"$PWD" "$here/demo.cpp" %s -o "$out/demo"\ntimeout 60 "$out/demo"\n' % (flags, extra)
RESP = simple('kio/resp/parser.cpp')
RESPA = simple('kio/resp/parser.cpp', '-fsanitize=address')
CORO = simple('-pthread', '-include sys/syscall.h')
BUGS = [
dict(id='task-drop-unfinished', property='C09', edits=[('kio/core/coro.h', '''            if (h_)
            {
                h_.destroy();
            }
        }


        struct promise_type''', '''            if (h_ && (h_.done() || !h_.promise().continuation_))
            {
                h_.destroy();
            }
        }


        struct promise_type''')],
 files={'demo.cpp': r'''#include <kio/core/coro.h>
#include <cstdio>
#include <memory>
struct Never { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} };
kio::Task<int> inner(std::shared_ptr<int> p) { co_await Never{}; co_return *p; }
kio::Task<int> outer(std::shared_ptr<int> p) { auto v = co_await inner(p); co_return v; }
int main() {
  auto p = std::make_shared<int>(1);
  { auto t = inner(p); }
  if (p.use_count() != 1) return 2;
  { auto t = outer(p); t.h_.resume(); }            // cancelled while the inner task is suspended
  if (p.use_count() != 1) { std::printf("frame leaked: %ld references\n", p.use_count()); return 1; }
  return 0; }
'''}, demo=CORO, needs='a task chain that is dropped while an inner task is suspended', breaks='the frame of a suspended inner task is never destroyed'),
dict(id='task-assign-finished', property='C09', edits=[('kio/core/coro.h', '''    template<>
    struct Task<void>
    {
        struct promise_type;

        std::coroutine_handle<promise_type> h_;

        explicit Task(std::coroutine_handle<promise_type> h) : h_(h) {}

        Task(Task &&other) noexcept : h_(std::exchange(other.h_, {})) {}

        Task(const Task &) = delete;

        Task &operator=(const Task &) = delete;

        Task &operator=(Task &&other) noexcept
        {
            if (this != &other)
            {
                if (h_) h_.destroy();''', '''    template<>
    struct Task<void>
    {
        struct promise_type;

        std::coroutine_handle<promise_type> h_;

        explicit Task(std::coroutine_handle<promise_type> h) : h_(h) {}

        Task(Task &&other) noexcept : h_(std::exchange(other.h_, {})) {}

        Task(const Task &) = delete;

        Task &operator=(const Task &) = delete;

        Task &operator=(Task &&other) noexcept
        {
            if (this != &other)
            {
                if (h_ && !h_.done()) h_.destroy();''')],
 files={'demo.cpp': r'''#include <kio/core/coro.h>
#include <cstdio>
#include <memory>
kio::Task<void> work(std::shared_ptr<int> p) { ++*p; co_return; }
int main() {
  auto p = std::make_shared<int>(0);
  { auto t = work(p); for (int i = 0; i < 3; ++i) { t.h_.resume(); t = work(p); } }
  if (p.use_count() != 1) { std::printf("frames leaked: %ld\n", p.use_count() - 1); return 1; }
  return 0; }
'''}, demo=CORO, needs='assigning a new task to a variable whose task has finished', breaks='the frame of the finished task is never destroyed'),
dict(id='task-late-continuation', property='C10', edits=[('kio/core/coro.h', '''            // Store the awaiting coroutine as our continuation
            h_.promise().continuation_ = awaiting_coroutine;
            // Resume our handle to start the task's execution
            return h_;''', '''            // Run the task up to its first suspension; if it completes right away the awaiter goes on directly
            h_.resume();
            if (h_.done()) return awaiting_coroutine;
            h_.promise().continuation_ = awaiting_coroutine;
            return std::noop_coroutine();''')],
 files={'demo.cpp': r'''#include <kio/core/coro.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
std::atomic<bool> go{false}; std::thread th;
struct Hop { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { th = std::thread([h] { go = true; h.resume(); }); } void await_resume() {} };
struct Slow { ~Slow() { for (int i = 0; i < 5; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10)); } };
kio::Task<int> inner() { Slow s; co_await Hop{}; co_return 7; }
std::atomic<int> got{0};
kio::Task<int> outer() { int v = co_await inner(); got = v; co_return v; }
struct HopJoin { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { std::thread([h] { h.resume(); }).join(); } void await_resume() {} };
kio::Task<int> inner2() { co_await HopJoin{}; co_return 9; }
std::atomic<int> resumed{0};
kio::Task<int> outer2() { int v = co_await inner2(); ++resumed; co_return v; }
kio::DetachedTask drive(kio::Task<int> t) { co_await t; ++resumed; }
int main() {
  // the inner task finishes on the other thread before the call that started it returns
  auto o = outer2(); o.h_.resume();
  if (resumed != 1) { std::puts("awaiter lost"); return 1; }
  std::atomic<bool> start{false};
  auto p = outer(); p.h_.resume(); th.join();
  for (int i = 0; i < 100 && got != 7; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  if (got != 7) { std::puts("awaiter lost"); return 1; }
  // a chain of tasks that finish at once
  struct Rec { static kio::Task<long> run(long n) { if (n == 0) co_return 0; long v = co_await run(n - 1); co_return v + 1; } };
  auto r = Rec::run(50); r.h_.resume();
  if (!r.h_.done()) return 1;
  // ordering: the task may observe its awaiter as soon as it runs
  struct Peek { std::coroutine_handle<kio::Task<int>::promise_type> h; bool ok = false; bool await_ready() { return false; }
    bool await_suspend(std::coroutine_handle<kio::Task<int>::promise_type> x) { ok = bool(x.promise().continuation_); return false; } bool await_resume() { return ok; } };
  struct In { static kio::Task<int> run() { bool ok = co_await Peek{}; co_return ok ? 1 : 0; } };
  struct Out { static kio::Task<int> run() { int v = co_await In::run(); co_return v; } };
  auto q = Out::run(); q.h_.resume();
  if (std::get<1>(q.h_.promise().result_) != 1) { std::puts("the task runs before its awaiter is recorded"); return 1; }
  return 0; }
'''}, demo=CORO, needs='a task that completes on another thread before the starting thread has stored the continuation', breaks='the awaiter is recorded only after the task has run: it can be lost'),
dict(id='task-void-foreign-exc', property='C11', edits=[('kio/core/coro.h', '''            void unhandled_exception() { result_ = std::current_exception(); }

            void return_void() {}''', '''            void unhandled_exception()
            {
                try
                {
                    throw;
                }
                catch (const std::exception &e)
                {
                    result_ = std::current_exception();
                }
                catch (...)
                {
                    ALOG_ERROR("Task ended with an unknown exception");
                }
            }

            void return_void() {}''')],
 files={'demo.cpp': r'''#include <kio/core/coro.h>
#include <cstdio>
#include <stdexcept>
kio::Task<void> inner(int k) { if (k == 1) throw std::runtime_error("x"); if (k == 2) throw 42; co_return; }
kio::Task<int> outer(int k) { try { co_await inner(k); } catch (...) { co_return 2; } co_return 1; }
int main() {
  for (int k : {0, 1, 2}) { auto t = outer(k); t.h_.resume(); if (!t.h_.done()) return 1; if (std::get<1>(t.h_.promise().result_) != (k ? 2 : 1)) { std::puts("exception swallowed"); return 1; } }
  return 0; }
'''}, demo=CORO, needs='a Task<void> that throws something that is not a std::exception', breaks='such an exception is swallowed and the awaiter continues as if the task had succeeded'),
dict(id='task-exc-after-return', property='C11', edits=[('kio/core/coro.h', '''            void unhandled_exception() { result_.template emplace<2>(std::current_exception()); }''',
 '''            void unhandled_exception()
            {
                // never replace a result that was already produced
                if (result_.index() != 1) result_.template emplace<2>(std::current_exception());
            }''')],
 files={'demo.cpp': r'''#include <kio/core/coro.h>
#include <cstdio>
#include <stdexcept>
struct Commit { bool fail; ~Commit() noexcept(false) { if (fail) throw std::runtime_error("commit failed"); } };
kio::Task<int> inner(bool bad) { Commit c{bad}; co_return 7; }
kio::Task<int> outer(bool bad) { try { co_return co_await inner(bad); } catch (const std::runtime_error &) { co_return -1; } }
int main() {
  for (bool bad : {false, true}) { auto t = outer(bad); t.h_.resume(); if (!t.h_.done()) return 1; if (std::get<1>(t.h_.promise().result_) != (bad ? -1 : 7)) { std::puts("exception swallowed"); return 1; } }
  return 0; }
'''}, demo=CORO, needs='an exception thrown by a local destructor after co_return has stored the value', breaks='the exception is swallowed and the value handed out'),
dict(id='syncwait-early-signal', property='C12', edits=[('kio/sync/sync_wait.h', '''                storage = std::move(value);
            }''', '''                // the value is complete here: let the waiting thread go on while the frame winds down
                if (auto* e = std::exchange(event, nullptr)) e->set();
                storage = std::move(value);
            }'''), ('kio/sync/sync_wait.h', '''                    h.promise().event->set();  // Signal completion''', '''                    if (auto* e = h.promise().event) e->set();  // Signal completion''')],
 files={'demo.cpp': r'''#include <kio/sync/sync_wait.h>
#include <chrono>
#include <cstdio>
#include <thread>
struct Big { int v; explicit Big(int x) : v(x) {} Big(Big &&o) : v(o.v) { std::this_thread::sleep_for(std::chrono::milliseconds(20)); o.v = -1; } Big &operator=(Big &&o) { std::this_thread::sleep_for(std::chrono::milliseconds(20)); v = o.v; o.v = -1; return *this; } };
std::thread th;
struct Hop { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { th = std::thread([h] { h.resume(); }); } void await_resume() {} };
kio::Task<Big> work() { co_await Hop{}; co_return Big(7); }
int main() {
  try { Big b = kio::SyncWait(work()); th.join(); if (b.v != 7) { std::puts("wrong value"); return 1; } }
  catch (...) { std::puts("result read before it was stored"); std::_Exit(1); }
  return 0; }
'''}, demo=CORO, needs='a task that completes on another thread while the waiting thread is blocked', breaks='the waiting thread is released before the result is stored and the frame has finished'),
dict(id='syncwait-done-shortcut', property='C12', edits=[('kio/sync/sync_wait.h', '''        wrapper.start(event);
        event.wait();''', '''        wrapper.start(event);
        // tasks that complete synchronously need no wait
        if (!wrapper.h_.done()) event.wait();''')],
 files={'demo.cpp': r'''#include <kio/sync/sync_wait.h>
#include <chrono>
#include <cstdio>
#include <thread>
std::thread th;
struct Hop { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { th = std::thread([h] { h.resume(); }); } void await_resume() {} };
kio::Task<int> work(int i) { co_await Hop{}; co_return i; }
int main() {
  for (int i = 0; i < 2000; ++i) { int v = kio::SyncWait(work(i)); th.join(); if (v != i) { std::puts("wrong value"); return 1; } }
  return 0; }
'''}, demo=BUILD + 'g++ -std=gnu++23 -D_GNU_SOURCE -O1 -g -w -fsanitize=thread -include sys/syscall.h -I"$PWD" "$here/demo.cpp" -o "$out/demo" -pthread\nTSAN_OPTIONS=exitcode=66:halt_on_error=1 timeout 100 "$out/demo"\n', needs='a task that finishes on another thread between its start and the check of the waiting thread', breaks='SyncWait inspects and destroys the frame while the completing thread is still inside its final suspension (data race, use after free)'),
]
