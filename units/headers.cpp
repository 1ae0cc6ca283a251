// Instantiates the header-only parts of kio so that their bodies reach the
// analysis (templates are analysed in instantiated form).
#include <memory>
#include <string>
#include <vector>

#include "kio/core/async_logger.h"
#include "kio/core/bytes_mut.h"
#include "kio/core/coro.h"
#include "kio/core/errors.h"
#include "kio/core/uring_awaitable.h"
#include "kio/core/worker.h"
#include "kio/core/worker_pool.h"
#include "kio/fs/fs.h"
#include "kio/metrics/registry.h"
#include "kio/net/net.h"
#include "kio/net/socket.h"
#include "kio/resp/parser.h"
#include "kio/sync/baton.h"
#include "kio/sync/event.h"
#include "kio/sync/mpsc_queue.h"
#include "kio/sync/sync_wait.h"
#include "kio/sync/when_any.h"
#include "kio/tls/listener.h"
#include "kio/tls/stream.h"

namespace kio_units
{
struct Payload
{
    std::string s;
    int v = 0;
};
::kio::Task<int> leaf(int x) { co_return x; }
::kio::Task<void> leaf_void() { co_return; }
::kio::Task<std::string> leaf_str() { co_return std::string("x"); }
::kio::Task<std::unique_ptr<int>> leaf_ptr() { co_return nullptr; }
::kio::DetachedTask leaf_detached() { co_await leaf_void(); }
::kio::Task<int> outer()
{
    auto t = leaf(1);
    int a = co_await t;
    int b = co_await leaf(2);
    co_await leaf_void();
    auto s = co_await leaf_str();
    auto p = co_await leaf_ptr();
    leaf_detached().detach();
    co_return a + b + static_cast<int>(s.size()) + (p ? 1 : 0);
}
int drive()
{
    ::kio::SyncWait(leaf_void());
    auto u = ::kio::SyncWait(leaf_ptr());
    auto s = ::kio::SyncWait(leaf_str());
    return ::kio::SyncWait(outer()) + (u ? 1 : 0) + static_cast<int>(s.size());
}
::kio::Task<void> wait_baton(::kio::sync::AsyncBaton& b) { co_await b.wait(); }
::kio::Task<void> wait_event(::kio::sync::AsyncEvent& b) { co_await b.wait(); }
::kio::Task<std::size_t> race(::kio::io::Worker& w) { co_return co_await ::kio::sync::when_any(w, leaf_void(), leaf(1), leaf_void()); }
::kio::Task<::kio::Result<int>> try_value(::kio::Result<int> input)
{
    int got = KIO_TRY(std::move(input));
    co_return got;
}
::kio::Task<::kio::Result<void>> try_void(::kio::Result<void> input)
{
    KIO_TRY(std::move(input));
    co_return {};
}
}  // namespace kio_units

struct kio_fixed
{
    explicit kio_fixed(int x) : v(x) {}
    ~kio_fixed() { v = 0; }
    kio_fixed(kio_fixed&& o) noexcept : v(o.v) {}
    kio_fixed& operator=(kio_fixed&& o) noexcept
    {
        v = o.v;
        return *this;
    }
    int v;
};
template class kio::MPSCQueue<kio_fixed>;
template struct kio::Task<int>;
template struct kio::Task<std::string>;
template struct kio::Task<std::unique_ptr<int>>;
template struct kio::internal::sync_wait_task<int>;
template struct kio::internal::sync_wait_task<std::unique_ptr<int>>;
template class kio::MPSCQueue<int>;
template class kio::MPSCQueue<kio_units::Payload>;
template bool kio::MPSCQueue<kio_fixed>::try_push<kio_fixed>(kio_fixed&&);
template bool kio::MPSCQueue<int>::try_push<const int&>(const int&);
template bool kio::MPSCQueue<kio_units::Payload>::try_push<kio_units::Payload>(kio_units::Payload&&);
template bool kio::MPSCQueue<std::coroutine_handle<>>::try_push<const std::coroutine_handle<>&>(const std::coroutine_handle<>&);
template bool kio::MPSCQueue<std::unique_ptr<kio_units::Payload>>::try_push<std::unique_ptr<kio_units::Payload>>(std::unique_ptr<kio_units::Payload>&&);
template class kio::MPSCQueue<std::coroutine_handle<>>;
template class kio::MPSCQueue<std::unique_ptr<kio_units::Payload>>;

namespace kio_units
{
void use_logger(kio::Logger& l, int n, const std::string& s)
{
    const auto loc = std::source_location::current();
    l.trace(loc, "{} {}", n, s);
    l.debug(loc, "{} {}", n, s);
    l.info(loc, "{} {}", n, s);
    l.warn(loc, "{} {}", n, s);
    l.error(loc, "{} {}", n, s);
    kio::alog::trace(loc, "{} {}", n, s);
    kio::alog::debug(loc, "{} {}", n, s);
    kio::alog::info(loc, "{} {}", n, s);
    kio::alog::warn(loc, "{} {}", n, s);
    kio::alog::error(loc, "{} {}", n, s);
}
}  // namespace kio_units

template class kio::MetricsRegistry<kio::PrometheusTextSerializer>;
