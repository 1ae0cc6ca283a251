// demonstrations against the real store (bitcask), with stand-ins for struct_pack and crc32c: overlap | damaged | fdcache
#include "bitcask/include/partition.h"

#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>

#include "kio/core/worker.h"
#include "kio/sync/sync_wait.h"

using namespace bitcask;
using namespace kio;
using namespace kio::io;
namespace fs = std::filesystem;

static std::vector<char> val(char c, size_t n = 100) { return std::vector<char>(n, c); }
static int left = 0, failures = 0;

static DetachedTask put(Partition& p, std::string key, char c)
{
    auto r = co_await p.put(std::string(key), val(c));
    std::printf("put %s: %s\n", key.c_str(), r ? "ok" : "failed");
    --left;
}

static DetachedTask get(Partition& p, std::string key, char c)
{
    auto r = co_await p.get(key);
    const bool ok = r && *r && **r == val(c);
    std::printf("get %s: %s\n", key.c_str(), ok ? "right" : r ? (*r ? "wrong value" : "nothing") : "error");
    failures += !ok;
    --left;
}

static Task<void> settle(Worker& w)
{
    while (left > 0) co_await w.async_sleep(std::chrono::milliseconds(10));
}

int main(int, char** argv)
{
    const std::string what = argv[1];
    const fs::path dir = argv[2];
    alog::configure(1024, LogLevel::Disabled);
    fs::create_directories(dir / "partition_0");
    BitcaskConfig config;
    config.directory = dir;
    config.auto_compact = false;
    config.max_file_size = what == "overlap" ? 1 << 20 : 400;
    if (what == "fdcache") config.max_open_sealed_files = 1;
    Worker worker(0, WorkerConfig{});
    std::thread t([&] { worker.loop_forever(); });
    worker.wait_ready();
    auto run = [&]() -> Task<void>
    {
        co_await SwitchToWorker(worker);
        auto part = (co_await Partition::open(config, worker, 0)).value();
        Partition& p = *part;
        if (what == "overlap")
        {
            left = 2;
            put(p, "a", 'a').detach();
            put(p, "b", 'b').detach();
            co_await settle(worker);
            left = 1;
            get(p, "a", 'a').detach();
            co_await settle(worker);
            left = 1;
            get(p, "b", 'b').detach();
            co_await settle(worker);
        }
        else
        {
            for (char c = 'a'; c < 'm'; ++c) (void)co_await p.put(std::string(1, c), val(c));
            if (what == "fdcache")
            {
                left = 6;
                for (char c = 'a'; c < 'g'; ++c) get(p, std::string(1, c), c).detach();
                co_await settle(worker);
            }
            else
            {
                // the first entry of the oldest file is damaged on the disk; the others of the file are whole and alive
                fs::path oldest;
                for (auto& e: fs::directory_iterator(dir / "partition_0"))
                    if (e.path().filename().string().starts_with("data_") && (oldest.empty() || e.path() < oldest)) oldest = e.path();
                {
                    std::fstream f(oldest, std::ios::in | std::ios::out | std::ios::binary);
                    f.seekp(40);
                    f.put('#');
                }
                for (auto& [id, s]: p.stats_.data_files) s.live_bytes = 0;  // make every sealed file due for compaction
                (void)co_await p.compact();
                left = 1;
                get(p, "b", 'b').detach();
                co_await settle(worker);
            }
        }
        (void)co_await p.async_close();
        co_return;
    };
    SyncWait(run());
    (void)worker.request_stop();
    worker.wait_shutdown();
    t.join();
    return failures ? 1 : 0;
}
