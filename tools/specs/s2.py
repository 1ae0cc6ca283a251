BUILD = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
'''
def simple(extra='', flags=''):
    return BUILD + 'clang++-20 -std=gnu++23 -D_GNU_SOURCE -O1 -g -w %s -I"$PWD" "$here/demo.cpp" %s -o "$out/demo"\ntimeout 60 "$out/demo"\n' % (flags, extra)
RESP = simple('kio/resp/parser.cpp')
RESPA = simple('kio/resp/parser.cpp', '-fsanitize=address')
F='kio/sync/mpsc_queue.h'
COUNT=r'''#include <kio/sync/mpsc_queue.h>
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include <chrono>
'''
BUGS=[
dict(id='queue-dtor-wrapped', property='C08', edits=[(F,'for (size_t i = head; i < tail; ++i)','for (size_t i = head & mask_; i < (tail & mask_); ++i)')],
 files={'demo.cpp':COUNT+r'''static long live=0;
struct T { explicit T(int){++live;} T(T&&)noexcept{++live;} T&operator=(T&&)noexcept{return *this;} ~T(){--live;} };
int main(){ for(int turns=0;turns<20;++turns){ { kio::MPSCQueue<T> q(4); T x(1); for(int i=0;i<turns;++i){ q.try_push(T(i)); q.try_pop(x);} q.try_push(T(1)); q.try_push(T(2)); q.try_push(T(3)); }
 if(live!=0){ std::printf("%ld items not destroyed after %d turns\n",live,turns); return 1;} } return 0; }
'''}, demo=simple(), needs='a queue of a type without default constructor that is destroyed with items in it after its positions have passed its capacity', breaks='items left in the queue are never destroyed'),
dict(id='queue-skip-destroy', property='C08', edits=[(F,'''            cell->destroy_in_place();

            // Mark''','''            if constexpr (!std::is_nothrow_move_assignable_v<T>)
                cell->destroy_in_place();

            // Mark''')],
 files={'demo.cpp':COUNT+r'''static long live=0;
struct T { T(){++live;} T(const T&){++live;} T(T&&)noexcept{++live;} T&operator=(T&&)noexcept{return *this;} ~T(){--live;} };
int main(){ { kio::MPSCQueue<T> q(4); T x; q.try_push(T()); q.try_pop(x);} if(live!=0){ std::printf("%ld items not destroyed\n",live); return 1;} return 0; }
'''}, demo=simple(), needs='an item type whose move assignment is noexcept and whose moved-from state still owns something', breaks='popped items are never destroyed'),
dict(id='queue-publish-early', property='C07', edits=[(F,'''            cell->construct_in_place(std::forward<U>(u));

            cell->sequence.store(pos + 1, std::memory_order_release);''','''            if constexpr (std::is_nothrow_constructible_v<T, U &&>)
            {
                cell->sequence.store(pos + 1, std::memory_order_release);
                cell->construct_in_place(std::forward<U>(u));
            }
            else
            {
                cell->construct_in_place(std::forward<U>(u));
                cell->sequence.store(pos + 1, std::memory_order_release);
            }''')],
 files={'demo.cpp':COUNT+r'''struct T { int v=0; T()=default; explicit T(int x):v(x){} T(T&&o)noexcept{ std::this_thread::sleep_for(std::chrono::milliseconds(50)); v=o.v;} T&operator=(T&&o)noexcept{ v=o.v; return *this;} };
int main(){ kio::MPSCQueue<T> q(4); std::thread p([&]{ q.try_push(T(7)); }); T x; while(!q.try_pop(x)) std::this_thread::yield(); p.join();
 if(x.v!=7){ std::printf("popped %d\n",x.v); return 1;} return 0; }
'''}, demo=simple('', '-pthread'), needs='a consumer that pops while a producer is between claiming a slot and constructing the item', breaks='the consumer takes an item that has not been constructed yet'),
dict(id='queue-giveback-early', property='C07', edits=[(F,'''            item = std::move(*cell->data_ptr());

            // Destroy the in-place object now that we've moved it out
            cell->destroy_in_place();

            // Mark the slot as available for producers again:
            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
''','''            T &front = *cell->data_ptr();
            if constexpr (std::is_trivially_copyable_v<T>)
            {
                // nothing to destroy: hand the slot back right away
                cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
                item = std::move(front);
            }
            else
            {
                item = std::move(front);
                cell->destroy_in_place();
                cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
            }
''')],
 files={'demo.cpp':COUNT+r'''struct T { unsigned long v[64]; };
int main(){ kio::MPSCQueue<T> q(2); std::atomic<bool> stop{false}; std::atomic<bool> bad{false};
 std::vector<std::thread> ps; for(int k=0;k<3;++k) ps.emplace_back([&,k]{ T t; for(unsigned long n=1;!stop;++n){ for(auto&x:t.v) x=n*4+k; q.try_push(t);} });
 T x; auto end=std::chrono::steady_clock::now()+std::chrono::seconds(12);
 while(std::chrono::steady_clock::now()<end && !bad){ if(q.try_pop(x)) for(auto v:x.v) if(v!=x.v[0]) bad=true; }
 stop=true; for(auto&p:ps) p.join(); if(bad){ std::puts("torn item"); return 1;} return 0; }
'''}, demo=simple('', '-pthread'), needs='a producer that reuses the slot while the consumer is still copying the item out of it', breaks='the consumer delivers a torn or overwritten item'),
dict(id='queue-nonatomic-claim', property='C07', edits=[(F,'''                    if (enqueue_pos_.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed, std::memory_order_relaxed))
                    {
                        break;
                    }''','''                    if (const size_t now = enqueue_pos_.load(std::memory_order_relaxed); now == pos)
                    {
                        enqueue_pos_.store(pos + 1, std::memory_order_relaxed);
                        break;
                    }
                    else
                    {
                        pos = now;
                    }''')],
 files={'demo.cpp':COUNT+r'''int main(){ for(int round=0;round<40;++round){ kio::MPSCQueue<long> q(1024); std::atomic<long> pushed{0}; std::atomic<int> left{4}; std::atomic<bool> go{false};
 std::vector<std::thread> ps; for(int k=0;k<4;++k) ps.emplace_back([&]{ while(!go); for(int i=0;i<50000;++i){ int tries=0; while(!q.try_push(1L)) if(++tries>100000) break; else std::this_thread::yield(); if(tries<=100000) ++pushed; } --left; });
 long got=0, x=0; go=true; int idle=0; while(left || idle<1000){ if(q.try_pop(x)){ ++got; idle=0;} else { ++idle; std::this_thread::yield(); } if(idle>3000000) break; }
 for(auto&p:ps) p.join(); while(q.try_pop(x)) ++got; if(got!=pushed){ std::printf("pushed %ld got %ld\n",pushed.load(),got); return 1;} } return 0; }
'''}, demo=simple('', '-pthread'), needs='two producers that read the same position before either has moved it', breaks='two pushes share one slot: an item is lost'),
]
