BUILD = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
'''
def simple(extra='', flags=''):
    return BUILD + 'clang++-20 -std=gnu++23 -D_GNU_SOURCE -O1 -g -w %s -I"$PWD" "$here/demo.cpp" %s -o "$out/demo"\ntimeout 60 "$out/demo"\n' % (flags, extra)
RESP = simple('kio/resp/parser.cpp')
RESPA = simple('kio/resp/parser.cpp', '-fsanitize=address')
BUGS = [
dict(id='bytesmut-compact-threshold', property='C02', edits=[('kio/core/bytes_mut.h',
'''                std::memcpy(new_buffer.data(), buffer_.data() + read_pos_, data_len);''',
'''                std::memcpy(new_buffer.data(), buffer_.data() + read_pos_, data_len > kAutoCompactionThreshold && read_pos_ > 0 ? data_len - 1 : data_len);''')],
 files={'demo.cpp': r'''#include <kio/core/bytes_mut.h>
#include <cstdio>
#include <string>
int main(){ for (size_t cap = 1; cap < 7000; cap += 700) for (size_t live = 0; live <= cap; live += 99) for (size_t add = 1; add < 20000; add += 1300) {
  kio::BytesMut b(cap); std::string s; for (size_t i=0;i<live;++i) s.push_back(char('a'+i%26));
  b.extend_from_slice({s.data(), s.size()}); if (live) { b.advance(1); s.erase(0, 1); } b.reserve(add);
  auto r = b.readable_span(); if (std::string(r.data(), r.size()) != s) { std::puts("lost bytes"); return 1; } }
 return 0; }
'''}, demo=simple(), needs='growth by reallocation with more than 1024 unread bytes and a consumed prefix', breaks='growing copies only part of the unread bytes'),
dict(id='bytesmut-reserve-slack', property='C02', edits=[('kio/core/bytes_mut.h',
'''                if (buffer_.size() < write_pos_ + additional) {''', '''                if (buffer_.size() < data_len + additional) {''')],
 files={'demo.cpp': r'''#include <kio/core/bytes_mut.h>
#include <cstdio>
int main(){ for (size_t cap : {64, 4096, 8192}) for (size_t w = 0; w <= cap; w += 16) for (size_t r = 0; r <= w; r += 16) for (size_t add = 1; add < cap; add += 61) {
  kio::BytesMut b(cap); b.commit_write(w); b.advance(r); b.reserve(add);
  if (b.writable() < add) { std::printf("writable %zu < %zu\n", b.writable(), add); return 1; } }
 return 0; }
'''}, demo=simple(), needs='a buffer with a small consumed prefix (below a quarter and below 1024 bytes) that is asked for slightly more space than is left at its end', breaks='reserve returns without the requested writable space; the following append overruns the buffer'),
dict(id='bytesmut-peek-bound', property='C01', edits=[('kio/core/bytes_mut.h',
'''        [[nodiscard]] std::span<const char> peek(const size_t n) const
        {
            if (n > remaining())''', '''        [[nodiscard]] std::span<const char> peek(const size_t n) const
        {
            if (read_pos_ + n > write_pos_ && n > buffer_.size() - read_pos_)''')],
 files={'demo.cpp': r'''#include <kio/core/bytes_mut.h>
#include <cstdio>
#include <cstdint>
int main(){ kio::BytesMut b(64); b.commit_write(10); b.advance(4);
 try { auto s = b.peek(40); std::printf("peek handed out %zu bytes of 6\n", s.size()); return 1; } catch (const std::out_of_range&) {}
 try { b.peek(SIZE_MAX - 1); std::puts("wrapped"); return 1; } catch (const std::out_of_range&) {}
 return 0; }
'''}, demo=simple(), needs='peeking further than the readable bytes but within the allocation, or by an amount whose sum wraps', breaks='peek hands out bytes that were never written, or a view far outside the allocation'),
dict(id='resp-crlf-scan', property='C05', edits=[('kio/resp/parser.cpp', '''            current = lf + 1;''', '''            current = std::min(lf + 3, ptr + len);''')],
 files={'demo.cpp': r'''#include <kio/resp/parser.h>
#include <cstdio>
#include <cstring>
int main(){ kio::resp::Parser p(kio::resp::ParserConfig{}); const char m[] = "+a\n\r\n"; // LF in the text directly before... 
 const char m2[] = "+ab\n\n\r\n+z\r\n"; p.buffer().extend_from_slice({m2, strlen(m2)}); auto f = p.next_frame();
 if (!f || f->size != 7) { std::puts("wrong extent"); return 1; }
 kio::resp::Parser q(kio::resp::ParserConfig{}); const char m3[] = "+ab\n\r\n"; q.buffer().extend_from_slice({m3, strlen(m3)});
 auto g = q.next_frame(); if (!g || g->size != 6) { std::puts("wrong extent 2"); return 1; }
 kio::resp::Parser s(kio::resp::ParserConfig{}); const char m4[] = "+ab\nc\n\r\n+q\r\n"; (void)m; s.buffer().extend_from_slice({m4, strlen(m4)});
 auto h = s.next_frame(); if (!h || h->size != 8) { std::puts("wrong extent 3"); return 1; }
 const char m5[] = "+a\n\n\r\n"; kio::resp::Parser t(kio::resp::ParserConfig{}); t.buffer().extend_from_slice({m5, 3}); t.buffer().extend_from_slice({m5+3, 3});
 auto i = t.next_frame(); if (!i || i->size != 6) { std::puts("wrong extent 4"); return 1; }
 // a line end whose LF directly follows the byte behind a lone LF
 kio::resp::Parser u(kio::resp::ParserConfig{}); const char m6[] = "+a\n\r\n:12\r\n"; u.buffer().extend_from_slice({m6, strlen(m6)});
 auto j = u.next_frame(); if (!j || j->size != 5) { std::puts("wrong extent 5"); return 1; }
 kio::resp::Parser v(kio::resp::ParserConfig{}); const char m7[] = "$3\r\n\n\r\n\r\n"; v.buffer().extend_from_slice({m7, strlen(m7)});
 auto k = v.next_frame(); if (!k || k->size != 9) { std::puts("wrong extent 6"); return 1; }
 return 0; }
'''}, demo=RESP, needs='a lone LF directly before the CRLF that ends the line', breaks='the line end is missed and the frame swallows the following one'),
dict(id='resp-attr-double', property='C05', edits=[('kio/resp/parser.cpp',
'''(type == FrameType::Map || type == FrameType::Attribute) ? count * 2 : count;''',
'''(type == FrameType::Map || (type == FrameType::Attribute && depth == 0)) ? count * 2 : count;''')],
 files={'demo.cpp': r'''#include <kio/resp/parser.h>
#include <cstdio>
#include <cstring>
int main(){ kio::resp::Parser p(kio::resp::ParserConfig{}); const char m[] = "*2\r\n|1\r\n+k\r\n:1\r\n+x\r\n"; p.buffer().extend_from_slice({m, strlen(m)});
 auto f = p.next_frame(); if (!f || f->size != strlen(m)) { std::printf("size %zu\n", f ? f->size : 0); return 1; } return 0; }
'''}, demo=RESP, needs='an attribute nested in another aggregate', breaks='a nested attribute takes half of its children; the rest of the stream is misread'),
dict(id='resp-depth-bulk', property='C04', edits=[('kio/resp/parser.cpp', '''static_cast<size_t>(payload_len) > config_.max_size''', '''payload_len > static_cast<int32_t>(config_.max_size)'''),
 ],
 files={'demo.cpp': r'''#include <kio/resp/parser.h>
#include <cstdio>
#include <cstring>
int main(){ kio::resp::ParserConfig c; c.max_size = size_t(3) << 30; c.initial_buffer = 64; kio::resp::Parser p(c); const char m[] = "$5\r\nhello\r\n"; p.buffer().extend_from_slice({m, strlen(m)});
 auto f = p.next_frame(); if (!f || f->size != strlen(m)) { std::puts("refused within the limit"); return 1; } return 0; }
'''}, demo=RESP, needs='a configured maximum size of 2 GiB or more', breaks='the limit is truncated to 32 bits, so lengths within the configured limit are refused'),
dict(id='resp-iter-depth', property='C04', edits=[('kio/resp/parser.cpp', '''        current_ += child->size;
        remaining_--;''', '''        current_ += child->size;
        remaining_--;
        if (child->element_count > 0 && remaining_ > 0) depth_++;''')],
 files={'demo.cpp': r'''#include <kio/resp/parser.h>
#include <cstdio>
#include <string>
int main(){ kio::resp::ParserConfig c; c.max_aggregate_depth = 2; c.initial_buffer = 64; kio::resp::Parser p(c);
 std::string m = "*6\r\n"; for (int i=0;i<6;++i) m += "*1\r\n:1\r\n"; p.buffer().extend_from_slice({m.data(), m.size()});
 auto f = p.next_frame(); if (!f) { std::puts("not accepted"); return 1; }
 kio::resp::FrameIterator it(*f, p); int n=0; while (it.has_next()) { auto ch = it.next(); if (!ch) { std::printf("child %d refused\n", n); return 1; } ++n; }
 return n == 6 ? 0 : 1; }
'''}, demo=RESP, needs='iterating an aggregate with several non-empty aggregates as children and a small depth limit', breaks='children of an accepted frame are refused as nested too deeply'),
dict(id='resp-payload-short', property='C03', edits=[('kio/resp/parser.cpp', '''        if (frame.size < header_len + 2) return {};''', '''        if (frame.size == header_len && frame.data[1] == '-' && frame.data[2] == '1') return {};''')],
 files={'demo.cpp': r'''#include <kio/resp/parser.h>
#include <cstdio>
#include <cstring>
int main(){ kio::resp::Parser p(kio::resp::ParserConfig{}); const char m[] = "$-01\r\n"; p.buffer().extend_from_slice({m, strlen(m)});
 auto f = p.next_frame(); if (!f) return 0; auto v = kio::resp::get_bulk_payload(*f); if (v.size() > 10) { std::puts("view outside the frame"); return 1; } return 0; }
'''}, demo=RESP, needs='payload extraction from a null bulk frame whose length is written with a leading zero', breaks='the payload length wraps around: the view covers the whole address space'),
]
