BUILD = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
'''
MET = BUILD + 'clang++-20 -std=gnu++23 -D_GNU_SOURCE -O1 -g -w -include sys/syscall.h -I"$PWD" "$here/demo.cpp" kio/metrics/serializer.cpp -pthread -o "$out/demo"\ntimeout 60 "$out/demo"\n'
HEAD = '''#include "kio/metrics/registry.h"
#include "kio/metrics/utils.h"
#include <cstdio>
#include <memory>
#include <string>
#include <thread>
#include <atomic>
using namespace kio;
static std::string dump(MetricSnapshot& s) { return PrometheusTextSerializer{}.Serialize(s); }
static int want(const std::string& t, const std::string& w) { if (t.find(w) != std::string::npos) return 0; std::printf("missing: %s\\nin:\\n%s\\n", w.c_str(), t.c_str()); return 1; }
'''
BUGS = [
dict(id='metrics-escape-dirty', property='C15', edits=[('kio/metrics/utils.h', "if (c == '\\\\' || c == '\"' || c == '\\n') {", "if (c == '\\\\' || c == '\"') {")],
     files={'demo.cpp': HEAD + r'''int main() { MetricSnapshot s; s.BuildFamily("m", "h", MetricType::Gauge).Add({{"k", "a\nb"}}, 1); return want(dump(s), "m{k=\"a\\nb\"} 1\n"); }
'''}, demo=MET, needs='a label value that contains a newline but neither a backslash nor a double quote', breaks='the newline is written unescaped and splits the sample line'),
dict(id='metrics-label-digit', property='C15', edits=[('kio/metrics/utils.h', "(c >= '0' && c <= '9') || c == '_')", "(c >= '0' && c <= ':') || c == '_')")],
     files={'demo.cpp': HEAD + r'''int main() { MetricSnapshot s; s.BuildFamily("m", "h", MetricType::Gauge).Add({{"a:b", "x"}}, 1); return want(dump(s), "m{a_b=\"x\"} 1\n"); }
'''}, demo=MET, needs='a label name with a colon', breaks='an illegal label name is exposed'),
dict(id='metrics-single-label', property='C15', edits=[('kio/metrics/serializer.cpp', 'if (!sample.labels.empty())', 'if (!sample.labels.empty() && !sample.labels.begin()->second.empty())')],
     files={'demo.cpp': HEAD + r'''int main() { MetricSnapshot s; s.BuildFamily("m", "h", MetricType::Gauge).Add({{"a", ""}, {"b", "x"}}, 1); return want(dump(s), "m{a=\"\",b=\"x\"} 1\n"); }
'''}, demo=MET, needs='a sample whose first label has an empty value', breaks='all labels of the sample are dropped'),
dict(id='metrics-comma', property='C15', edits=[('kio/metrics/serializer.cpp', '''                        first = false;
''', '''                        first = pair.second.empty();
''')],
     files={'demo.cpp': HEAD + r'''int main() { MetricSnapshot s; s.BuildFamily("m", "h", MetricType::Gauge).Add({{"a", ""}, {"b", "x"}}, 1); return want(dump(s), "m{a=\"\",b=\"x\"} 1\n"); }
'''}, demo=MET, needs='an empty label value that is not the last', breaks='the comma between two labels is missing'),
dict(id='metrics-limit', property='C16', edits=[('kio/metrics/model.h', 'if (samples.size() >= max_samples_)', 'if (samples.size() > max_samples_)')],
     files={'demo.cpp': HEAD + r'''int main() { MetricSnapshot s; auto& f = s.BuildFamily("m", "h", MetricType::Gauge, 2); for (int i = 0; i < 4; ++i) f.Add({}, i); if (f.samples.size() != 2) { std::printf("%zu samples\n", f.samples.size()); return 1; } return 0; }
'''}, demo=MET, needs='more samples than the limit of the family', breaks='one sample more than max_samples is kept'),
dict(id='metrics-register-race', property='C16', edits=[('kio/metrics/registry.h', '''            std::lock_guard lock(mutex_);
            collectors_.push_back(std::move(collector));''', '''            collectors_.push_back(std::move(collector));''')],
     files={'demo.cpp': HEAD + r'''
std::atomic<bool> inside{false}, registered{false};
struct Slow : IMetricsCollector { void Collect(MetricSnapshot& s) override { inside = true; for (int i = 0; i < 50 && !registered; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10)); if (registered) { std::printf("the list changed during a scrape\n"); std::_Exit(1); } } };
struct Other : IMetricsCollector { void Collect(MetricSnapshot&) override {} };
int main() { auto& r = MetricsRegistry<>::Instance(); r.Register(std::make_shared<Slow>());
  std::thread t([&] { while (!inside) std::this_thread::yield(); r.Register(std::make_shared<Other>()); registered = true; });
  r.Scrape(); registered = false; inside = true; t.join(); return 0; }
'''}, demo=MET, needs='a collector registered while another thread scrapes', breaks='the list is changed under the scrape that iterates over it'),
dict(id='metrics-snapshot-static', property='C16', edits=[('kio/metrics/registry.h', 'MetricSnapshot snapshot;', 'thread_local MetricSnapshot snapshot;')],
     files={'demo.cpp': HEAD + r'''
struct One : IMetricsCollector { void Collect(MetricSnapshot& s) override { s.BuildFamily("m", "h", MetricType::Gauge).Add({}, 7); } };
int main() { auto& r = MetricsRegistry<>::Instance(); r.Register(std::make_shared<One>()); auto a = r.Scrape(); auto b = r.Scrape(); if (a != b) { std::printf("second scrape differs:\n%s", b.c_str()); return 1; } return 0; }
'''}, demo=MET, needs='a second scrape from the same thread', breaks='samples of earlier scrapes are reported again'),
]
