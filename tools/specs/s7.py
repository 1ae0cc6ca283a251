BUILD = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
'''
ERR = BUILD + 'clang++-20 -std=gnu++23 -D_GNU_SOURCE -O1 -g -w -include sys/syscall.h -I"$PWD" "$here/demo.cpp" -pthread -o "$out/demo"\ntimeout 60 "$out/demo"\n'
HEAD = '''#include "kio/core/errors.h"
#include "kio/core/coro.h"
#include "kio/sync/sync_wait.h"
#include <cstdio>
#include <cerrno>
using namespace kio;
static int bad(const char* w) { std::printf("%s\\n", w); return 1; }
'''
BUGS = [
dict(id='errors-tls-range', property='C17', edits=[('kio/core/errors.h', 'err >= 4000 && err < 5000', 'err >= 4000 && err < kTlsShutdownFailed')],
     files={'demo.cpp': HEAD + 'int main() { return Error::from_errno(kTlsShutdownFailed).category == ErrorCategory::Tls ? 0 : bad("kTlsShutdownFailed is no TLS error"); }\n'},
     demo=ERR, needs='the last TLS error code', breaks='it is classified as Unknown'),
dict(id='errors-negative-success', property='C17', edits=[('kio/core/errors.h', 'if (err == 0) return Success;', 'if (err <= 0) return Success;')],
     files={'demo.cpp': HEAD + 'int main() { return Error::from_errno(-EPIPE).is_success() ? bad("a negative error value counts as success") : 0; }\n'},
     demo=ERR, needs='an error value that was not negated', breaks='a failure is reported as success'),
dict(id='errors-device', property='C17', edits=[('kio/core/errors.h', '''            case ENXIO:
            case EBUSY:
                return Device;''', '''            case EBUSY:
                return Device;''')],
     files={'demo.cpp': HEAD + 'int main() { return Error::from_errno(ENXIO).category == ErrorCategory::Device ? 0 : bad("ENXIO is no device error"); }\n'},
     demo=ERR, needs='an operation that fails with ENXIO', breaks='it is classified as Unknown'),
dict(id='errors-message', property='C17', edits=[('kio/core/errors.h', 'if (value > 0 && value < 1000)', 'if (value > 0 && value < EHWPOISON / 2)')],
     files={'demo.cpp': HEAD + 'int main() { return std::format("{}", Error::from_errno(ECONNRESET)).find("reset") != std::string::npos ? 0 : bad("no message for ECONNRESET"); }\n'},
     demo=ERR, needs='an errno above 66', breaks='its message is lost'),
dict(id='errors-try', property='C17', edits=[('kio/core/errors.h', 'co_return std::unexpected(__kio_internal_res.error());   \\', 'co_return std::unexpected(::kio::Error::from_errno(__kio_internal_res.error().value));   \\')],
     files={'demo.cpp': HEAD + r'''Task<Result<int>> inner() { co_return std::unexpected(Error::custom(ErrorCategory::Application, EINVAL)); }
Task<Result<int>> outer() { int x = KIO_TRY(co_await inner()); co_return x; }
int main() { auto r = SyncWait(outer()); return r.error().category == ErrorCategory::Application ? 0 : bad("KIO_TRY changed the category"); }
'''}, demo=ERR, needs='an error whose category is not the one of its value (Error::custom)', breaks='KIO_TRY changes the category of the error'),
]
