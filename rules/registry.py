REGISTRY = {}
NOT_APPLICABLE = []

ENGINE = 'path-sensitive abstract interpretation over the type-checked syntax tree, all calls inlined or summarised'


def prop(pid, module, run, title, statement, over, quant, why, files, mechanism, technique, note, level='other', state=None, **kw):
    REGISTRY[pid] = dict(pid=pid, module=module, run=run if isinstance(run, (list, tuple)) else [run], level=level,
                         explain=technique, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                         mechanism=mechanism, technique=technique, note=note, state=state, **kw)


def na(pid, title, statement, over, quant, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                               mechanism=mechanism, reason=reason, state=None))


# ------------------------------------------------------------------------------------------------ buffers
prop('C01', 'bytesmut', 'memory',
     title='Growable buffer never touches memory outside its allocation',
     statement='For every sequence of operations with every size argument, the growable byte buffer never reads, writes or hands out memory '
               'outside its allocation: the read position never passes the write position, the write position never passes the capacity, '
               'and every view or pointer it returns covers only bytes of the allocation. '
               'A call whose argument would break this (advancing past the readable bytes, committing more than the writable space, '
               'growing past the maximum size) is refused by an exception and leaves the buffer unchanged; no size computation wraps around.',
     over=['inputs', 'histories'],
     quant='all argument values (including ones near the maximum of size_t) and all operation sequences on one buffer',
     why='Unit tests call each operation with a few small sizes; the arguments near SIZE_MAX and the states reached by long mixed sequences are never sampled.',
     files=['kio/core/bytes_mut.h'],
     mechanism=[dict(name='bound checks in advance, commit_write, reserve', where='kio/core/bytes_mut.h'),
                dict(name='compaction and growth', where='kio/core/bytes_mut.h')],
     technique='inductive class invariant proved by interprocedural numeric dataflow (linear inequalities) per public method',
     note='Every public method is analysed from an arbitrary object that satisfies the invariant, with symbolic unsigned arguments where '
          'wrap-around is modelled; sound up to the models of std::vector/span/memmove. Moved-from objects are outside the invariant.')
prop('C02', 'bytesmut', 'content',
     title='Growable buffer hands out exactly the bytes written, in order',
     statement='The readable contents of the growable byte buffer are exactly the bytes committed or appended and not yet consumed, in order: '
               'appending adds the given bytes behind the unread ones, consuming removes exactly the given number from the front, and '
               'growing, reserving space, compacting or any other operation keeps all unread bytes and their order. '
               'Reserving space guarantees at least the requested writable space, and the reported counts and views agree with the contents.',
     over=['inputs', 'histories'],
     quant='all argument values and all operation sequences on one buffer',
     why='The tests compare contents for a handful of short strings; a grow or compact that loses bytes only for some relation of read position, write position and request is not sampled.',
     files=['kio/core/bytes_mut.h'],
     mechanism=[dict(name='append/commit/advance cursors', where='kio/core/bytes_mut.h'),
                dict(name='copy of the unread bytes on growth and compaction', where='kio/core/bytes_mut.h')],
     technique='symbolic content tracking (source range, destination range, length of every block copy) by interprocedural numeric dataflow',
     note='Contents are tracked as copied ranges; a refactoring that moves bytes with a hand-written byte loop is not recognised as a copy.')

# ------------------------------------------------------------------------------------------------ RESP
RESPF = ['kio/resp/parser.cpp', 'kio/resp/parser.h']
prop('C03', 'resp', 'memory',
     title='RESP parsing never reads outside the received bytes',
     statement='For every byte sequence a peer can send, parsing a frame and extracting its payload read only bytes inside the received input, '
               'and every frame and payload view handed to the user lies completely inside that input. '
               'No length or count taken from the wire can make an index, a sub-range or a size computation go outside it or wrap around.',
     over=['inputs'],
     quant='all byte sequences of all lengths, nested to any depth, and all parser limits',
     why='Tests feed well-formed frames and a few malformed ones; the property is about hostile lengths, truncated frames and every split position.',
     files=RESPF,
     mechanism=[dict(name='line search and length checks', where='kio/resp/parser.cpp'), dict(name='payload extraction', where='kio/resp/parser.cpp')],
     technique='interprocedural numeric dataflow over symbolic input bounds; recursion by an inductive summary',
     note='Sound for all inputs up to the models of memchr, from_chars, span and string_view; sizes below 2^56 are assumed to be addressable.')
prop('C04', 'resp', 'limits',
     title='RESP parser enforces exactly its nesting and size limits',
     statement='A frame nested deeper than the configured maximum depth is never accepted and never recursed into, every nested element counts as one level deeper '
               'than its container, and nesting within the limit is never refused for its depth. '
               'A length-prefixed payload with a negative length (other than the null marker -1) or a length above the configured maximum is never accepted, '
               'a length within the maximum is never refused as too large, and an aggregate with a negative count is never accepted.',
     over=['inputs', 'configurations'],
     quant='all inputs and all values of the two limits',
     why='Tests try one or two depths and sizes against the default limits; off-by-one at the boundary and per-level counting hold for all values or not at all.',
     files=RESPF,
     mechanism=[dict(name='depth check and depth + 1 on recursion', where='kio/resp/parser.cpp'),
                dict(name='length and maximum-size checks', where='kio/resp/parser.cpp')],
     technique='interprocedural dataflow: path conditions at every accept, refuse and recursion site must entail the limit relation',
     note='All paths of the parser; the limits are symbolic.')
prop('C05', 'resp', 'extents',
     title='RESP frames have exactly the extent and payload the protocol gives',
     statement='An accepted frame starts at the first unread byte and ends exactly where the protocol says: behind the CRLF of its first line, behind the CRLF that follows a payload of the '
               'announced length (which must be present), or behind its last child for aggregates, which have exactly the announced number of children (twice that for maps and attributes). '
               'Booleans are accepted only for t or f, and integers, doubles, lengths and counts only if the whole field is a number. '
               'More data is requested only when the input does not contain the complete frame, and payload extraction returns exactly the payload bytes.',
     over=['inputs'],
     quant='all byte sequences, all frame types and all nestings',
     why='Tests check a few frames per type; a wrong extent desynchronises the stream only for particular combinations of type, nesting and split position.',
     files=RESPF,
     mechanism=[dict(name='frame header construction for each type', where='kio/resp/parser.cpp'),
                dict(name='payload helpers', where='kio/resp/parser.cpp')],
     technique='interprocedural numeric dataflow: symbolic frame extent at every accepting exit compared with the grammar; ghost counters for children',
     note='The digits of big numbers are not tracked. Refusals of complete frames are checked only for the incomplete, depth and size verdicts.')
prop('C06', 'resp', 'iteration',
     title='Iterating an aggregate visits every child once, in order',
     statement='Iterating over an accepted aggregate frame yields its children in order, each exactly once: it starts behind the header line, each step advances by exactly the size of the child it returned, '
               'and it ends after the announced number of children (twice that for maps and attributes). '
               'A failing step neither moves the iterator nor counts a child.',
     over=['inputs', 'histories'],
     quant='all accepted aggregates and any number of steps',
     why='Tests iterate a few small arrays and maps.',
     files=RESPF,
     mechanism=[dict(name='frame iterator', where='kio/resp/parser.cpp')],
     technique='inductive step proof by interprocedural numeric dataflow',
     note='One construction and one arbitrary step are analysed from a symbolic iterator state.')

# ------------------------------------------------------------------------------------------------ queue
QF = ['kio/sync/mpsc_queue.h']
prop('C07', 'queue', 'protocol',
     title='Multi-producer queue delivers every accepted item exactly once',
     statement='Under every interleaving of any number of producers and one consumer, each item whose push reports success is delivered by exactly one successful pop, completely written before it can be seen, '
               'and items that were accepted in sequence come out in that order. '
               'A failed push or pop changes nothing, a push fails only if the queue was seen full, a pop only if it was seen empty, and no slot is reused before its item has been taken out. '
               'This holds for every capacity the queue accepts.',
     over=['schedules', 'histories', 'configurations'],
     quant='all interleavings of producers and the consumer, all memory reorderings the C++ memory model allows, all capacities that are powers of two',
     why='The tests run a few threads for a short time on x86, where a missing release/acquire order or a window between claim and publish never shows.',
     files=QF,
     mechanism=[dict(name='slot sequence numbers with acquire/release', where='kio/sync/mpsc_queue.h'), dict(name='compare-exchange claim of a position', where='kio/sync/mpsc_queue.h')],
     technique='slot-protocol typestate over all paths: order and memory order of claim, construct, publish, take and give-back, with symbolic positions',
     note='Checks the Vyukov slot protocol on every path of every instantiation; that the protocol implies the property is the (documented) pen-and-paper argument. '
          'Capacities that are no power of two violate the documented precondition.')
prop('C08', 'queue', 'lifetime',
     title='Queued objects are constructed and destroyed exactly once',
     statement='Every object moved into the queue is destroyed exactly once: when it has been taken out, or by the destruction of the queue, which destroys every item still in it and nothing else. '
               'No operation touches a slot that holds no object, or destroys an object before it has been handed to the consumer.',
     over=['histories', 'schedules'],
     quant='all histories of pushes and pops before destruction, for default-constructible and other item types',
     why='Leaks and double destruction of items left at shutdown depend on the position of the cursors relative to the ring; the tests look at one such state.',
     files=QF,
     mechanism=[dict(name='in-place construction and destruction', where='kio/sync/mpsc_queue.h'), dict(name='draining destructor', where='kio/sync/mpsc_queue.h')],
     technique='object-lifetime typestate per slot over all paths, with an inductive scan invariant for the destructor',
     note='Every instantiation (trivial, default-constructible, move-only, non-default-constructible) is analysed; throwing moves are excluded.')

# ------------------------------------------------------------------------------------------------ coroutines
CF = ['kio/core/coro.h', 'kio/sync/sync_wait.h']
prop('C09', 'coro', 'ownership',
     title='Every coroutine frame is destroyed exactly once',
     statement='For every history of creating, moving (including self-assignment), awaiting, detaching and dropping tasks, each coroutine frame is destroyed exactly once and never used afterwards: '
               'an owning task object destroys its frame when it dies or is overwritten, a moved-from task owns nothing, owners cannot be copied, '
               'and a frame that destroys itself at its end (DetachedTask) is never destroyed by anybody else.',
     over=['histories'],
     quant='all sequences of construction, move construction, move assignment (also onto itself), detaching, completion and destruction',
     why='A leak or a double free appears only for particular move and completion orders, often without a visible failure; the tests create tasks in one way.',
     files=CF,
     mechanism=[dict(name='owning coroutine handles', where='kio/core/coro.h'), dict(name='self-destroying DetachedTask', where='kio/core/coro.h')],
     technique='ownership analysis: handle accounting over every path of every member function, with and without aliasing',
     note='Task, DetachedTask and the SyncWait wrapper, all instantiations in the program (quick: a representative set). Destroying a coroutine that is still running elsewhere is the obligation of the caller and not claimed.')
prop('C10', 'coro', 'starts',
     title='Awaiting a task runs it exactly once and resumes exactly its awaiter',
     statement='A task does not run before it is awaited; awaiting it records the awaiter before the task can run, starts it exactly once, and when it finishes exactly the recorded awaiter is resumed, once '
               '(or nothing, if nobody awaits it). A task is reported ready only if it has finished.',
     over=['schedules', 'histories'],
     quant='all chains of awaiting coroutines, all completion times relative to the await, on any thread',
     why='A task that starts early or stores its continuation late works whenever the task really suspends, and loses its awaiter or runs twice only when it completes at once or on another thread.',
     files=['kio/core/coro.h'],
     mechanism=[dict(name='lazy start and symmetric transfer', where='kio/core/coro.h')],
     technique='typestate over the awaiter protocol (ready, suspend, final suspend) on all paths',
     note='That the compiler-generated coroutine code calls these functions in the standard order is trusted.')
prop('C11', 'coro', 'results',
     title='Results and exceptions of tasks reach the awaiter',
     statement='Whatever value a task returns is the value its awaiter gets; if the body ends with an exception, exactly that exception is rethrown to the awaiter (never swallowed, never rethrown when there is none). '
               'This holds for value, void and move-only results and for SyncWait.',
     over=['inputs', 'histories'],
     quant='all result types and values, all exceptions, every await and SyncWait',
     why='Exception paths through coroutine chains are rarely exercised by tests and a swallowed exception looks like success.',
     files=CF,
     mechanism=[dict(name='promise result storage', where='kio/core/coro.h'), dict(name='SyncWait wrapper promise', where='kio/sync/sync_wait.h')],
     technique='writer/reader agreement analysis of the promise: stored alternative versus the alternative read, on all paths',
     note='Value identity is checked for scalar results, the alternative and the storage used for class types; the standard variant and exception_ptr are trusted.')
prop('C12', 'coro', 'syncwait',
     title='SyncWait returns only after the task has finished, and always then',
     statement='SyncWait starts the task once and blocks the calling thread until the task has finished on whatever thread; completion is signalled exactly once, at the final suspension of the wrapper and to the event the caller waits for, '
               'nothing touches the frame after that, and the result is read and the frame destroyed only after the wait.',
     over=['schedules'],
     quant='all interleavings of the waiting thread with the thread that completes the task, including completion before the wait begins',
     why='A signal sent one step too early leaves a window in which the waiter destroys the frame that is still running; tests pass unless the threads meet in that window.',
     files=['kio/sync/sync_wait.h'],
     mechanism=[dict(name='completion event', where='kio/sync/sync_wait.h')],
     technique='event-order typestate over SyncWait, the wrapper promise and its awaiters on all paths',
     note='std::latch is trusted.')

# ------------------------------------------------------------------------------------------------ logger
LF = ['kio/core/async_logger.h']
prop('C13', 'logger', 'delivery',
     title='Every accepted log message is written, once, in order, even at shutdown',
     statement='A message the logger accepts into its queue is written exactly once and in queue order without needing a later message: the consumer thread is woken after every accepted message, empties the queue before it waits again, '
               'and a final time before it ends; flush() returns only when everything queued before is written; destruction asks the thread to stop, wakes it, waits for it and only then releases its descriptor. '
               'Only one thread takes messages out of the queue at a time. Any queue size can be asked for.',
     over=['schedules', 'histories'],
     quant='all interleavings of any number of logging threads, flush() calls, the consumer thread and destruction; all queue sizes',
     why='A wakeup that comes too early or a drain that stops too early only loses messages in particular interleavings, at quiet times or at shutdown; the tests log in bulk and sleep.',
     files=LF,
     mechanism=[dict(name='wake after push', where='kio/core/async_logger.h Logger::log'), dict(name='consumer loop and flush', where='kio/core/async_logger.h Logger::consume_loop'),
                dict(name='stop protocol', where='kio/core/async_logger.h Logger::~Logger')],
     technique='typestate over producer, consumer and shutdown protocols on all paths, lockset for the single consumer',
     note='A message that finds the queue full is dropped by design (reported on stderr). The eventfd semantics and the thread library are trusted; the queue itself is C07.')
prop('C14', 'logger', 'content',
     title='A log line is complete and its own, and exists exactly if its level passes',
     statement='A log call produces a message exactly if its level is at least the configured one and logging is not disabled. The message carries the level, source file, function, line, thread and time of its log statement and the complete formatted text, '
               'however long, or an error text if formatting fails. Moving it through the queue keeps all of that, and the line that is written shows level name, time, thread, file, line and text.',
     over=['inputs', 'histories'],
     quant='all levels and thresholds, all text lengths (around the 256-byte inline buffer and beyond), all sequences of moves',
     why='A span left pointing into a moved-from or overwritten slot shows another message\'s text only if the slot has been reused; the tests use short texts and one level.',
     files=LF,
     mechanism=[dict(name='small/large message storage', where='kio/core/async_logger.h LogMessage'), dict(name='level filter', where='kio/core/async_logger.h Logger::should_log'),
                dict(name='formatting of the line', where='kio/core/async_logger.h Logger::write')],
     technique='value-flow analysis from the log statement to the queued message and from there to the output, per level and threshold; aliasing analysis of the moves',
     note='Level x threshold is enumerated completely (5 x 6). std::format is trusted.')

MF = ['kio/metrics/serializer.cpp', 'kio/metrics/serializer.h', 'kio/metrics/utils.h', 'kio/metrics/model.h', 'kio/metrics/registry.h', 'kio/core/metrics_collector.cpp']

prop('C15', 'metrics', 'exposition',
     title='Metrics text is well-formed, complete and exact for every name, label and value',
     statement='PrometheusTextSerializer::Serialize writes every family of the snapshot exactly once as a HELP and a TYPE line followed by one line per sample, each line in the Prometheus text format and carrying the name of its own family, '
               'with every label of the sample exactly once as key="value". Label values and help texts are escaped (backslash, double quote in label values, newline) and nothing else in them changes; label names come out as legal names; '
               'the type is the family\'s (counter, gauge); a sample value is written with all its digits, so that it reads back as the same number.',
     over=['inputs'],
     quant='all snapshots: any number of families, samples and labels (none included), any characters in help texts, label names and label values, any value',
     why='Tests could sample a few snapshots; there are none in the repository. A missing escape or a lost digit shows only for particular characters or magnitudes.',
     files=MF[:4],
     mechanism=[dict(name='text serializer', where='kio/metrics/serializer.cpp PrometheusTextSerializer::Serialize'), dict(name='escaping', where='kio/metrics/utils.h SanitizeLabelValue, SanitizeHelp, SanitizeLabelKey'),
                dict(name='type names', where='kio/metrics/utils.h ToString')],
     technique='abstract interpretation of the text that is built in the transition monoid of the line grammar, with per-family/sample/label counters; per-character dataflow through the escaping functions',
     note='The grammar is the Prometheus text format as kio writes it (blank lines between families allowed). Metric names are taken to be legal. std::format("{}", double) is trusted to round-trip.')

prop('C16', 'metrics', 'registry',
     title='A scrape asks every registered collector once and reports what it says',
     statement='MetricsRegistry is one object whose list of collectors is only touched under its mutex; Register adds the given collector, and every Scrape has each registered collector fill one fresh snapshot exactly once and returns the text of that snapshot. '
               'In a snapshot there is one family per name: BuildFamily returns the family of that name or a new one made of its arguments, and MetricFamily::Add stores the given labels and value unless the family is at its limit. '
               'The worker collector exports every counter of WorkerStats exactly once, under its own name and type and labelled with the id of its worker.',
     over=['inputs', 'schedules', 'histories'],
     quant='all interleavings of Register and Scrape, all sets of collectors, all sequences of BuildFamily and Add',
     why='Races and duplicate families need concurrent scrapes or several collectors; the repository has no test of the registry.',
     files=['kio/metrics/registry.h', 'kio/metrics/model.h', 'kio/core/metrics_collector.cpp'],
     mechanism=[dict(name='registry', where='kio/metrics/registry.h MetricsRegistry'), dict(name='snapshot', where='kio/metrics/model.h MetricSnapshot::BuildFamily, MetricFamily::Add'),
                dict(name='worker counters', where='kio/core/metrics_collector.cpp WorkerMetricsCollector::Collect')],
     technique='lock-set analysis of the registry, typestate over the collectors of a scrape and the families of a snapshot, exhaustive field-to-metric mapping of WorkerStats',
     note='A reference returned by BuildFamily is treated as dead once another family is made (vector growth).')

prop('C17', 'errors', 'errors',
     title='Error values keep their meaning: category, message, conversion, propagation',
     statement='Error::from_errno keeps the errno and classifies it: Success exactly for 0, 1000-1999 as Uring, 2000-2999 as Serialization, 3000-3999 as Application, 4000-4999 as Tls, and the POSIX errnos as Network (connection, address, host and network errors), '
               'File (paths, files, space), SystemResource (memory, descriptors, locks, cancellation) or Device. Every k* code of errors.h has a value of its own in the range of its family and a message of its own; a system errno has its system message. '
               'A formatted Error shows category, message and value. is_success is true exactly for the Success category. KIO_TRY hands on exactly the error it was given, and otherwise yields exactly the value.',
     over=['inputs'],
     quant='all int error values, all codes declared in errors.h, all categories',
     why='The repository has no test of errors.h; callers branch on categories and codes, and a misplaced bound or a duplicated value is wrong only for particular codes.',
     files=['kio/core/errors.h'],
     mechanism=[dict(name='classification', where='kio/core/errors.h CategoryFromErrno'), dict(name='messages', where='kio/core/errors.h ErrorValueToString, CategoryToString, std::formatter<kio::Error>'),
                dict(name='propagation', where='kio/core/errors.h KIO_TRY')],
     technique='partial evaluation of the classification and message functions over value ranges and over every declared code; value-flow through the factories, the formatter and an instantiation of KIO_TRY',
     note='The POSIX table checked is the one of the pinned source, less EFAULT and EINVAL, whose category is arbitrary.')

prop('C18', 'sync', 'check_baton',
     title='A baton wakes its waiter exactly once per signal, and never too early or late',
     statement='AsyncBaton: wait() finishes only once the baton is signalled, and a notify() from any thread at any moment either is seen by the waiter before it suspends or posts the suspended waiter, once, to the owner worker. '
               'wait_for() returns true only if the baton was signalled and false only once the given duration has elapsed (or no timer could be set up); it finishes only when neither a post of notify() nor its timer can still resume its coroutine, '
               'its operation slot is given back or aimed at a no-op, and the kernel no longer needs memory of its frame. notify() is idempotent, uses nothing of the baton once its waiter is posted, and what was written before it is visible after the wait. '
               'ready() tells whether the baton is signalled; reset() and a new baton are not.',
     over=['schedules', 'histories', 'fault_sequences'],
     quant='all interleavings of one waiter (wait or wait_for) with any number of notify() calls, both orders of timer completion and signal, all durations, submission queue full or not',
     why='The races are windows of nanoseconds between a notifier, the waiter\'s registration and the timer completion; tests of it cannot even be linked in this environment.',
     files=['kio/sync/baton.h'],
     mechanism=[dict(name='signal', where='kio/sync/baton.h AsyncBaton::notify'), dict(name='wait', where='kio/sync/baton.h AsyncBaton::wait'), dict(name='timed wait', where='kio/sync/baton.h AsyncBaton::wait_for')],
     technique='thread-modular abstract interpretation (rely/guarantee): typestate of registration, pending post and timer, with the other side\'s moves interposed before every atomic operation and at every suspension; memory-order rules',
     note='One waiter at a time, as documented. wait() is called on the owner thread, as documented. A post that is dropped because the task queue is full is the subject of the worker properties.')

prop('C19', 'sync', 'check_event',
     title='An event wakes every waiter exactly once and lets later waiters pass',
     statement='AsyncEvent: every coroutine that waits before notify() is posted to the owner worker exactly once by it, one that waits at the same time is either posted or does not suspend, and one that waits later does not suspend, until reset(). '
               'No waiter is lost, skipped, posted twice, or read after it has been posted; a wait returns only when the event has been set, and what was written before notify() is visible after it. is_set() tells the state; reset() never discards waiters.',
     over=['schedules', 'histories'],
     quant='all numbers of waiters, all interleavings of their registration with notify()',
     why='Losing or double-posting a waiter needs a registration between two instructions of notify(); the event test of the repository did not even compile at the pinned commit.',
     files=['kio/sync/event.h'],
     mechanism=[dict(name='registration', where='kio/sync/event.h AsyncEvent::Awaiter::await_suspend'), dict(name='broadcast', where='kio/sync/event.h AsyncEvent::notify')],
     technique='thread-modular abstract interpretation of the waiter stack: compare-and-swap protocol, publication before registration, node typestate in the traversal, memory-order rules',
     note='wait() is called on the owner thread, so a registered awaiter is resumed only after its suspension is complete. The event outlives its waiters.')

prop('C20', 'sync', 'check_when_any',
     title='when_any answers with the first task to finish and runs all of them',
     statement='when_any starts every given task exactly once; the first one to finish, and only that one, records its own index and then signals the waiting coroutine; when_any returns that index after the signal. '
               'Losers run on to their end, keep the common state alive and never change the answer.',
     over=['schedules', 'histories'],
     quant='all orders in which the tasks finish, including before when_any waits',
     why='A late task that overwrites the winner or a signal before the winner is recorded shows only in particular orders of completion.',
     files=['kio/sync/when_any.h'],
     mechanism=[dict(name='race', where='kio/sync/when_any.h when_any, detail::spawn_tasks_impl'), dict(name='claim', where='kio/sync/when_any.h detail::run_and_notify, detail::WhenAnyState::try_win')],
     technique='ownership and typestate dataflow: linear consumption of the tasks by runners, claim-then-signal order in each instantiated runner, constant evaluation of indices',
     note='Judged on an instantiation with three tasks of two types. Tasks that end with an exception are the subject of C11.')

# ------------------------------------------------------------------------------------------------ worker: operations
prop('C21', 'uring', 'check_operations',
     title='Each asynchronous operation submits its arguments and returns the kernel answer',
     statement='Every asynchronous operation of the worker (accept, connect, read, write, positional and vectored forms, open, close, fsync, fallocate, truncate, unlink, poll, sendmsg, splice, sleep) submits exactly one request: '
               'the kernel operation of its name with the given descriptor, buffer, length, position and flags, a length too large for the request being shortened and never wrapped. '
               'It returns the kernel\'s result for that same request: a result of at least 0 as the value, a negative one as the error with exactly that errno; when no request can be submitted it returns an error without waiting. '
               'The operation and byte counters grow by exactly what has been done.',
     over=['inputs', 'fault_sequences'],
     quant='all arguments of every operation, all results of the kernel, submission queue full and operation pool exhausted at every point',
     why='The stable tests run no worker at all; an exchanged offset and length, a truncated 64-bit length or an error value of the wrong sign needs particular arguments or kernel faults.',
     files=['kio/core/worker.cpp', 'kio/core/worker.h', 'kio/core/uring_awaitable.h'],
     mechanism=[dict(name='operations', where='kio/core/worker.cpp Worker::async_*'), dict(name='submission and answer', where='kio/core/uring_awaitable.h IoUringAwaitable')],
     technique='interprocedural value-flow from the parameters to the prepare call and from the stored result to the returned value, with typestate of submission entry and operation id',
     note='io_uring itself and the liburing prepare functions are modelled by their documentation. That the stored result belongs to the request is C23.')

prop('C22', 'uring', 'check_exact',
     title='Exact transfers move all bytes, in order, or report an error',
     statement='async_read_exact, async_write_exact and their positional forms report success only after every byte of the buffer has been transferred once and in order: each further request begins where the last one ended, in the buffer and in the file, and never reaches past the end of the buffer. '
               'A short transfer is continued, end of file and a kernel error are reported as errors. '
               'async_sendfile moves exactly the requested range from the file through its pipe to the destination, leaves nothing in the pipe on success and closes both ends of the pipe on every exit.',
     over=['inputs', 'fault_sequences'],
     quant='all lengths and offsets and every sequence of short transfers, errors and end-of-file answers by the kernel',
     why='Short transfers are rare on local files and sockets; tests never see the second and third round of these loops.',
     files=['kio/core/worker.cpp'],
     mechanism=[dict(name='exact loops', where='kio/core/worker.cpp Worker::async_*_exact*'), dict(name='sendfile', where='kio/core/worker.cpp Worker::async_sendfile')],
     technique='loop invariants over ghost counters (bytes moved, bytes in the pipe) inferred by numeric abstract interpretation; typestate of the pipe ends',
     note='Files longer than 2^62 bytes and counts above PTRDIFF_MAX are outside. Cancellation in the middle of a transfer is not covered.')

# ------------------------------------------------------------------------------------------------ worker: completions
prop('C23', 'worker', ['check_slots', 'check_completions'],
     title='Every completion reaches exactly the coroutine that waits for it',
     statement='The numbers that tie a request to its coroutine are unique: a number is handed out only while it is free, becomes free once, after the operation has completed, and lies inside the pool, which only grows, never past its maximum; no number is lost. '
               'Every completion the kernel delivers is handled once, in order: its result is stored in the slot of its own number before the coroutine of that slot is resumed, exactly once, and the slot is released after that. '
               'A wake-up resumes every posted coroutine once and re-arms the wake-up read unless the worker stops; all handled completions, and no others, are given back to the kernel. '
               'A reference into the pool is not used across a resumed coroutine, which may make the pool grow.',
     over=['histories', 'schedules'],
     quant='all sequences of completions and wake-ups, every pool size and growth factor, whatever the resumed coroutines do',
     why='The stable tests run no worker. Pool growth while operations are in flight, a batch of several completions around a wake-up, and a full submission queue at re-arming need particular loads.',
     files=['kio/core/worker.cpp', 'kio/core/worker.h'],
     mechanism=[dict(name='slots', where='kio/core/worker.cpp Worker::get_op_id, release_op_id'), dict(name='completions', where='kio/core/worker.cpp Worker::process_completions'), dict(name='wake-up read', where='kio/core/worker.cpp Worker::submit_wakeup_read, initialize')],
     technique='numeric abstract interpretation of the free list and the ring position with ghost counters (free, next, seen, returned), typestate per completion',
     note='The kernel is trusted to deliver only numbers that were submitted, each once. Single-threaded access to the slots rests on C24 and the single-issuer ring.')

# ------------------------------------------------------------------------------------------------ worker: posting and shutdown
prop('C24', 'worker', 'check_post',
     title='A posted coroutine wakes its worker, and stopping always takes effect',
     statement='A coroutine posted to a worker is put into the queue of that worker once and the worker is woken after that, never before, by a write that cannot block. The first request to stop makes the stop visible before it wakes the worker; later requests change nothing. '
               'The loop submits what has been prepared and handles completions in every round and ends only when a stop was requested. '
               'A worker reports that it is ready only after its ring and thread id are set, reports its end after its loop has ended, each once and on every way out including failures, and touches nothing of itself after it has reported its end. '
               'A coroutine that switches to a worker continues at once on the thread of the worker and is otherwise suspended and posted exactly once. Transient kernel results do not end a worker, fatal ones do. A destroyed worker closes its ring if it has one, and its wake-up descriptor, once.',
     over=['schedules', 'fault_sequences'],
     quant='all interleavings of posting, stopping and the loop, failures of the kernel calls and of the start callback at every point',
     why='A lost wake-up or a use after the end is a race of a few instructions between two threads; no stable test runs a worker.',
     files=['kio/core/worker.cpp', 'kio/core/worker.h'],
     mechanism=[dict(name='post and wake-up', where='kio/core/worker.cpp Worker::post, request_stop, wakeup_write'), dict(name='loop', where='kio/core/worker.cpp Worker::loop, loop_forever'), dict(name='switch', where='kio/core/worker.h SwitchToWorker')],
     technique='typestate on each side of the protocol (queue before wake-up, stop before wake-up, look after drain), order of latch signals against every later use of the object, on all paths including exceptions',
     note='The queue itself is C07 and C08, the drain at a wake-up C23. Known finding: a post to a full queue drops the coroutine.')

prop('C25', 'pool', 'check_pool',
     title='The pool runs every worker on one thread and ends them all before it goes',
     statement='A pool is made of exactly the requested number of workers, at least one, each numbered by its position and made with the configuration and callback of the pool; each runs its loop once on a thread of its own, and the pool is handed out only after all are ready. '
               'Looking up a number yields that worker or none; the worker of a key depends on the key alone and always exists. '
               'Stopping the pool asks every worker to stop before it waits for any of them or joins its thread, returns after all have ended, and does nothing when repeated; no worker is destroyed while its thread runs, also when the pool is just destroyed.',
     over=['configurations', 'schedules'],
     quant='all numbers of workers, keys and ids, stop called any number of times and from the destructor',
     why='No stable test makes a pool; with the usual few workers a missed last worker or a wrong order of join and stop shows only as a rare hang.',
     files=['kio/core/worker_pool.cpp', 'kio/core/worker_pool.h'],
     mechanism=[dict(name='start', where='kio/core/worker_pool.cpp IOPool::IOPool'), dict(name='stop', where='kio/core/worker_pool.cpp IOPool::stop'), dict(name='lookup', where='kio/core/worker_pool.cpp IOPool::get_worker, get_worker_id_by_key')],
     technique='per-element typestate over the walks through the workers (every element gets each step once), position counters for indexed loops, member order of the class',
     note='Failure to create a thread half-way through the constructor is outside.')

# ------------------------------------------------------------------------------------------------ system calls, descriptors
prop('C26', 'net', 'check_failures',
     title='A failed system call is reported with its own reason, never as success',
     statement='Whenever a system call that an operation needs fails, the operation reports a failure, and the error it reports is the reason of exactly that call: errno is read before anything that may change it, kernel results are negated once, and no error is reported with code 0 or a made-up code. '
               'Sockets are made with the family that was asked for, as close-on-exec and non-blocking stream sockets; a listening socket is only reported after its address, reuse options, non-blocking mode and backlog have all been set, in a working order. '
               'Tuning options whose refusal leaves the socket usable may be refused silently.',
     over=['fault_sequences'],
     quant='every system call of the listed operations failing with any errno, in any combination',
     why='Each failing call needs its own fault; tests never see socket(), bind(), fcntl() or the eventfd write fail, nor logging that changes errno in between.',
     files=['kio/net/net.cpp', 'kio/tls/listener.cpp', 'kio/core/worker.cpp', 'bitcask/src/common.cpp', 'bitcask/include/common.h'],
     mechanism=[dict(name='socket set-up', where='kio/net/net.cpp'), dict(name='listener', where='kio/tls/listener.cpp TlsListener::bind'), dict(name='start and wake-up of a worker', where='kio/core/worker.cpp Worker::Worker, initialize, wakeup_write')],
     technique='path-sensitive taint of errno: every failing call defines it, logging, closing and awaiting destroy it; the value that reaches each error is compared with the failed call of the path',
     note='The errors of the io_uring operations themselves are C21, of the transfer through a pipe C22.')

prop('C27', 'net', ['check_owners', 'check_ownership'],
     title='Every descriptor has one owner and is closed exactly once',
     statement='Every descriptor the library opens is, on every path including failures, either closed exactly once or handed over to exactly one owner or to the caller; no descriptor is used or handed out after it was closed. '
               'The owning classes close their descriptor when they are destroyed or assigned to, give it up when they are moved from or released, survive assignment to themselves and cannot be copied.',
     over=['histories', 'fault_sequences'],
     quant='every failure of every step between opening a descriptor and its last owner, all sequences of moves, releases and assignments',
     why='A leak or a double close needs the failure of one particular step; a double close only shows when another thread opens a file in between.',
     files=['kio/net/socket.h', 'kio/net/net.h', 'kio/net/net.cpp', 'kio/fs/fs.h', 'kio/fs/fs.cpp', 'kio/tls/listener.cpp', 'kio/tls/stream.cpp', 'bitcask/include/file_handle.h', 'bitcask/src/compactor.cpp', 'bitcask/src/partition.cpp', 'bitcask/src/fd_cache.cpp', 'bitcask/src/data_file.cpp'],
     mechanism=[dict(name='owners', where='kio/net/socket.h Socket, kio/net/net.h FDGuard, kio/fs/fs.h File, bitcask/include/file_handle.h FileHandle, TlsStream, TlsListener, DataFile'), dict(name='opening', where='kio/net/net.cpp, kio/tls/listener.cpp, kio/fs/fs.cpp, bitcask/src')],
     technique='ownership typestate of every opened descriptor along all paths (raw, owned, closed, handed out) and a contract per method of each owning class',
     note='Descriptors inside OpenSSL and liburing are theirs. That a descriptor of the cache of open files is held while it is read from is C31. The eventfd and ring of a worker are C24, the pipe of sendfile C22.')

prop('C28', 'addr', ['check_resolve', 'check_uses'],
     title='Addresses are resolved, used and told completely',
     statement='For every host and port, an address that is resolved successfully has the family, length, port (in network order) and bytes of that host, and its ip, port and family fields say the same; resolving reads no text beyond its end, writes nothing beyond the address, '
               'and frees every list of addresses exactly once. Sockets are made in the family of the address they are bound or connected to, and with the whole address. The address of an accepted peer is received with its whole length, and a TLS stream that is accepted tells the ip and port of its peer.',
     over=['inputs', 'configurations'],
     quant='all hosts and ports, IPv4 and IPv6 literals and names, all answers of the resolver',
     why='A test resolves 127.0.0.1; IPv6, names and peers that are looked up are other paths, and a port in the wrong order is still a port.',
     files=['kio/net/net.cpp', 'kio/net/net.h', 'kio/core/worker.h', 'kio/tls/listener.cpp', 'kio/metrics/server.cpp'],
     mechanism=[dict(name='resolve_address', where='kio/net/net.cpp'), dict(name='populate_from_storage', where='kio/net/net.h'), dict(name='async_accept', where='kio/core/worker.h')],
     technique='dataflow of every field of a socket address along all paths (bytes, byte order, length, family), typestate of the resolver list, agreement of socket family and address at every bind and connect',
     note='Which of the answers of a name is used is not specified.')

prop('C29', 'tls', ['check'],
     title='A TLS stream talks only through a finished handshake in kernel TLS',
     statement='An accepted or connected TLS stream is handed out, and a handshake reported done, only after OpenSSL completed the handshake of the role of the stream and kernel TLS is active in both directions; a client that names its server sends that name and has it checked. '
               'Errors are looked up for the call that failed, with an error queue that nothing else filled, and the stream waits for what OpenSSL asked for, on its own socket. A context honours its configuration (lowest version, verification, files, ciphers, protocols), '
               'a server never sends session tickets, and every SSL and SSL_CTX object is freed exactly once. Reads return exactly the bytes OpenSSL had buffered, or those of the socket.',
     over=['configurations', 'fault_sequences', 'histories'],
     quant='all configurations, every answer of every OpenSSL call, all sequences of waits of a handshake and all moves of streams and contexts',
     why='Kernel TLS is not available in the tests; a failure of one direction, an error left in the queue or an option that is ignored still lets a handshake with a well-behaved peer succeed.',
     files=['kio/tls/stream.cpp', 'kio/tls/stream.h', 'kio/tls/context.cpp', 'kio/tls/context.h', 'kio/tls/listener.cpp'],
     mechanism=[dict(name='handshake', where='kio/tls/stream.cpp TlsStream::async_handshake, do_handshake_step, enable_ktls'), dict(name='context', where='kio/tls/context.cpp TlsContext::make'), dict(name='listener and connector', where='kio/tls/listener.cpp')],
     technique='typestate of SSL and SSL_CTX objects over all paths with every OpenSSL call succeeding or failing: handshake, kernel TLS per direction, name, error queue, options, frees',
     note='A stream a program makes itself and uses without a handshake is not covered, nor what OpenSSL and the kernel do.')

prop('C30', 'bitcask', ['check_codec'],
     title='A store entry is decoded from exactly its own checked bytes, or not at all',
     statement='Decoding bytes of unknown content never reads outside them. An entry is returned only if the checksum of exactly its payload matches the stored one, and then with the place of the next entry; more bytes are asked for exactly while the header (12 bytes) or the payload it announces is incomplete; everything else is an error. '
               'Encoding writes the checksum of the payload, its length and the payload where decoding looks for them.',
     over=['inputs', 'crash_points'],
     quant='all byte sequences, including torn and damaged ones with any length field, and all entries',
     why='A torn or damaged file holds any length and any checksum; the tests of the store are not built here and try a few.',
     files=['bitcask/src/entry.cpp', 'bitcask/include/entry.h', 'bitcask/include/common.h'],
     mechanism=[dict(name='decode', where='bitcask/src/entry.cpp DataEntry::deserialize'), dict(name='encode', where='bitcask/src/entry.cpp DataEntry::serialize')],
     technique='symbolic ranges of every read with exact wrapping arithmetic, checksum and payload provenance on every return path; layout of the encoder matched against the decoder',
     note='ylt and crc32c are not installed: their interfaces are stubs, their behaviour is trusted. bitcask is not part of the build, so no change of it can be demonstrated by the tests here.')

prop('C31', 'bitcask', ['check_ops'],
     title='A put, get or delete of the store says what the disk and the key directory hold',
     statement='A put that succeeds has written the whole entry, with the key and value given, to the active file (and synced it when every write is to be synced), and the key then leads to exactly that place and time; one that fails leaves the key where it was and reports the failure. '
               'A delete that succeeds has erased the key and written its tombstone, or the key was not there. A get reads exactly the place the key leads to and returns the value found there, or nothing only if the key is missing or deleted; it uses no reference into the key directory after it was suspended, and the descriptor it reads from stays open until the read is done: the cache of open files replaces no entry that is in use. '
               'The next entry goes behind the last one, and a file is synced and cut off behind its last entry before it is closed. Operations on a partition may overlap.',
     over=['fault_sequences', 'schedules', 'histories', 'inputs'],
     quant='all keys and values, every outcome of every disk operation, all changes other operations make while one is suspended',
     why='A failing sync, a key that changes while a read is pending or a rotation at the wrong moment cannot be provoked by the tests of the store, which are not built here.',
     files=['bitcask/src/partition.cpp', 'bitcask/src/data_file.cpp', 'bitcask/include/partition.h', 'bitcask/src/fd_cache.cpp', 'bitcask/include/fd_cache.h'],
     mechanism=[dict(name='operations', where='bitcask/src/partition.cpp Partition::put, get, del'), dict(name='active file', where='bitcask/src/data_file.cpp DataFile::async_write; Partition::rotate_active_file, seal_active_file')],
     technique='path-sensitive typestate over put, get, delete and seal with every disk operation succeeding or failing: what was written, synced and read where, generation of key directory and cache entries across suspensions, and who holds the descriptor that is read from',
     note='Of the cache of open files, its eviction order is not covered; recovery is C36; statistics are not covered. One finding: overlapping writes take the same place (known_findings.txt).')

prop('C32', 'bitcask', ['check_compaction'],
     title='Compaction loses and resurrects nothing: a source goes when its copies are safe',
     statement='Compacting a file looks at every whole entry of it, at the place it was read from. An entry is copied if the key directory still leads to exactly it, and left behind otherwise. Its key is led to the copy, at the place, length and time the copy has, only after the copy and its hint were written whole, '
               'and only if the key still leads to the entry that was copied. The source file is removed only when its end was reached, all copies were written and they and their hints are on disk; a failed read, write or sync is reported and keeps the source.',
     over=['crash_points', 'fault_sequences', 'schedules', 'inputs'],
     quant='all contents of the source file, all buffer sizes and short reads, every outcome of every disk operation, all writes and deletes of other coroutines between the steps',
     why='Whether a source file is removed before its copies are on disk shows only when the power fails in between; a put between two steps of a compaction needs an exact interleaving. The store is not built or tested here.',
     files=['bitcask/src/compactor.cpp', 'bitcask/include/compactor.h'],
     mechanism=[dict(name='compaction', where='bitcask/src/compactor.cpp compact_files, compact_one_file, stream_and_compact_file, parse_entries_from_buffer'), dict(name='commit', where='bitcask/src/compactor.cpp process_parsed_entry, commit_batch, cleanup_source_files')],
     technique='interprocedural path-sensitive typestate in assume-guarantee steps (entry, batch, stream, file): place and length of every entry as symbolic offsets, compare-before-store on key directory nodes, written/synced state of the destination at every unlink',
     note='Which of several files is the newest when the store is opened again is not covered (C33, not applicable). One finding: entries behind a damaged spot (known_findings.txt).')

prop('C36', 'bitcask', ['check_recovery'],
     title='Opening the store replays each file faithfully',
     statement='When a partition is opened, each of its files is read from its beginning to its end or to the first damage, by its hints or, if they cannot be read whole, by its entries. Each entry leads its key to exactly the place it has in that file, with its length and time; '
               'a tombstone makes the key be forgotten, and nothing else does. What follows a damaged entry is not taken for entries. A failed read is not taken for the end of a file, and hints that could not be read are not reported to be. The store is not opened without an active file.',
     over=['crash_points', 'inputs', 'fault_sequences'],
     quant='all contents of data and hint files, all buffer sizes and short reads, every outcome of every read',
     why='Files end anywhere after a crash, entries fall on every buffer boundary and any read can be short or fail; the store is not built or tested here.',
     files=['bitcask/src/partition.cpp'],
     mechanism=[dict(name='recovery', where='bitcask/src/partition.cpp Partition::recover, try_recover_from_hint, recover_from_hint_file'), dict(name='data files', where='bitcask/src/partition.cpp Partition::recover_from_data_file, recover_data_from_buffer')],
     technique='path-sensitive typestate per entry (read, passed over, in effect) with symbolic file offsets modulo 2^64; per file a typestate of end, damage and failed reads; assume-guarantee between file, buffer and entry',
     note='The content of one file only: in which order files override each other is C33 (not applicable). Statistics are not covered.')


# ------------------------------------------------------------------------------------------------ not applicable
na('C33', 'The newest write of a key wins when the store is opened again',
   'After any history of puts, deletes, compactions, clean closes and crashes, opening the store again leads each key to its latest acknowledged value, or to none if it was deleted.',
   ['histories', 'crash_points'],
   'all histories of operations, compactions and crash points, all contents the files can have then',
   'The answer depends on which files exist and what they hold after a whole history, not on a path of one run.',
   ['bitcask/src/partition.cpp', 'bitcask/src/compactor.cpp'], [dict(name='recovery', where='bitcask/src/partition.cpp Partition::recover, recover_from_data_file, recover_from_hint_file')],
   'It relates the contents of several files, written in different runs, through file numbers and clock values; no local, source-level invariant implies it and none holds here (reading shows that recovery applies files by number without comparing times, see DESIGN.md). A model of histories, not a static analysis, would be needed to decide it. The steps that can be decided per path are C30 to C32.')
na('C34', 'Every submitted operation finishes: progress of the event loop',
   'As long as the kernel completes requests, each coroutine that waits for an operation, timer, event or worker is resumed after a bounded time; no worker spins without work and none starves another.',
   ['schedules', 'fault_sequences'],
   'all schedules of workers, posts and completions',
   'Starvation and lost time depend on long schedules.',
   ['kio/core/worker.cpp'], [dict(name='event loop', where='Worker::loop')],
   'Liveness under a scheduler and the fairness of the kernel quantifies over infinite runs; the safety half (no wake-up lost, each completion resumes its coroutine once, stop ends the loop) is decided by C18, C19, C23 and C24.')
na('C35', 'Operations take bounded time and memory under load',
   'Throughput, latency and memory use stay within what the documentation promises for the configured sizes.',
   ['inputs', 'schedules'],
   'all loads',
   'Performance depends on the machine and the load.',
   ['readme.md'], [dict(name='worker', where='Worker::loop')],
   'Durations and resident memory are quantities of a run; no static bound over the source is within reach.')
