"""The property catalogue: writes properties.jsonl and MANIFEST.json (python3 -m lib.catalog)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def F(*fs):
    return list(fs)


def M(*ms):
    return [{"name": a, "where": b} for a, b in ms]


P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, claim=True, reason=None, note=None, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  claim=claim, reason=reason, note=note, level=level, state=state))


prop("C01", "Channels are exactly-once FIFO queues for every schedule",
     "Every value whose send completes on a channel that is drained is received exactly once, unmodified, and no other value is ever received; completed sends, receives, non-blocking attempts and closes on one channel always agree with some order of a FIFO queue of the declared capacity that respects real time. "
     "Every blocked send or receive returns once a partner, free space, a value or a close makes it possible, and operations on a closed channel fail or drain as documented.",
     ["schedules", "histories"], "every interleaving of any number of coroutines on any number of processors, with thread stalls and collections at any point, every capacity and every order of operations and closes",
     "The feature tests run a few fixed channel programs on whatever schedule the host gives; a lost wakeup or reordering that needs two threads between particular instructions is not reached, and no test checks a history against a queue.",
     F("runtime/rt_chan.c", "runtime/rt_chan.h", "runtime/linkco.c", "runtime/processor.c", "std/builtin/chan.n"),
     M(("channel lock, wait queues and ring buffer", "runtime/rt_chan.c rt_chan_send rt_chan_recv rt_chan_close"), ("direct hand-over into a parked coroutine's stack", "runtime/rt_chan.c rt_msg_transmit"), ("park commit releases the channel lock after the switch", "runtime/processor.c co_yield_waiting")),
     ["return values and errors of channel operations in compiled programs"])
prop("C02", "select runs exactly one ready case, atomically",
     "A select runs exactly one case: one that was possible at that moment, with exactly the effect the plain send or receive would have on that channel and no effect on the channels of the other cases; the default case runs only if no case was possible at some moment during the select. "
     "A blocked select returns once any of its cases becomes possible, including by a close, and this holds when several selects, plain operations and repeated cases use the same channels.",
     ["schedules", "histories"], "every interleaving of selecting, sending, receiving and closing coroutines on shared channels, with stalls and collections at any point",
     "The tests run select with one or two fixed partners; two-phase enqueueing on several channels races with hand-over, close and other selects only under rare interleavings.",
     F("runtime/rt_chan.c", "src/linear.c", "runtime/processor.c"),
     M(("lock all channels in address order", "runtime/rt_chan.c rt_chan_select"), ("a parked select is claimed once", "runtime/rt_chan.c waitq_pop"), ("select statement lowering", "src/linear.c linear_select")),
     ["which case body ran, the values it received and what other coroutines received"])
prop("C03", "Mutexes exclude, and every waiter eventually gets the lock",
     "At most one coroutine is between acquiring and releasing a mutex at any time, and writes made inside are seen by the next holder. As long as every holder releases it, every coroutine that asks for the mutex acquires it, including long waiters while others acquire and release it continuously.",
     ["schedules", "histories"], "every interleaving of coroutines that contend, yield, sleep or trigger collections while holding, with stalls at any point and on any number of processors",
     "The tests contend for milliseconds on the host's schedule; lost wakeups and the switch to and from hand-over mode need a particular order of several threads.",
     F("runtime/rt_mutex.c", "runtime/rt_mutex.h", "runtime/linkco.c", "std/co/mutex.n", "runtime/processor.c"),
     M(("state word with locked, woken, starving bits and waiter count", "runtime/rt_mutex.c rt_mutex_lock rt_mutex_unlock"), ("semaphore count against lost wakeups", "runtime/rt_mutex.c rt_mutex_waiter_acquire rt_mutex_waiter_release")),
     ["interleaving of critical sections and values of data they protect"])
prop("C04", "Awaiting a coroutine yields its result after it ended, for every waiter",
     "A coroutine started asynchronously runs its function exactly once with the given arguments. Every await on it returns exactly once, only after the function ended, with the function's own result or, if it failed while being awaited, its own error, whatever the order in which the coroutine ends, awaits register and collections run.",
     ["schedules", "histories"], "every interleaving of start, completion, one or more awaits from any coroutine, and collections, with stalls at any point",
     "The tests await short coroutines in fixed order; the race between completion and registration of the awaiter, and recycling of finished coroutines, is not controlled.",
     F("runtime/processor.c", "runtime/nutils/coroutine.c", "std/builtin/coroutine.n", "std/co/types.n"),
     M(("completion and registration meet under the coroutine's dead lock", "runtime/processor.c rt_coroutine_await coroutine_wrapper"), ("result stored in the future object", "std/builtin/coroutine.n async")),
     ["values and errors returned by await"])
prop("C05", "Sleeping coroutines wake once, never early, and on time",
     "A sleep for a duration returns exactly once and not before that duration has passed on the monotonic clock, independent of wall-clock jumps, of load and of other timers. When the machine is not stalled it returns within a bounded delay, and other coroutines keep running meanwhile.",
     ["schedules", "histories", "fault_sequences"], "every set of concurrent sleeps of any duration, every interleaving, stalls, wall-clock jumps and collections at any point",
     "The tests sleep for real milliseconds and check little; they cannot choose when the event loop's cached time is stale or when a thread stalls.",
     F("runtime/nutils/coroutine.c", "runtime/processor.c", "runtime/sysmon.c", "std/co/co.n"),
     M(("one event-loop timer per sleep", "runtime/nutils/coroutine.c rt_coroutine_sleep"), ("callback makes the coroutine runnable", "runtime/nutils/coroutine.c sleep_timer_cb")),
     ["monotonic time before and after the sleep"])
prop("C07", "Collection never frees or changes anything the program can reach",
     "Whatever a program can still reach through locals, globals, fields, containers, closures, channels or coroutines keeps its contents while collections run concurrently with it, for every order of stores, allocations and collection steps. A collection never stops the program from making progress.",
     ["schedules", "programs", "histories"], "every interleaving of mutating coroutines with the collector, on every number of processors, with collections started at any point",
     "The tests call the collector a few times in quiet programs; a missing barrier or a root missed in one phase loses an object only if a store falls between particular collector steps and the memory is reused.",
     F("runtime/collector.c", "runtime/allocator.c", "runtime/gcbits.c", "runtime/processor.c", "runtime/runtime.c", "src/linear.c"),
     M(("concurrent mark with write barrier and stop-the-world start and end", "runtime/collector.c runtime_gc"), ("per-processor stack scanning and yield safepoints", "runtime/collector.c scan_stack"), ("sweep and bitmap exchange", "runtime/collector.c mcentral_sweep")),
     ["integrity values the program stores in its own data"])
prop("C10", "TCP connections carry byte streams complete, in order and unmodified",
     "What one side reads from a connection is always a prefix of what the other side wrote, in order and unmodified, independently in both directions and for every way the network cuts, delays or merges segments. A completed write reports exactly the bytes it was given, end of stream is reported only after everything written was read, and if data cannot be delivered an error is reported instead of a success, without ending the program.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of readers, writers and acceptors, every segmentation, delay, short read or write, full buffer, reset, refused or aborted connection, with collections at any point",
     "Loopback tests move a few bytes in one piece and see neither partial writes, nor data and end of stream in one wakeup, nor resets between two operations.",
     F("runtime/nutils/tcp.c", "runtime/nutils/tcp.h", "std/net/tcp.n", "runtime/aco/aco.c", "runtime/processor.c"),
     M(("per-connection read and write state handed between the caller and the event loop", "runtime/nutils/tcp.h rt_uv_tcp_read rt_uv_tcp_write"), ("requests to the event loop are queued and handled in order", "runtime/processor.c global_async_send")),
     ["bytes, counts and errors returned by read and write"])
prop("C11", "TCP connects, listens, timeouts and closes end as promised",
     "Connecting, listening, accepting, reading, writing and closing always return: with success, or with an error when the other side refuses, does not answer within the timeout, the port is taken or the connection or server was closed meanwhile, and never before a timeout has passed because of that timeout. Close may be called any number of times and from several coroutines, ends blocked operations, and afterwards every socket has been given back.",
     ["schedules", "fault_sequences", "histories"], "every order and overlap of connects, accepts, reads, writes, timeouts and closes from several coroutines, with refused, reset, aborted and unanswered connections and failing socket calls",
     "The tests open and close a few connections on a healthy loopback; a close that meets a blocked operation or a timer that fires together with its event needs a particular interleaving.",
     F("runtime/nutils/tcp.c", "runtime/nutils/tcp.h", "std/net/tcp.n"),
     M(("closed flag and reference count decide who closes the socket", "runtime/nutils/tcp.h rt_uv_tcp_conn_close rt_uv_tcp_server_close"), ("connect and read timeouts race with completion", "runtime/nutils/tcp.h")),
     ["return values and errors of the operations, monotonic time, open descriptors of the process"])
prop("C12", "UDP sockets deliver whole datagrams from the reported sender",
     "A receive returns exactly one datagram as it was sent to that socket, with the address it came from; the program itself never loses, repeats, merges, cuts or reorders datagrams the network delivered. Sends, binds and receives end with success or an error, close ends blocked receives, may be called more than once and gives the port back.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of senders, receivers and closes, every loss, duplication, delay and reordering by the network, failing sends and socket calls",
     "The tests exchange one datagram on loopback; several queued datagrams, receives started late and closes during a receive depend on the schedule.",
     F("runtime/nutils/udp.c", "runtime/nutils/udp.h", "std/net/udp.n"),
     M(("datagrams are queued on the socket until received", "runtime/nutils/udp.h"), ("close against blocked receives", "runtime/nutils/udp.h rt_uv_udp_close")),
     ["data, address, counts and errors returned by sendto and recvfrom"])
prop("C13", "The HTTP server answers each complete request once, from what was sent",
     "However a request is cut into pieces and whatever other clients do at the same time, the handler runs exactly once per complete request with exactly the method, path, query, headers and body that were sent, and the client gets exactly the response the handler produced. A request that is malformed, incomplete or abandoned never reaches a handler and never disturbs other clients, and closing the server while connections are busy ends it cleanly and gives back its sockets.",
     ["schedules", "fault_sequences", "inputs"], "every segmentation and delay of requests and responses, every interleaving of clients, handlers, collections and server close, with resets, aborted accepts, rude clients and full buffers",
     "The tests send small whole requests one at a time on loopback, so split requests, responses larger than the send buffer and connections that end while a handler runs are not reached.",
     F("runtime/nutils/http.c", "runtime/nutils/http.h", "std/http/http.n", "std/http/uv.n"),
     M(("request collected in a per-connection buffer and parsed by callbacks", "runtime/nutils/http.c on_read_cb"), ("handler coroutine hands the response to the event loop", "runtime/nutils/http.c rt_uv_conn_resp"), ("server close and connection life time", "runtime/nutils/http.c rt_uv_http_close")),
     ["what handlers see, and the bytes clients receive"])


prop("C06", "Every started coroutine runs once and the program ends as main says",
     "Every coroutine that is started runs exactly once and, as long as others give up the processor, keeps getting its turn: nothing that is ready to run is left waiting forever, whoever made it ready. The program ends when its main function ends, however many coroutines are still running or blocked, with exit status 0 if nothing was thrown and with status 1 and the message on standard output if an error was not caught.",
     ["schedules", "programs"], "every interleaving of processors, timers, wakeups, spawns and collections while groups of coroutines yield, block, wake and spawn each other",
     "Starvation and lost wakeups depend on which processor looks at which queue when; a test run sees one lucky order.",
     F("runtime/processor.c", "runtime/processor.h", "runtime/sysmon.c", "runtime/runtime.c", "runtime/nutils/coroutine.c", "runtime/rt_linked.h", "std/co/co.n"),
     M(("dispatch to processors and run queues", "runtime/processor.c rt_coroutine_dispatch, processor_run"), ("waking and yielding", "runtime/processor.c co_ready, co_yield_runnable, co_yield_waiting"), ("end of main and uncaught errors", "runtime/runtime.c, runtime/processor.c coroutine_wrapper, coroutine_dump_error")),
     ["which coroutines ran, exit status and standard output"])

prop("C08", "Repeating bounded work does not make a program grow",
     "A program that repeats the same bounded work settles: memory of objects that are no longer reachable, ended coroutines, ended threads, closed files and closed connections is given back, so that the size of its memory and the number of its open descriptors and threads stop growing, also when operations fail.",
     ["schedules", "fault_sequences", "histories"], "every mix of object, string, coroutine, channel, mutex, timer, error, file, closure, TCP, UDP, HTTP, lookup, child process and large object work, every interleaving with collections, with failing opens, reads, writes, accepts, connects and resets",
     "A leak shows only as growth over many repetitions and often only on an error path that tests take once.",
     F("runtime/collector.c", "runtime/allocator.c", "runtime/processor.c", "runtime/aco/aco.c", "runtime/fixalloc.c", "runtime/linkco.c", "runtime/nutils/tcp.h", "runtime/nutils/udp.h", "runtime/nutils/http.c", "runtime/nutils/fs.c", "runtime/nutils/string.c"),
     M(("sweeping and returning spans", "runtime/collector.c sweep_span, mcentral_sweep"), ("recycling of ended coroutines and their stacks", "runtime/processor.c, runtime/aco/aco.c"), ("release of handles when closed or failed", "runtime/nutils/tcp.h, runtime/nutils/udp.h, runtime/nutils/http.c")),
     ["collected heap size, the runtime's own heap, open descriptors, unreleased threads and address space after each round"])

prop("C15", "File reads and writes do exactly what they report",
     "However many coroutines use files at the same time and however the system cuts, delays or fails single operations, a write that reports n bytes has put exactly those n bytes at its place, a read returns exactly the bytes of the file at its place, and appended data is never lost or mixed. An operation that failed is reported as failed, and no operation, also not one on a file that another coroutine is closing, disturbs another file or another coroutine's buffer.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of opens, reads, writes, positioned reads and writes, seeks, stats and closes by several coroutines, with short reads and writes, interrupted calls, failing calls, full disk and collections in between",
     "Tests use one coroutine on a healthy disk, so short operations, errors and buffers used while the operation is under way on another thread are not reached.",
     F("runtime/nutils/fs.c", "runtime/nutils/fs.h", "std/fs/fs.n", "std/io/io.n"),
     M(("operations handed to the event loop's thread pool", "runtime/nutils/fs.c rt_uv_fs_read, rt_uv_fs_write"), ("descriptor life time and closing", "runtime/nutils/fs.c rt_uv_fs_close"), ("whole-file reading and writing", "std/fs/fs.n")),
     ["results of the calls and the content of the files"])

prop("C19", "A coroutine's own values and errors are not disturbed while it waits",
     "Whatever other coroutines and collections do while a coroutine is suspended, at whatever depth of calls, its local variables, arguments, captured values and pending results are unchanged when it continues. An error thrown in one coroutine is seen by the enclosing handlers of that coroutine only, exactly once, with its own message, and control continues at the right handler.",
     ["schedules", "programs"], "every interleaving of coroutines that share processors and stacks, suspended by yield, sleep, channel, mutex, await and collection at drawn call depths, with errors thrown and rethrown in between",
     "Saved stacks are only mixed up for particular sizes, owners and switch orders on a shared stack; tests run few coroutines with shallow frames.",
     F("runtime/aco/aco.c", "runtime/processor.c", "runtime/nutils/coroutine.c", "runtime/nutils/errort.h", "runtime/collector.c", "src/lower/amd64.c"),
     M(("shared stacks saved and restored on switch", "runtime/aco/aco.c aco_resume, aco_share_stack"), ("errors kept per coroutine", "runtime/processor.c rti_co_throw, runtime/nutils/nutils.c co_has_error, co_remove_error"), ("saved stacks are roots of the collector", "runtime/collector.c scan_stack")),
     ["values read back after each suspension, caught errors"])


prop("C14", "The HTTP client reports the server's answer whole or reports an error",
     "A request reaches the server exactly as it was built, and a response is reported with exactly the status, headers and body the server sent, however the answer is framed, cut or delayed. An answer that breaks off, stalls beyond the time limit or never comes is reported as an error and never as a shorter answer, a failed request leaves no connection open, and a name resolves to exactly the addresses the resolver gave.",
     ["schedules", "fault_sequences", "inputs"], "every segmentation, delay, break and stall of the answer at any byte, lengths and chunks, any letter case of header names, several clients at once, resets, refusals, resolver failures and collections at any point",
     "Tests read small complete answers from a healthy server, so an answer that ends in the middle, a chunk boundary between two segments or a connection that fails after it was opened are not reached.",
     F("std/http/client.n", "std/io/buf.n", "std/net/dns.n", "std/net/url.n", "runtime/nutils/dns.h", "runtime/nutils/tcp.h"),
     M(("status line and headers read from a buffered connection", "std/http/client.n request_t.send"), ("chunked bodies decoded by a reader of their own", "std/http/client.n chunked_reader_t.fill_staging"), ("name lookup handed to the event loop's thread pool", "runtime/nutils/dns.h rt_uv_dns_lookup")),
     ["what the server receives; status, headers, body or error the client reports; open descriptors"])

prop("C16", "Child processes get their input and report all output and their real end",
     "A started process gets exactly the arguments, environment, directory and input it was given, everything it writes to its two outputs arrives complete, in order and unmixed, and every waiter gets its exit status or signal exactly once it has ended. A process that cannot be started is reported as an error, no process, descriptor or memory is left behind, and no other part of the program is disturbed.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of several processes' output, input, closing and end with the coroutines that feed, read and wait for them, with failing starts, children that are killed, stop reading or close their outputs, and collections at any point",
     "Tests run one short command at a time; the end of a process meeting unread output, unwritten input, a collection or several waiters depends on the order of kernel events.",
     F("runtime/nutils/process.c", "runtime/nutils/process.h", "std/process/process.n", "std/io/io.n"),
     M(("process state shared between the event loop and the coroutines that serve its pipes", "runtime/nutils/process.c rt_uv_process_spawn"), ("exit callback against readers and waiters", "runtime/nutils/process.c rt_uv_process_wait"), ("coroutines copying between pipes and readers or writers", "std/process/process.n command_t.spawn")),
     ["arguments and input the child sees, collected output, exit status and signal, remaining children and descriptors"])

prop("C17", "Buffered readers and writers pass on exactly the bytes of their stream",
     "However the stream below delivers or accepts bytes, a buffered reader hands out exactly those bytes in order with none lost, repeated or changed, whichever mix of reading calls is used, and reports the end only at the end. A buffered writer has passed on exactly the bytes it was given once a flush succeeds, and after a failure it never passes on anything behind the gap.",
     ["schedules", "fault_sequences", "inputs"], "every mix of reads of bytes, lines, exact and arbitrary amounts over TCP connections and files whose reads and writes are cut, delayed, interrupted or fail at any point, with line lengths around the buffer size",
     "Tests read from memory or small files in one piece; pieces that end at a buffer border and errors in the middle of a line or flush are not reached.",
     F("std/io/buf.n", "std/io/io.n", "std/net/tcp.n", "std/fs/fs.n"),
     M(("read buffer refilled when a call needs more", "std/io/buf.n reader.fill, reader.read_until"), ("write buffer flushed when full", "std/io/buf.n writer.flush, writer.write")),
     ["bytes returned by each call, bytes that arrived below"])

prop("C18", "A build that reports success has written the whole program",
     "A build that reports success has put exactly the program on the disk that the same sources always give, whatever the disk did meanwhile: cut reads and writes, directory entries in any order, failing calls, a full disk. A build that cannot do so ends with an error and neither hangs nor crashes, and when it fails, is killed or loses power at any point the previously built program is still there unchanged. Once the disk works again the same command builds the program, without any cleaning up by hand.",
     ["fault_sequences", "crash_points", "configurations"], "every sequence of failing, cut and reordered file and directory calls of the compiler and linker, a kill at every such call, every earlier content of memory and every start time, for executables and for archives of the other targets",
     "The tests build on a healthy disk and look only at whether the program runs; errors at the end of a write, a listing that breaks off, a kill between two steps and a dependence on directory order never occur there.",
     F("src/build/build.c", "src/ld/ld.c", "src/ld/ld_input.c", "src/binary/elf/linker.c", "src/binary/mach/mach.h", "src/binary/coff/coff_writer.c", "src/build/archive.c", "src/module_index.c", "src/package.c", "utils/helper.h"),
     M(("object files written per module, then linked", "src/build/build.c build"), ("output written beside its place, synchronised and renamed", "src/ld/ld.c"), ("sources found by listing directories", "src/module_index.c")),
     ["exit status of the compiler and the files it leaves"],
     note="Seeded search over disk faults, kills and directory orders below the real compiler and linker; finds violations with high probability, does not prove absence. Failing stat and access calls are not injected. The compiler is single threaded, so there is no schedule to vary.")

PURE = "The statement is about a deterministic function of its input, without concurrency, time or I/O: no schedule, fault or history can change the outcome, so simulating them would only be input generation under another name."
prop("C20", "Signals reach every registered channel, and only those",
     "A signal sent to the program while a channel is registered for it is delivered to that channel, if it has room, at least once after it was sent and at most once per signal sent, whatever the program is doing at that moment; a channel gets no signal it is not registered for and nothing more once its registration is withdrawn. "
     "A signal that ends programs and for which nobody is registered (any more) ends the program with the matching status, others are ignored, and no signal ever blocks or damages the program.",
     ["schedules", "fault_sequences", "histories"], "every arrival point of every signal in every thread, every set of listeners and order of registrations, repeated registrations and withdrawals, with stalls and collections at any point",
     "The only test that uses signals waits for somebody to send one; a signal that arrives while a thread is inside the runtime's own signal code, or twice in a row, is never produced.",
     F("runtime/nutils/rt_signal.h", "runtime/nutils/rt_signal.c", "std/os/signal.n", "runtime/rt_chan.c", "runtime/collector.c"),
     M(("handler notes the signal", "runtime/nutils/rt_signal.h signal_handle"), ("a coroutine hands noted signals to the channels", "runtime/nutils/rt_signal.h signal_loop signal_process"), ("registrations and their counts", "runtime/nutils/rt_signal.c signal_notify signal_stop")),
     ["signals received from the registered channels, exit status of the program"])
prop("C90", "A compiled program computes what its source says",
     "For every well-typed program, the machine code produced computes the values, control flow and errors that the language defines, on every supported target.",
     ["programs"], "every well-typed program", "Tests compile a fixed set of programs.", F("src/linear.c", "src/ssa.c", "src/register/linearscan.c", "src/lower/amd64.c"),
     M(("lowering, register allocation and encoding", "src/lower/amd64.c")), ["results of the compiled program"], claim=False, reason=PURE + " Only the parts of generated code that meet the scheduler and the collector are exercised, through C01-C19.")
prop("C91", "Serialised values read back as the same values",
     "Every value written as JSON or base64 and read back is the same value, and malformed input is rejected with an error.",
     ["inputs"], "every value and every input text", "Tests use a few examples.", F("std/json/json.n", "std/base64/base64.n"),
     M(("encoding and decoding", "std/json/json.n")), ["decoded value or error"], claim=False, reason=PURE)
prop("C92", "Hashes and ciphers compute what their standards define",
     "Every digest equals the one its standard defines for the same bytes, however the input is divided between calls.",
     ["inputs"], "every input and division of it", "Tests use a few published vectors.", F("std/crypto/sha256.n", "std/crypto/md5.n", "std/crypto/hmac.n"), M(("digest state", "std/crypto/sha256.n")), ["digest"], claim=False, reason=PURE)
prop("C93", "The package manager installs exactly the locked dependencies",
     "Installing a project's dependencies gives exactly the locked versions or an error, also when downloads or disk writes fail half way or two installs overlap.",
     ["fault_sequences", "crash_points"], "every failure point of downloads and disk writes", "Tests use a healthy network and disk.", F("package/main.go"), M(("download and cache directory", "package/src")), ["installed tree"], claim=False,
     reason="Deterministic simulation would apply, but the package manager is a separate program in another language whose toolchain modules are not available offline, so it can neither be built nor placed under the simulator here.")
prop("C94", "The language server answers from the current text",
     "Every answer of the language server refers to the latest text it was given, for every order of edits, requests and cancellations.",
     ["schedules", "histories"], "every order of edits and requests", "Tests send one request at a time.", F("nls/Cargo.toml"), M(("document store and request handling", "nls/src")), ["answers"], claim=False,
     reason="Deterministic simulation would apply, but the language server is a separate program in another language whose dependencies are not available offline, so it can neither be built nor placed under the simulator here.")


def write():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {
        "version": 1, "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "No hooks are needed in /repo: the checks compile /repo's runtime sources with memory-access callbacks and redirect its libc, pthread and system calls at link time (sim/redir.txt).", "source_commits": []},
        "checks": [], "not_applicable": [],
        "notes": "Deterministic simulation with fault injection. ./check ID runs one property, ./check --replay FILE replays a reported violation. DESIGN.md describes the simulator, the oracles, the bounds and the limits.",
    }
    for p in P:
        if p["claim"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                                "technique": "deterministic simulation with fault injection: seeded scheduler, simulated kernel and clock, history oracle",
                                "level": p["level"],
                                "level_note": p["note"] or "Seeded search over interleavings and faults of the real runtime and standard library under a simulated kernel; finds violations with high probability, does not prove absence. Trusts the simulated kernel's fidelity; sequentially consistent memory only; linux amd64 only."})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import re
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["files"]:
            assert os.path.exists("/repo/" + (f if isinstance(f, str) else f["path"])), (p["id"], f)
        assert len(re.findall(r"\.( |$)", p["statement"])) <= 3, p["id"]
    write()
