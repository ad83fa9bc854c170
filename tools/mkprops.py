#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

SND="src/sender.cpp"; CD="src/call_dispatcher.cpp"; RD="src/resp_dispatcher.cpp"; MQ="src/message_queue.cpp"
SEM="src/semaphore.cpp"; SHM="src/shared_memory.cpp"; VG="src/veigar.cpp"; VI="include/veigar/veigar.inl"
CI="include/veigar/call_dispatcher.inl"

prop("C01","A successful call returns exactly its own result",
 "Whenever a synchronous, promise or callback call completes with isSuccess(), the object it carries is exactly what the function bound under that name at the target channel returned for the arguments of that very call, and the function was given exactly those arguments: never another call's result, a truncated one, or one left over from an earlier life of either peer. When the function does not exist, throws, or cannot take the arguments, the call completes with isSuccess() false and an error message describing that call's own failure (the exception's text, or the missing function's name). This holds for any number of concurrent calls, callers, channels and function names, in the same or in different processes, and for every message size that fits the queue.",
 ["schedules","inputs","histories"],
 "all interleavings of concurrent callers, dispatchers and senders over several channels; all function names, payload sizes up to the queue size and restart histories of either peer",
 "The tests compare one or a few echoed integers in undisturbed schedules; cross-talk between calls needs particular interleavings, function-name/counter combinations or a restarted peer.",
 ["include/veigar/veigar.inl",VG,SND,CD,RD,"src/uuid.cpp","include/veigar/detail/call.h"],
 [("call identifiers that tie a response to its call","src/veigar.cpp: getNextCallId"),("table of ongoing calls","src/resp_dispatcher.cpp"),("length-framed messages in the shared queue","src/message_queue.cpp")],
 [("ongoing calls","call id to promise/callback","src/resp_dispatcher.h")],
 ["CallResult of syncCall/asyncCall","arguments seen by the bound function"])

prop("C02","Every call completes exactly once and in bounded time",
 "Every call made on an initialised instance gets exactly one outcome: syncCall returns, the promise becomes ready with a value (never a broken promise or an exception), the callback runs exactly once. With a live target whose function returns, the outcome arrives within bounded time after disturbances end; a syncCall returns within its timeout (plus bounded slack) even if the target is dead, silent or its function never returns. Whatever is still pending is completed as failed at the latest by the time the caller's own uninit() returns.",
 ["schedules","fault_sequences","histories"],
 "all schedules, stalls, lock timeouts, peer deaths and uninit points while calls are queued, in flight or being answered",
 "The tests let every call finish before uninit and never stall, kill or interrupt a thread at a chosen instant; a lost outcome shows as a hang only in rare interleavings.",
 [VI,VG,SND,RD],
 [("promise/callback completion on failure to send","src/sender.cpp: sendCallThreadProc"),("completion by the response dispatcher","src/resp_dispatcher.cpp: dispatchRespThreadProc"),("uninit order","src/veigar.cpp: uninit")],
 [("call list","calls accepted but not sent yet","src/sender.h"),("ongoing calls","sent, waiting for the response","src/resp_dispatcher.h")],
 ["return of syncCall","std::future of asyncCall","callback invocations"])

prop("C03","A call is executed at most once, and exactly once if it succeeded",
 "The target executes the function of a call at most once, however often messages are delayed, waits are interrupted or threads stall. A call that completed with isSuccess() was executed exactly once, before its completion. An asynchronous call that completed with an error code (not SUCCESS) while its caller was not shutting down was never delivered, and its function does not run, then or later.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of senders and dispatchers, lock timeouts, full queues, stalls, peer restarts",
 "The tests count results, not executions, and never make a send fail half-way or a queue lock time out.",
 [SND,CD,MQ],
 [("one push per call, outcome from its result","src/sender.cpp: sendCallThreadProc"),("one pop per message under the queue lock","src/call_dispatcher.cpp: dispatchThreadProc")],
 (),["executions of bound functions","CallResult.errCode"])

prop("C04","The shared message queue is an exact bounded FIFO",
 "The shared-memory message queue behaves as a bounded FIFO of byte strings for any number of processes and threads that push and pop under its lock: every accepted message is popped exactly once, byte for byte, in the order of acceptance, for every sequence of sizes, and the message count and the free-space answer agree with the contents. The lock admits one holder at a time; a lock attempt that failed gives no access and leaves the lock as it was. A push that does not fit and a pop into too small a buffer (which reports the size needed) fail and change nothing, and the full capacity, in messages and in bytes, is usable.",
 ["inputs","schedules","histories"],
 "all sequences of sizes, capacities and operations, all interleavings of lock holders in several processes",
 "The tests push equal messages and pop them in one thread with a few sizes; wrap-around with overlapping moves and lock hand-over between processes are not exercised.",
 [MQ,SHM,SEM],
 [("size list + packed data area with compaction","src/message_queue.cpp: pushBack, popFront"),("named semaphore as lock","src/semaphore.cpp")],
 [("queue header","message count, free space at the front, size list","src/message_queue.cpp")],
 ["results of push, pop, count and free-space queries"])

prop("C05","An accepted message is served without needing further traffic",
 "Once a request or a response has been accepted into a queue whose owner is alive and initialised, the owner dispatches it within bounded time after stalls end, even if nothing further is ever sent. Timeouts on the inter-process lock, waits interrupted by signals, spurious wake-ups, the second in which a wait happens to start, and slow or stalled threads (including one stalled while holding the lock) may delay messages but never strand or drop one.",
 ["schedules","fault_sequences"],
 "all interleavings of wake-ups, lock timeouts and interruptions at every point of the sending and dispatching threads",
 "Tests keep sending, which masks a stranded message, and never let the 30 ms lock timeout or EINTR happen at a chosen instant.",
 [CD,RD,SND,SEM,MQ],
 [("counting semaphore as read signal, one token per message","src/message_queue.cpp: notifyRead/waitForRead"),("timed lock","src/semaphore.cpp: wait")],
 [("read signal count","at least the number of queued messages","src/semaphore.cpp")],
 ["completion of calls after the last send"])

prop("C06","Full queues give back-pressure, not loss, blockage or false results",
 "When the target's queue has no room, a call waits: it succeeds if room appears before its timeout and otherwise fails with TIMEOUT, and while it waits the target keeps draining and other callers are not blocked by it. A request that could never fit fails promptly with FAILED or TIMEOUT instead of being truncated, one that fits the queue but exceeds the expected message size works, and a response that could never fit yields an error outcome at the caller rather than silence. A burst beyond the queue capacity loses no call and no response when the peers keep draining.",
 ["schedules","inputs","configurations"],
 "all queue capacities and message sizes, burst sizes and drain speeds, and interleavings of waiting senders with draining dispatchers",
 "Tests use the default 200 x 10 KiB queue, which never fills with live peers.",
 [SND,MQ,CD],
 [("waiting for space","src/sender.cpp: checkSpaceAndWait"),("space check","src/message_queue.cpp: checkSpaceSufficient")],
 (),["CallResult of calls made against a full queue"])

prop("C07","uninit() is safe, bounded and final at any moment",
 "uninit() may be called at any moment - with calls queued, sent or awaited by other threads, functions of the instance running (even ones that are themselves calling out), and peers still sending - and returns in bounded time once running functions and callbacks return, without crash or deadlock. After it has returned no function or callback of that instance is running or starts, its channel no longer accepts calls, and API calls on the instance report failure instead of crashing or hanging. The same object can then be initialised again and works as new; a repeated uninit() is harmless.",
 ["schedules","histories"],
 "all interleavings of uninit() with API calls, dispatching and sending in this and other processes; repeated init/uninit histories",
 "Tests call uninit only after everything is quiet, from the thread that made the calls.",
 [VG,SND,CD,RD,"src/event.cpp"],
 [("stop flags, cancel events, joins","src/sender.cpp: uninit, src/call_dispatcher.cpp: uninit, src/resp_dispatcher.cpp: uninit")],
 [("initialised flag","src/veigar.cpp","src/veigar.cpp")],
 ["return of uninit()","executions and callbacks after it"])

prop("C08","A peer that restarts cleanly is reachable again",
 "After the instance serving a channel has uninitialised and an instance (in the same or another process) has initialised that channel again, other instances' new calls to it reach the new instance and complete normally, without those callers being restarted, and the restarted instance's own calls work too. No request or response addressed to the earlier life completes, or is taken for, a call of the new life.",
 ["histories","schedules"],
 "all histories of uninit/init of either peer, before, between and during calls of others",
 "Tests restart processes only together and in one order; none keeps a caller running across a clean restart of its target.",
 [SND,MQ,SHM,SEM,"src/uuid.cpp"],
 [("cached handles to target queues","src/sender.cpp: getTargetCallMessageQueue/getTargetRespMessageQueue"),("removal of shared names by the creator","src/shared_memory.cpp: close")],
 [("target queue cache","channel name to opened queue","src/sender.h")],
 ["CallResult of calls made after the restart"])

prop("C09","A crash of one process does not take the others down",
 "If a process dies at any instruction, the surviving processes do not crash, hang or deliver a torn or foreign message: calls among survivors keep completing, and calls to the dead channel end with an error within their bounds. After a process serving the same channel has started again, calls to it from survivors and calls it makes work again without manual cleanup and without restarting the survivors. Nothing the dead process left behind completes a call of its successor.",
 ["crash_points","schedules","histories"],
 "all crash points (including inside queue operations and while holding a lock), all restart histories",
 "The out-of-process tests kill at wall-clock times chosen by sleeps and are excluded as unreliable.",
 [MQ,SND,CD,RD,SEM,SHM,"src/uuid.cpp"],
 [("re-creation of the queue on init","src/message_queue.cpp: create"),("lock timeouts instead of infinite waits","src/semaphore.cpp: wait")],
 (),["CallResult of survivors","behaviour after restart"])

prop("C10","Malformed or stale messages harm nobody",
 "Whatever bytes arrive in an initialised instance's request or response queue - garbage, truncated or concatenated messages, wrong types, unknown functions, unknown, stale or repeated call identifiers - the instance neither crashes nor stops serving nor leaks what one message contained into another. Valid requests and responses before and after complete exactly as without it, and a repeated or stale response completes no call twice and no call wrongly.",
 ["inputs","fault_sequences","schedules"],
 "all byte strings placed in either queue at any point between valid traffic",
 "No test puts anything but well-formed messages of the library's own into a queue.",
 [CD,RD,"include/veigar/msgpack/v1/unpack.hpp"],
 [("unpacking and type conversion inside try blocks","src/call_dispatcher.cpp: dispatchCall, src/resp_dispatcher.cpp"),("per-worker unpacker","src/call_dispatcher.cpp: dispatchThreadProc")],
 (),["survival of the process","CallResult of valid calls"])

prop("C11","Resource failures are reported, never turned into success or a crash",
 "If an allocation or an operating-system call fails while the library works (in the calling thread or in one of its own threads), the affected call completes as failed, or not affected at all, but never with false success or a corrupted value, and no exception escapes from an API call or terminates the process. Once the failures stop, the instance serves and makes calls as before: no lock stays held, no worker is lost, no later call is affected.",
 ["fault_sequences","schedules"],
 "every single allocation, semaphore, shared-memory and thread operation failing at any point of the call path, alone or repeatedly",
 "The tests never make an allocation or a system call fail.",
 [SND,CD,RD,VG,VI,MQ,SEM,SHM],
 [("try/catch around message handling","src/sender.cpp, src/call_dispatcher.cpp, src/resp_dispatcher.cpp, include/veigar/veigar.inl"),("error returns of shared memory and semaphores","src/shared_memory.cpp, src/semaphore.cpp")],
 (),["CallResult under injected failures","calls after the failures"])

prop("C12","Binding and unbinding at run time is atomic",
 "bind(), unbind() and bindNames() may be used at any time, also while calls are being dispatched, and behave as one atomic registry: a call issued after bind() returned true reaches that function, a call issued after unbind() returned gets a 'not found' error, a concurrent call gets one or the other. bind() of a name already bound (or empty) returns false and changes nothing, of two concurrent binds of one name exactly one succeeds, and a function being executed is unaffected by unbinding it.",
 ["schedules","histories"],
 "all interleavings of bind/unbind/bindNames with each other and with dispatching threads",
 "Tests bind everything before the first call.",
 ["include/veigar/call_dispatcher.h",CI,CD,VG],
 [("name to function map","include/veigar/call_dispatcher.h: funcs_")],
 [("function registry","bound names","include/veigar/call_dispatcher.h")],
 ["results of bind/bindNames","CallResult of concurrent calls"])

prop("C13","Timeouts measure elapsed time",
 "Every timeout the library honours - of a synchronous call, of a call waiting for queue room, of the inter-process lock and of semaphore waits - measures elapsed time: it neither gives up early nor waits noticeably longer than asked. This holds whatever the wall clock does (steps forwards or backwards), in whatever fraction of a second the wait starts, however often signals interrupt it, and for every timeout value from 0 up to the largest representable.",
 ["fault_sequences","inputs","schedules"],
 "all wall-clock steps, start instants, signal interruptions and timeout values",
 "Tests run on an undisturbed clock with a few timeout values and no signals.",
 [SEM,SND,VG,VI,"src/time_util.cpp","src/event.cpp"],
 [("timed semaphore wait","src/semaphore.cpp: wait"),("deadline arithmetic","src/sender.cpp: checkSpaceAndWait, src/veigar.cpp: sendCall")],
 (),["time at which a wait or call gives up"])

prop("C14","Finished work leaves nothing behind",
 "Work that is finished leaves nothing behind: a completed synchronous or callback call, or a promise call after releaseCall(), holds no memory, and after uninit() and destruction of an instance all of its memory, threads, file descriptors, mappings, semaphore handles, shared-memory objects and named semaphores are gone. This holds for every outcome of the calls (success, error, timeout, unsent, unanswered) and for repeated init/uninit cycles.",
 ["histories","schedules","fault_sequences"],
 "all histories of calls with every outcome, and of init/uninit cycles, in every interleaving",
 "The tests do not look at resources at all.",
 [VG,SND,CD,RD,MQ,SEM,SHM],
 [("release of call buffers","src/sender.cpp"),("close() of queues, semaphores and shared memory","src/message_queue.cpp, src/semaphore.cpp, src/shared_memory.cpp")],
 (),["live allocations, names, descriptors, mappings and threads"])

prop("C15","The public API is free of data races and memory errors",
 "All operations of an initialised instance - sync and async calls, releaseCall, bind, unbind, bindNames, the getters, setTimeoutOfRWLock, and isInit/uninit racing with them - may be used from any number of threads at once. No such use, in any interleaving, causes a data race, an access to freed or foreign memory, a deadlock or an undefined operation on a synchronisation object.",
 ["schedules","programs"],
 "all interleavings of all combinations of API operations in several threads and instances",
 "The tests run uninstrumented in whatever schedule the kernel picks; a race shows, if at all, as a rare crash.",
 [VG,SND,CD,RD,"src/event.cpp","include/veigar/call_dispatcher.h"],
 [("mutexes around the call lists, ongoing calls and queue caches","src/sender.cpp, src/resp_dispatcher.cpp"),("atomics","src/veigar.cpp")],
 (),["happens-before order of every memory access of library code"])

prop("C16","init() is all-or-nothing and can be retried",
 "init() either returns true and the channel is fully working, or returns false and leaves nothing behind - no thread, shared name, descriptor, mapping or memory - and never throws or crashes, whichever operating-system call or allocation fails inside it. After a failure the same object, or another one, can initialise the channel once the cause is gone. On an initialised instance, init() returns true for the same channel and false for another, disturbing nothing, also when several threads call init() of one object at once; an empty channel name is refused.",
 ["fault_sequences","configurations","histories"],
 "failure of every system call, thread creation and allocation made by init, at each occurrence, alone and repeatedly",
 "Tests only initialise successfully.",
 [VG,CD,RD,SND,MQ,SEM,SHM],
 [("clean-up on failure","src/veigar.cpp: init, src/message_queue.cpp: create"),("error returns","src/shared_memory.cpp, src/semaphore.cpp")],
 (),["return value of init()","resources left after failure","calls after a later init()"])

prop("C17","Calling a channel while it starts, or with other queue sizes, is safe",
 "A call to a channel that is just starting (or stopping) either fails or is delivered: it never crashes either side, corrupts the queue or makes init() of the target ineffective, and once init() has returned true calls to the channel work, whatever attempts were made before or during it. Instances configured with different queue capacities and message sizes interoperate as if each queue had the size its owner configured.",
 ["schedules","configurations","histories"],
 "all interleavings of a target's init()/uninit() with callers' first and later calls; all pairs of queue configurations",
 "Tests initialise every channel before the first call and use one configuration everywhere.",
 [MQ,SHM,SEM,SND],
 [("creation order of shared memory and semaphores","src/message_queue.cpp: create"),("existence checks on open","src/message_queue.cpp: open, src/semaphore.cpp: IsExist")],
 (),["survival of both sides","CallResult of calls during and after start"])

prop("C18","Values survive serialisation unchanged",
 "A value of any supported type converted to a message object, packed, unpacked and converted back equals the original.",
 ["inputs"],
 "all values of all supported types",
 "The tests convert a few values per type.",
 ["include/veigar/msgpack.hpp","include/veigar/call_result.h"],
 [("vendored msgpack-c","include/veigar/msgpack")],
 (),["pack/unpack round trip"])

with open(os.path.join(HERE,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
