#!/usr/bin/env python3
# Single source of /verif/properties.jsonl (run by hand after editing).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","A future completes exactly once and its result never changes",
  "A future starts pending, completes at most once, and the first resolution or rejection wins: later attempts to complete it have no effect. From the moment any thread sees it completed, every thread sees the same status, the same value and the same error for as long as the future exists, and status predicates always agree with the value that can be read.",
  ["schedules","histories"],"every interleaving of any number of concurrent completers (resolve, reject, cancel, set/any/first races) and readers on one future",
  "test-future.c completes each future once from one thread; no test has two threads completing or a reader racing a completer.",
  ["src/dex-future.c","src/dex-promise.c","src/dex-future-private.h"],
  [("status checked and set under the object lock","src/dex-future.c:dex_future_complete"),("readers take the lock","src/dex-future.c:dex_future_get_value")],
  [("status/resolved/rejected","the outcome of a future","src/dex-future-private.h")],
  ["dex_future_get_status","dex_future_get_value","dex_await_*"])
p("C02","Every observer of a future is notified of its completion exactly once",
  "Whatever the interleaving of attaching observers (callbacks, sets, fibers, nested futures) with the completion of the observed future, every observer that is still alive is told exactly once: none is lost, none is run twice. Consequently once the system is idle no live derived future is pending while everything it waits for has completed.",
  ["schedules","histories"],"every interleaving of attach, complete, and drop operations over graphs of derived futures spread over several threads",
  "Tests attach either strictly before or strictly after completion, on one thread; the window between the check and the attach is never exercised.",
  ["src/dex-future.c","src/dex-block.c","src/dex-future-set.c","src/dex-fiber.c"],
  [("status test and queue append happen under one lock hold","src/dex-future.c:dex_future_chain"),("queue stolen with the status change","src/dex-future.c:dex_future_complete")],
  [("chained","list of observers still to notify","src/dex-future-private.h")],["block callbacks","derived future status"])
p("C03","Typed results come back exactly as they went in",
  "For every supported value type and every value of it, a future or promise resolved with that value gives the same value back through the matching typed await and through the generic value accessor, and a rejection gives back the same error domain, code and message. Awaiting with a non-matching type reports a type-mismatch error and never a wrong value; awaiting a pending future outside a fiber reports an error instead of blocking.",
  ["inputs"],"all types, all values of each type (extremes, empty and NULL strings, object lifetimes, duplicated file descriptors, arbitrary error triples) and all constructor/accessor pairs",
  "Tests round-trip a handful of constants for a few types and never the mismatched pairs.",
  ["src/dex-future.c","src/dex-promise.c","src/dex-static-future.c","src/dex-fd.c","src/dex-infinite.c"],
  [("typed constructors","src/dex-future.c"),("typed promise resolvers","src/dex-promise.c"),("typed awaits","src/dex-future.c"),("fd boxing","src/dex-fd.c")])
p("B01","Chained callbacks compute what the combinator algebra says",
  "For every program built from then, catch, finally and their looping variants over any futures, each callback runs exactly when the outcome it handles occurs (then on resolve, catch on reject, finally on both; looping variants again for every outcome they handle of each returned future), receives the future that completed, and never runs otherwise. The derived future ends with the outcome of the future the callback returned, or with the outcome of its input when the callback does not run or returns nothing, regardless of when and in what order inputs complete.",
  ["programs","histories"],"all trees of combinators and callbacks (returning nothing, completed, pending or nested futures), with inputs completed before, during or after construction in any order",
  "Tests cover a few fixed two- or three-link chains.",
  ["src/dex-block.c","src/dex-future.c"],
  [("handles filter, handled/loop flags","src/dex-block.c:dex_block_propagate"),("chain to returned future","src/dex-block.c:dex_block_propagate_within_scheduler_internal")],
  [("kind/handled/awaiting","what a block reacts to and waits for","src/dex-block.c")],["callback log","final status of the derived future"])
p("B02","Callback data is released exactly once, and only after its last use",
  "The data handed to a chained callback, a fiber, a pushed or spawned function or an asynchronous wrapper is released by its destroy notification exactly once, after the last time the callback can run with it, whether the callback ran, was skipped, looped, was cancelled, or its future was dropped before anything happened.",
  ["histories","schedules"],"all combinator and fiber programs with futures dropped, discarded or completed at any point of the history, on one or several threads",
  "Tests pass a destroy notification in very few places and never count it on the drop, skip and cancel paths.",
  ["src/dex-block.c","src/dex-fiber.c","src/dex-future.c"],
  [("eager release when nothing is returned, otherwise at finalize","src/dex-block.c"),("release on fiber exit","src/dex-fiber.c:dex_fiber_start")])
p("B03","Callbacks and fibers run on the thread they belong to",
  "A chained callback runs on the scheduler that was current where it was attached, and a fiber runs, and keeps running after every suspension, on the one thread its scheduler gave it, no matter which thread completes the future they wait for. No callback or fiber body ever runs on the completing thread unless that is also its own.",
  ["schedules","histories"],"all assignments of attach and completion to threads, all interleavings",
  "test-scheduler/test-fiber check one fixed thread assignment under whatever timing the machine gives.",
  ["src/dex-block.c","src/dex-fiber.c","src/dex-scheduler.c","src/dex-main-scheduler.c","src/dex-thread-pool-worker.c"],
  [("scheduler comparison before a synchronous dispatch","src/dex-block.c:dex_block_propagate"),("push to the owning scheduler","src/dex-scheduler.c")])
p("B04","Long chains and loops finish, in order, without piling up stack",
  "Completing the head of a chain of thousands of callbacks, or running a looping callback any number of times over already completed futures, finishes with every callback having run exactly once per link or turn, in order. The stack in use does not grow with the number of turns of a loop nor with callbacks that return completed futures, and by no more than a small constant per plain link.",
  ["inputs","programs"],"chains and loops of up to 9000 links or turns, mixtures of kinds, returned futures, completed before and after building",
  "Tests use chains of two or three links.",
  ["src/dex-block.c","src/dex-thread-storage-private.h","src/dex-main-scheduler.c"],
  [("synchronous dispatch depth limit","src/dex-block.c:dex_block_propagate")],
  [("sync_dispatch_depth","nesting of synchronous callback dispatch","src/dex-thread-storage-private.h")])
p("B05","Futures of every kind compose",
  "In any expression built from promises, static and delayed futures, timeouts, cancellables, callbacks and loops, sets, channels and fibers, each future completes exactly when what it was built from says it must, no earlier and no later, with the outcome that follows from the outcomes of its parts, and everything completes once its parts have. This holds wherever the parts are shared, whoever completes them, and whether the caller keeps the intermediate futures or only the last one.",
  ["inputs","histories","schedules"],"all expressions of up to 40 futures of 18 kinds, all orders of completing their leaves, by two threads, with fibers on a pool",
  "Tests combine two or three kinds by hand, with one order of completion.",
  ["src/dex-future.c","src/dex-block.c","src/dex-future-set.c","src/dex-fiber.c","src/dex-channel.c","src/dex-delayed.c","src/dex-timeout.c","src/dex-cancellable.c"],
  [("chain, propagate, complete","src/dex-future.c"),("what a callback returns is awaited","src/dex-block.c")])
p("S01","Future sets resolve and reject as all, any, first and all-race promise",
  "For every number of members and every order of completion (including members completed beforehand and the same future listed twice): all completes exactly when the last member completes (resolved if all resolved, rejected if all rejected); any takes the value of the first member to resolve and rejects once all have rejected; first takes the outcome of the first member to complete; all-race rejects with the first rejection or resolves when all have resolved. Member count, order and individual outcomes stay readable from the set.",
  ["inputs","histories"],"all member counts, all completion orders and outcomes, all constructors (variadic and array), concurrent completions",
  "Tests try a few outcome vectors with up to four members in one order.",
  ["src/dex-future-set.c","src/dex-future.c"],
  [("counting propagate","src/dex-future-set.c:dex_future_set_propagate")],
  [("n_resolved/n_rejected/flags","progress and policy of a set","src/dex-future-set.c")])
p("S02","Work nobody awaits any more is cancelled, and only that work",
  "When a derived future completes or is dropped, each future it was waiting for that is still pending and that no other live future waits for is discarded: cancellable promises are cancelled, wrapped asynchronous operations that asked for it are cancelled, and the effect carries through nested sets and callbacks. A future that something else still waits for, or that is disowned, is left running and still completes normally.",
  ["histories","programs"],"all graphs of futures with shared members, all orders of completing and dropping",
  "test-future.c checks one discard with a single observer; sharing between observers is never tested.",
  ["src/dex-future.c","src/dex-future-set.c","src/dex-block.c","src/dex-promise.c","src/dex-async-pair.c","src/dex-timeout.c"],
  [("awaiting flags over the observer list","src/dex-future.c:dex_future_discard"),("discard on completion and finalize","src/dex-future-set.c")],
  [("awaiting","whether an observer still wants the result","src/dex-future.c")],["GCancellable of promises and async pairs"])
p("D01","A delayed future opens only when released, with its input's outcome",
  "A future delayed behind a gate stays pending until it has been released and its input has completed, in whichever order these happen, and then completes exactly once with its input's outcome. Releasing before the input completes never completes either of them prematurely, and releasing again changes nothing.",
  ["histories","schedules"],"all orders of create, complete input, release (repeated), drop, from any thread",
  "One test releases after completion of an already completed input.",
  ["src/dex-delayed.c"],[("held outcome and release flag","src/dex-delayed.c")])
p("D02","A disowned future runs to completion and is then released",
  "A disowned future is kept alive until it completes even when its creator drops every reference, its callbacks still run, and it is freed once it has completed.",
  ["histories"],"all combinator programs whose only remaining reference is the disown, completed in any order, before or after disowning",
  "Tests disown only trivially.",
  ["src/dex-future.c"],[("extra reference held until finally","src/dex-future.c:dex_future_disown")])
p("H01","A channel delivers every item once, in order, within its capacity",
  "For every history of sends and receives on an open channel, the n-th receive gets exactly the outcome of the n-th item sent (also when the item itself is still pending when received), with nothing lost, duplicated or reordered. At most the configured capacity of items is queued; a send beyond it stays pending until room is made by receiving and then resolves with the queue length at that time, in sending order.",
  ["histories"],"all single-thread histories of send, receive, item completion and dropping of results, all capacities including unlimited",
  "test-channel.c runs three fixed scripts.",
  ["src/dex-channel.c"],[("sendq/queue/recvq transitions","src/dex-channel.c:dex_channel_one_receive_and_unlock")],
  [("sendq, queue, recvq","blocked senders, stored items, waiting receivers","src/dex-channel.c")])
p("H02","Closing a channel rejects exactly what can no longer happen",
  "After the send side closes, new sends are rejected as closed, already accepted items can still be received in order, and exactly those receives that no item is left for are rejected as closed. After the receive side closes, or when the channel is dropped, all waiting and new receives and all blocked and new sends are rejected as closed and held items are released; no future handed out by the channel stays pending forever.",
  ["histories"],"all histories mixing send, receive, close of either side (repeated, both orders) and dropping the channel",
  "Tests close once in a fixed position.",
  ["src/dex-channel.c"],[("state flags and truncation of receivers","src/dex-channel.c:dex_channel_unset_state_flags")])
p("H03","Channels stay exact under concurrent senders, receivers and closers",
  "With any number of threads sending, receiving, draining and closing one channel under any interleaving, every accepted item is delivered to at most one receiver, items of one sender arrive in sending order, no item is lost while a receiver waits, and once everything is idle there is never both a waiting receiver and a stored item, nor a blocked sender while there is room. No operation deadlocks.",
  ["schedules"],"all interleavings of 2-4 threads with several operations each",
  "All channel tests are single-threaded except for luck of timing.",
  ["src/dex-channel.c","src/dex-object-private.h"],[("object lock around all queue changes","src/dex-channel.c")])
p("H04","Draining a channel yields everything stored and lets senders proceed",
  "Receiving all yields a set holding exactly the items stored at that moment, in order, or, if there are none, a set that completes with the next item; it rejects as closed when nothing can come any more. Room made by draining is given to blocked senders just as with single receives, so no send stays blocked while there is room.",
  ["histories"],"all histories mixing send, receive, receive-all and close with all capacities",
  "One test drains an unlimited channel without blocked senders.",
  ["src/dex-channel.c"],[("dex_channel_receive_all","src/dex-channel.c")])
p("L01","Objects live exactly as long as they are referenced",
  "An object is finalized exactly once, when its last reference goes away, and never while any thread still holds a reference, under every interleaving of taking and dropping references, including references re-acquired through weak references.",
  ["schedules","histories"],"all interleavings of ref, unref, weak get, weak set/clear over 2-4 threads",
  "test-object.c races two threads in a loop and hopes.",
  ["src/dex-object.c","src/dex-object-private.h"],[("atomic count plus watermark","src/dex-object.c:dex_unref")],
  [("ref_count/weak_refs_watermark","liveness of an object","src/dex-object-private.h")],["finalize calls"])
p("L02","A weak reference yields the live object or nothing, and never deadlocks",
  "Reading a weak reference returns either nothing or a full reference to the object it was set to; once the object is finalized it returns nothing for ever. Setting, re-targeting and clearing weak references, in any order and concurrently with dropping the objects they point to, never touches freed memory, never deadlocks and leaves other weak references to the same object intact.",
  ["schedules","histories"],"all histories of init/set/get/clear on several weak references and objects, and their interleavings over threads",
  "Tests use one or a few weak references set once.",
  ["src/dex-object.c","src/dex-object-private.h"],[("intrusive weak list and per-weak-ref mutex","src/dex-object.c")])
p("L03","Nothing leaks: dropping all references frees every future involved",
  "After any program whose references have all been dropped and whose work has settled, every future, channel, cancellable, source, descriptor and value involved has been freed, and dropping them at any point (also while pending) never aborts or touches freed memory.",
  ["programs","histories"],"all generated programs over the whole API, with references dropped at arbitrary points",
  "The suite does not run under leak accounting and mostly drops completed futures.",
  ["src/dex-future.c","src/dex-block.c","src/dex-future-set.c","src/dex-channel.c","src/dex-cancellable.c","src/dex-timeout.c","src/dex-async-result.c"],
  [("finalizers of all future classes","src/*.c")])
p("X01","Fibers compute what the same straight-line program would",
  "A fiber that awaits any sequence of futures sees, at every await, exactly that future's outcome, keeps its locals across suspensions, and completes with the outcome of the future it returns (rejecting as exited when it returns nothing). Any number of fibers interleave only at awaits; none runs twice, none is skipped, and the results do not depend on the completion order of unrelated futures.",
  ["programs","histories"],"all generated fiber programs (awaits of every kind, nested spawns, returns) with all completion orders",
  "test-fiber.c runs fixed small fibers.",
  ["src/dex-fiber.c","src/dex-fiber-context-private.h","src/dex-scheduler.c"],
  [("runnable/blocked queues and context switches","src/dex-fiber.c")],
  [("runnable/blocked","where a fiber waits","src/dex-fiber-private.h")])
p("X02","A suspended fiber is always woken, once, by whichever thread completes",
  "When the future a fiber awaits completes on any thread, at any moment relative to the fiber's suspension, the fiber becomes runnable exactly once and its thread wakes up to run it; no wake-up is lost and no fiber is resumed before what it awaits has completed. The same holds for fibers and functions started on a scheduler from another thread.",
  ["schedules"],"all interleavings of await/spawn with completions from 1-3 other threads, on the main and the pool scheduler",
  "Existing tests complete awaited futures from timers or the same thread.",
  ["src/dex-fiber.c","src/dex-main-scheduler.c","src/dex-thread-pool-worker.c"],
  [("blocked-before-chain ordering and context wakeup","src/dex-fiber.c:dex_fiber_await, dex_fiber_propagate")])
p("X03","A cancelled fiber learns about it at its next await",
  "When the last of the futures awaiting a fiber goes away or loses interest, the fiber is marked cancelled: its next suspending await returns at once with a cancellation error instead of a pending value, it can still run to its end, clean up and complete, and no await begun after the cancellation suspends it. Fibers that are still awaited by something are not cancelled.",
  ["histories","schedules"],"all programs dropping or racing fibers at every suspension point",
  "One test discards one fiber at one place.",
  ["src/dex-fiber.c"],[("cancelled flag checked when awaiting","src/dex-fiber.c:dex_fiber_await")],
  [("cancelled","set by discard","src/dex-fiber-private.h")])
p("X04","Fibers get the stack they asked for, isolated from each other",
  "A fiber created with any requested stack size can use at least that much stack, its stack is never shared with another live fiber, stacks are recycled without leaking or mixing up sizes, and overrunning one hits a guard instead of other memory.",
  ["inputs","histories"],"all stack sizes (default, tiny, unaligned, large), all orders of creating, suspending and finishing many fibers",
  "Tests use the default size only.",
  ["src/dex-stack.c","src/dex-stack-private.h","src/dex-fiber.c"],
  [("page rounding, guard page, pool by size","src/dex-stack.c")])
p("X05","A scheduler which is kept busy still serves everyone",
  "While fibers waking each other, loops of callbacks, functions pushing themselves, channels or due timers keep the main loop or a pool thread busy without end, every other runnable fiber, due timer, attached callback and ready source of the same priority in that loop gets its turn after a bounded number of theirs, and so does every function pushed to the main scheduler.",
  ["histories"],"all mixes of endlessly busy parties (fibers in pairs, self-pushing functions, loops, channels, timers) and of parties waiting for a turn, on the main loop and on a pool thread",
  "Tests run programs that end; starvation needs somebody who never stops, and a particular order of wakeups.",
  ["src/dex-fiber.c","src/dex-main-scheduler.c","src/dex-work-stealing-queue.c","src/dex-block.c"],
  [("first in, first out; bounded iterations per dispatch","src/dex-fiber.c"),("only what is queued at the start of a dispatch","src/dex-main-scheduler.c"),("batches","src/dex-work-stealing-queue.c")])
p("K01","Every function pushed to a scheduler runs exactly once, on that scheduler",
  "Each work item pushed to the main scheduler or to a thread pool, from any thread (also from inside other work items and from pool threads), runs exactly once on a thread of that scheduler, and wakes it if it sleeps. On the main scheduler items pushed by one thread run in the order they were pushed. A pool asked for its main context on a pool thread gives that of the thread, elsewhere that of the main thread.",
  ["schedules","histories"],"all interleavings of pushes from 1-4 threads with the running scheduler, bursts of hundreds of items, nested pushes",
  "test-scheduler.c pushes from one thread a fixed pattern.",
  ["src/dex-main-scheduler.c","src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c","src/dex-work-queue.c","src/dex-scheduler.c"],
  [("work queue under lock plus wakeup","src/dex-main-scheduler.c:dex_main_scheduler_push"),("global queue, semaphore","src/dex-work-queue.c")])
p("K02","The work-stealing queue hands out every item exactly once",
  "With one owner pushing and taking and any number of thieves stealing concurrently, every pushed item is obtained exactly once by exactly one of them, in any interleaving, for any initial capacity and any number of items (across growth); the owner takes the newest, thieves the oldest item, and a call comes back empty-handed only when the queue was empty at some moment of the call or another thread took the item it was after.",
  ["schedules","histories","inputs"],"all interleavings of owner and 1-3 thieves, all capacities the library itself uses, growth at any moment",
  "No test exercises the queue directly.",
  ["src/dex-work-stealing-queue-private.h","src/dex-work-stealing-queue.c"],
  [("Chase-Lev deque","src/dex-work-stealing-queue-private.h")],[("top/bottom/array","the deque","src/dex-work-stealing-queue-private.h")])
p("K03","A thread pool can be shut down at any time without losing or repeating work",
  "Dropping a thread pool terminates, stops all its threads, and touches no freed memory; every function accepted before the drop runs exactly once, before the drop returns; fibers run as far as they can, and those still suspended never resume, are rejected, release their data once, and what only they awaited is cancelled. The process can create and drop pools repeatedly without leaking threads or descriptors.",
  ["schedules","histories"],"all interleavings of pushes and spawns with the drop of the pool, pools of 1-3 workers, repeated",
  "One test drops a pool after everything is finished.",
  ["src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c"],
  [("worker finalize and join","src/dex-thread-pool-worker.c:dex_thread_pool_worker_finalize")])
p("K05","The async semaphore grants exactly as many waits as were posted",
  "At any quiet moment the number of granted waits equals the smaller of permits posted and waits requested: no permit is lost or invented whatever the interleaving of posts (single or many), waits and drops of waits (a wait dropped before it is granted may use up one permit, no more), and closing rejects or leaves ungranted only the waits that were not granted. A wait is granted on the thread that requested it.",
  ["schedules","histories"],"all histories and interleavings of post, post-many, wait, drop and close over 1-4 threads, on both the kernel-backed and the portable implementation",
  "test-semaphore.c posts and waits in one pattern with timing left to luck.",
  ["src/dex-semaphore.c","src/dex-aio.c"],[("counter and waiter queue under lock / eventfd","src/dex-semaphore.c")])
p("T01","Timeouts reject as timed out, never before and always after their deadline",
  "A timeout future never completes before its deadline and rejects as timed out once the clock has passed it and the loop of the scheduler it was made on runs (the main one, for a thread that has none); postponing moves the deadline, timers fire in deadline order, and a timer that was dropped or discarded never fires and leaves nothing behind.",
  ["histories","inputs"],"all sequences of creating timers with arbitrary deadlines and units, postponing, dropping, racing them against other futures, and advancing the clock",
  "Tests sleep for one short real interval.",
  ["src/dex-timeout.c"],[("ready-time source per timeout","src/dex-timeout.c")])
p("T03","Cancellation objects turn into rejections exactly when cancelled",
  "A future made from a cancellation object rejects as cancelled when, and only when, that object is cancelled (immediately if it already is), any number of futures can share one object, and dropping such futures at any moment, including from callbacks running because of the cancellation, neither deadlocks nor leaves handlers behind.",
  ["histories"],"all histories of creating, combining, dropping futures and cancelling one or several shared objects",
  "One test cancels one object once.",
  ["src/dex-cancellable.c"],[("cancelled handler and weak reference","src/dex-cancellable.c")])
p("T04","A unix-signal future resolves with its signal, for every waiter",
  "Every live future waiting for a process signal resolves with that signal's number after the signal has been delivered to the process, futures for other signals stay pending, and resolved or dropped ones leave nothing behind.",
  ["histories"],"all histories of creating and dropping waiters for the supported signals and raising them",
  "No test covers it.",
  ["src/dex-unix-signal.c"],[("signal source and weak reference","src/dex-unix-signal.c")])
p("A01","Asynchronous file reads and writes do what pread and pwrite would",
  "For every file content, descriptor kind, buffer size and offset, an asynchronous read or write resolves with exactly the count, buffer and file contents the corresponding synchronous call would produce (including short counts at end of file and the current-position variants), and a failing one rejects with the error that call would have reported (descriptors that cannot seek are used at the current position, and operations that would block just take longer). This holds for every I/O backend and for any number of operations in flight.",
  ["inputs","histories"],"all descriptor kinds, sizes, offsets, valid and failing, sequential and concurrent on disjoint ranges, on every backend available",
  "test-stream/test-aio style tests copy one file.",
  ["src/dex-aio.c","src/dex-aio-backend.c","src/dex-posix-aio-backend.c","src/dex-posix-aio-future.c","src/dex-uring-aio-backend.c","src/dex-uring-future.c"],
  [("posix worker pool","src/dex-posix-aio-backend.c"),("io_uring submission and completion","src/dex-uring-aio-backend.c, dex-uring-future.c")])
p("G01","Wrapped GIO operations agree with their synchronous counterparts",
  "Every future-returning wrapper of a stream, file or similar asynchronous operation resolves with the same result, and has the same side effects, as the corresponding synchronous call on an identical object, and rejects with the same error domain and code when that call fails. Dropping the last future which awaits it cancels the operation, and dropping it at any point never crashes or leaks.",
  ["inputs","histories"],"random trees of files and random streams, all wrappers, valid and failing arguments, sequences of operations, dropped at random points",
  "test-stream.c exercises a few operations on one file.",
  ["src/dex-gio.c"],[("async pair per operation","src/dex-gio.c")])
p("G02","Bridging a callback-style operation preserves its outcome and cancellation",
  "A future made from an asynchronous start/finish pair completes exactly once with the value or error the finish function produced, for every supported result type and also when the operation finishes inside the start call; when the last future awaiting it is dropped or ends otherwise, the operation is cancelled if and only if cancel-on-discard is kept. The instance (if any) stays alive while the operation runs.",
  ["histories","inputs"],"all result types and values, completion synchronous, deferred or never, with drops and discards in between",
  "test-future.c wraps one operation per kind.",
  ["src/dex-async-pair.c","src/dex-async-pair.h"],[("ready callback and owned cancellable","src/dex-async-pair.c")])
p("G03","Exposing a future as a callback-style result reports it faithfully",
  "An asynchronous result object that awaits a future calls the supplied callback exactly once, with the user data it was given, in the loop of the thread that created it (among results ready there together, by priority) and never before returning to that loop, whether the future completed before or after, and finishing it in the callback or later gives the future's outcome through the matching type; cancelling its cancellable while it still waits ends it as cancelled. It does so from whichever thread it was told to await, and however the future and the object are released.",
  ["histories","schedules"],"all result types and outcomes, completion before/after await, from any thread, finish once, and drops at any point",
  "test-async-result.c runs a few fixed cases.",
  ["src/dex-async-result.c"],[("finally block and idle callback","src/dex-async-result.c")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
for x in P:
    if s: jsonschema.validate(x,s)
    n=x["statement"].count(". ")+1
    if n>3: print("too many sentences",x["id"],n)
print(len(P))
