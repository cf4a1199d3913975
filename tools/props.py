"""the properties, and how each of them is decided"""

TECHNIQUE = ("bounded symbolic execution of the real code (z3 over "
             "path-explored runs with symbolic times, faults and schedules)")

PROPS = []


def P(id, title, statement, over, text, why, files, mech, note="",
      harness=None, na=None, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        over=over, text=" ".join(text.split()), why=" ".join(why.split()),
        files=files, mech=mech, note=" ".join(note.split()),
        harness=harness, na=na and " ".join(na.split()),
        observe=observe or ["results, exceptions and side effects of the "
                            "public API"]))


P("C01", "Retries and time limits: bounded, justified, faithful",
  """A call through the retry/backoff or timeout decorators ends no later
  than its overall deadline, no attempt outlasts the per-attempt limit, at
  most the allowed number of attempts run (never two at once, the first at
  once, each next one exactly the pause after the previous one), and a new
  attempt follows only a listed failure or attempt timeout which the giveup
  predicate did not refuse.
  The caller receives the value of the successful attempt, or the unlisted
  exception as is, or - when attempts, giveup or deadline end it - the last
  failure (a timeout error when there was none).
  Cancelling the caller cancels the running attempt at once and is never
  swallowed; impossible limits are refused when the decorator is applied.""",
  ["inputs", "schedules", "fault_sequences"],
  "every attempt duration, limit, pause, cancellation instant (arbitrary "
  "reals) and every sequence of attempt outcomes and giveup verdicts",
  "tests use a few fixed sleeps; the guarantee quantifies over every order "
  "in which attempt end, attempt limit, deadline and cancellation can fall",
  ["aiomisc/backoff.py", "aiomisc/timeout.py"],
  [("asyncbackoff / asyncretry / RetryPolicy loops", "aiomisc/backoff.py"),
   ("timeout decorator", "aiomisc/timeout.py")],
  note="""<=3 attempts (thorough 4), all times symbolic reals; outside:
  functions which suppress cancellation, more attempts""",
  harness="c01_backoff")

P("C02", "First-result selection, group cancellation, shielding, wrapping",
  """Awaiting a selection of awaitables ends when the first of them ends and
  reports exactly the position and value of one which ended first, or raises
  its exception (or returns it, when asked to), or ends at its timeout with
  nothing selected; by default all the others
  are then cancelled and, unless told not to wait, have ended when it
  returns, without cancellation on request they keep running, and
  cancelling the selection itself cancels all of them.
  Cancelling a group cancels every unfinished task in it, leaves finished
  ones alone, fails plain futures, and the returned awaitable ends exactly
  when all these tasks have ended.
  A shielded call runs to its end although its caller is cancelled, and a
  callable wrapped to be awaitable yields exactly its value, exception, or
  the very awaitable it returned.""",
  ["inputs", "schedules"],
  "every order and duration of the awaitables, every mix of outcomes, every "
  "instant of cancellation, time the awaitables need to end when cancelled",
  "tests try a few orders with fixed sleeps; ties, slow cancellation and "
  "cancellation of the selection are not reached",
  ["aiomisc/utils.py"],
  [("SelectAwaitable / SelectResult", "aiomisc/utils.py"),
   ("cancel_tasks / set_exception / shield / awaitable",
    "aiomisc/utils.py")],
  note="3 awaitables, all durations and instants symbolic",
  harness="c02_select")

P("C03", "Circuit breaker: when calls pass, fail fast, and recover",
  """While the breaker passes, every call runs the function exactly once
  and the caller gets its value or exception as is; while it is broken no
  call runs the function and each gets the circuit-broken error carrying the
  last listed failure (none if a call succeeded since).
  It breaks exactly when ten window parts (tenths of the response time) have
  been recorded and every part within the response time reached the failure
  ratio, counting as failures only the listed exceptions which the inspector
  accepts, and stays broken for the broken time.
  Then it recovers, letting through a share of calls which grows as
  2**(elapsed/recovery time) - 1: it breaks again as soon as the share of
  recorded parts over the ratio is at least half the ratio, else, once the
  recovery time has passed, passes calls for at least the passing time.
  Ratios outside 0..1 and non-positive response times are refused.""",
  ["inputs", "histories"],
  "every history of call instants and outcomes within the bound, every "
  "response/broken/recovery/passing time, every random draw",
  "tests patch time and replay a few histories; the state machine depends on "
  "arbitrary call instants relative to window edges",
  ["aiomisc/circuit_breaker.py"],
  [("CircuitBreaker.context / _compute_state / counter",
    "aiomisc/circuit_breaker.py"), ("cutout", "aiomisc/circuit_breaker.py")],
  note="histories of bounded length from each state",
  harness="c03_breaker")

P("C04", "Aggregated calls: every caller gets its own result, in time",
  """Every argument passed to an aggregated function reaches the wrapped
  function in exactly one call which runs to its end, with at most the
  maximum number of arguments, in arrival order, made when the batch is full
  or at latest the configured leeway after the first argument of the batch
  arrived.
  Every caller gets the result or exception belonging to its own argument,
  the error of the whole call, or the result-not-set error when the function
  delivered nothing for it; no caller waits forever.
  Cancelling one caller affects no other caller of the batch: if it was
  running the wrapped function, the call is repeated for the others at once.
  Invalid limits are refused.""",
  ["inputs", "schedules", "fault_sequences"],
  "every arrival instant, function duration and outcome, every caller "
  "cancelled at any instant",
  "tests use gather with fixed sleeps; which caller runs the batch and when "
  "it is cancelled is a matter of schedule",
  ["aiomisc/aggregate.py"],
  [("AggregatorAsync.aggregate / _execute", "aiomisc/aggregate.py")],
  note="4 callers, max_count 1..3 or none, one cancellation, reals",
  harness="c04_aggregate")

P("C05", "Periodic and recurring calls: no overlap, right delays, clean stop",
  """A periodic callback runs first after the delay and then again exactly
  the interval after each previous run ended, runs never overlap, a failing
  run (suppressed or not) does not end the series, and a strategy's delay,
  skip or stop decision is obeyed exactly.
  After stopping no further run starts, the running one is cancelled (or,
  when shielded, left to finish), and what stopping returns ends only when
  the series has ended.
  Starting twice is refused while it runs, and a stopped callback can be
  started again at once and stopped again like a new one.""",
  ["inputs", "schedules", "histories"],
  "every interval, delay, run duration and outcome, stop/start at any "
  "instants",
  "tests sample real sleeps with tolerances; stop during a run, restart right "
  "after stop and boundary instants are not reached",
  ["aiomisc/recurring.py", "aiomisc/periodic.py",
   "aiomisc/service/periodic.py"],
  [("RecurringCallback._start", "aiomisc/recurring.py"),
   ("PeriodicCallback.start/stop", "aiomisc/periodic.py"),
   ("PeriodicService", "aiomisc/service/periodic.py")],
  note="3 runs, one stop and one restart at symbolic instants",
  harness="c05_periodic")

P("C06", "Cron callbacks run at the scheduled instants and only then",
  """A cron callback runs at the first instant matching its specification
  strictly after it was started, and after each run again at the first
  matching instant after that run ended: matching instants which pass while
  a run lasts are skipped, none is served twice, runs never overlap and
  failures do not end the series.
  Stopping ends the series and starting again schedules from that moment;
  the cron service starts and stops every registered function with the
  options given at registration and refuses invalid registrations.""",
  ["inputs", "schedules"],
  "every start instant within the period, every run duration, stop instant",
  "tests wait for real seconds; exact boundary instants and long runs are "
  "not reached (and the test module is excluded here)",
  ["aiomisc/cron.py", "aiomisc/service/cron.py"],
  [("CronCallback.get_next", "aiomisc/cron.py"),
   ("CronService", "aiomisc/service/cron.py")],
  note="""croniter is replaced by its specification (the next multiple of
  the period), start instants and durations symbolic""",
  harness="c06_cron")

P("C07", "Resource pool: bounded, exclusive, checked, nothing leaked",
  """A pool never holds more instances than its size, never gives one
  instance to two holders, and hands out only instances which passed the
  check; one which fails the check or is returned past its recycle age is
  destroyed exactly once and replaced on demand.
  Failures or cancellation at any point of creating, checking or destroying
  an instance, or of waiting for one, lose no capacity: as long as holders
  return their instances, every waiter is eventually served or gets an
  error.
  Closing destroys every instance that still exists, idle or in use, exactly
  once and within the timeout.""",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of acquirers and holders, every failure or "
  "cancellation point, every recycle age",
  "tests use a few random runs; leaks need a failure or cancellation at one "
  "particular await",
  ["aiomisc/pool.py"],
  [("PoolBase.__acquire/__release/__recycle_instance/close",
    "aiomisc/pool.py")],
  note="maxsize 1-2, 3 users, one fault or cancellation, times symbolic",
  harness="c07_pool")

P("C08", "Thread pools: each job once, right answer, orderly shutdown",
  """Every function given to the thread pool (or to a new thread) runs at
  most once, in the submitter's context and outside the event loop thread,
  and its caller gets exactly its result or exception even when others are
  cancelled or fail; a cancelled job which has not begun never runs.
  Never more threads than the maximum run, and no submitted job stays queued
  while the pool is alive and a thread is free or may still be added.
  Shutting down completes every unfinished call with an error, makes further
  submissions fail, ends every idle thread, waits (when asked) for running
  jobs up to its limit, and may be repeated.""",
  ["schedules", "fault_sequences"],
  "every interleaving of submitter, workers, canceller and shutdown with a "
  "bounded number of preemptions",
  "tests run real threads whose interleavings the OS picks; they cannot "
  "steer a submit between two steps of a shutdown",
  ["aiomisc/thread_pool.py"],
  [("ThreadPoolExecutor.submit/shutdown, WorkItem, TaskChannel",
    "aiomisc/thread_pool.py"), ("threaded, threaded_separate, "
    "run_in_new_thread", "aiomisc/thread_pool.py")],
  note="""simulated threads, line-level preemption at most K times, <=3
  jobs""",
  harness="c08_threads")

P("C09", "Threaded iterables: same items in order, ends and closes cleanly",
  """Iterating a generator run in a thread yields exactly its items in
  order, then ends, or raises the generator's own exception after the items
  produced before it.
  With a size limit at most that many produced items wait in the queue (one
  more may be in the producer's hands).
  Closing early, leaving its context, or dropping the iterator stops the
  generator (its cleanup runs) and waiting for the close ends; no item is
  lost or repeated for any relative speed of producer and consumer.""",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of generator thread and consumer, every length, size "
  "limit, failure position and close position within the bounds",
  "tests run real threads; the race between the last item and the close flag "
  "needs a preemption at one line",
  ["aiomisc/iterator_wrapper.py", "aiomisc/thread_pool.py"],
  [("IteratorWrapper._in_thread/__anext__/close",
    "aiomisc/iterator_wrapper.py"),
   ("FromThreadChannel", "aiomisc/iterator_wrapper.py")],
  note="<=3 items, limit 0..2, line-level preemption at most K times",
  harness="c09_iterable")

P("C10", "Waiting for coroutines from threads always returns",
  """Code in a thread which runs a coroutine on the event loop and waits for
  it gets exactly the coroutine's result, or its exception - including when
  the coroutine is cancelled - and never waits after the coroutine has
  ended.
  The coroutine runs on the event loop's thread, exactly once.""",
  ["schedules", "fault_sequences"],
  "every interleaving of loop and thread, every outcome and cancellation "
  "instant",
  "tests cover plain success; cancellation during the wait is not tried",
  ["aiomisc/thread_pool.py"],
  [("CoroutineWaiter, wait_coroutine, sync_wait_coroutine, sync_await",
    "aiomisc/thread_pool.py")],
  note="line-level preemption at most K times, <=2 waiting threads",
  harness="c10_syncwait")

P("C11", "Entrypoint startup: all services start, in order, or it fails",
  """Entering the entrypoint runs every pre-start receiver to its end before
  any service starts, starts every service exactly once and returns when
  each has finished starting or signalled readiness, then runs every
  post-start receiver; a service which goes on running after it signalled
  readiness keeps running in the background.
  When a service fails to start before it was ready, entering raises that
  failure and what has been started does not stay running.
  Inside, the entrypoint, its loop and context are the current ones.""",
  ["schedules", "fault_sequences"],
  "every order and duration of starts, readiness signals and failures",
  "tests start one or two services in one order",
  ["aiomisc/entrypoint.py", "aiomisc/service/base.py"],
  [("Entrypoint._start/_start_service/start_services",
    "aiomisc/entrypoint.py")],
  note="<=3 services, all start/readiness/failure instants symbolic",
  harness="c11_start")

P("C12", "Entrypoint shutdown: every service stopped once, then signals",
  """Leaving the entrypoint (normally, by exception, or by a termination
  signal) runs the pre-stop receivers, calls stop of every started service
  exactly once with the reason, lets each stop run to its end even when
  another one fails, then runs the post-stop receivers.
  Background parts of services are cancelled and ended, waiters for closing
  are released, the context is discarded and the previous signal handlers
  are restored.
  After a termination signal the shutdown is cut off at the shutdown
  timeout with the documented exit status, and not before.""",
  ["schedules", "fault_sequences"],
  "every stop duration and outcome, instants of signal and timeout",
  "tests stop services which end at once",
  ["aiomisc/entrypoint.py"],
  [("Entrypoint._stop/stop_services/graceful_shutdown/_on_interrupt",
    "aiomisc/entrypoint.py")],
  note="<=3 services, all durations, outcomes and instants symbolic",
  harness="c12_stop")

P("C13", "Signals call every receiver and cannot change once frozen",
  """Calling a signal runs every connected receiver exactly once with the
  given arguments and ends after all of them; an error of a receiver reaches
  the caller.
  A receiver which is not a coroutine function, or one connected or
  disconnected after freezing, is refused and changes nothing; a copy has
  the same receivers, is independent and not frozen.
  Receivers connected by the decorator or at class level are seen by every
  entrypoint created later.""",
  ["histories", "inputs"],
  "every history of connect, disconnect, freeze, copy and call within the "
  "bound, every mix of receiver outcomes",
  "tests cover each operation once, not their histories",
  ["aiomisc/signal.py"],
  [("Signal", "aiomisc/signal.py"), ("receiver", "aiomisc/signal.py")],
  note="histories of <=5 operations over 3 receivers and 2 signals",
  harness="c13_signal")

P("C14", "Context values reach every waiter, whatever happens to the others",
  """Everyone who awaits a context key gets the value set for it, no matter
  whether it was set before or after they began to wait, from the loop or
  from another thread; later waiters get the most recent value.
  Cancelling or timing out one waiter changes nothing for the other waiters
  of the key or for later ones.
  A context belongs to one loop, is found from it while open, and is gone
  after closing.""",
  ["schedules", "histories"],
  "every order of set, wait, cancel and close within the bound",
  "tests set before waiting or once after; a cancelled waiter is not tried",
  ["aiomisc/context.py"],
  [("Context.__getitem__/__setter", "aiomisc/context.py"),
   ("get_context", "aiomisc/context.py")],
  note="3 waiters, 2 sets, cancellations, all at symbolic instants",
  harness="c14_context")

P("C15", "Statistics report what was counted, per kind and instance",
  """The reported value of each metric equals what was assigned and added to
  it on that instance, starting from zero, independent of other instances
  and kinds, and every declared numeric metric (inherited ones too) of every
  live instance is reported exactly once with its kind and name.
  Asking for kinds reports these kinds and their subclasses only.
  Statistics kept by the components (calls, results, errors, time) equal
  what really happened.""",
  ["inputs", "histories"],
  "every sequence of assignments and increments with arbitrary numbers",
  "tests check one increment sequence",
  ["aiomisc/counters.py"],
  [("Metric, MetaStatistic, get_statistics", "aiomisc/counters.py")],
  note="histories of <=4 operations with symbolic numbers",
  harness="c15_statistics")

P("C16", "Worker wire protocol delivers whole messages in order",
  """Whatever sequence of objects one side sends, the other side receives
  equal objects in the same order, however the transport splits, merges or
  partially accepts the bytes, over blocking (buffered) files, sockets and
  the asynchronous stream.
  A stream cut at any point makes the receiver report a connection or
  end-of-stream error instead of returning a wrong or partial object or waiting
  forever, and closing ends the stream.""",
  ["inputs", "fault_sequences"],
  "every split of reads and writes and every cut point within the bounds",
  "tests use socket pairs with messages small enough never to be split",
  ["aiomisc_worker/protocol.py"],
  [("Protocol.send/receive, SocketIOProtocol, AsyncProtocol",
    "aiomisc_worker/protocol.py")],
  note="1-3 messages of symbolic size, every read/write chunk symbolic",
  harness="c16_protocol")

P("C17", "Process worker pool: right answers to the right callers",
  """Each task given to the worker pool is sent to exactly one authenticated
  worker and its caller gets that worker's result or exception, even when
  other tasks are cancelled, fail or their worker dies; a dying worker fails
  exactly the task it was running.
  Only peers proving knowledge of the secret with a known identity are
  given work or can affect callers; cancelling a running task signals
  exactly the process running it.
  Closing the pool ends every caller and every handler.""",
  ["schedules", "fault_sequences"],
  "every order of connections, replies, deaths, cancellations and close "
  "within the bound",
  "tests fork real processes (and cannot even run in every sandbox); the "
  "orders of events are up to the OS",
  ["aiomisc/worker_pool.py", "aiomisc_worker/worker.py"],
  [("WorkerPool.__handle_client/create_task/close",
    "aiomisc/worker_pool.py"),
   ("worker/execute", "aiomisc_worker/worker.py")],
  note="""<=2 workers, <=3 tasks, in-memory streams, processes and kill
  replaced by recording stand-ins""",
  harness="c17_workerpool")

P("C18", "DNS zone store answers exactly what its zones contain",
  """A query returns exactly the records with that name and type in the
  longest existing zone which is the name itself or an ancestor of it by
  whole labels, and nothing when there is none - for every history of adding,
  removing and replacing zones and records, with or without trailing dots.
  A zone accepts only records whose name is the zone name or below it by
  whole labels; adding an existing zone or removing an absent one is
  refused.
  Replacing is all or nothing.""",
  ["inputs", "histories"],
  "every name and zone within the label bounds (symbolic labels), every "
  "history of operations within the bound",
  "tests use a handful of names; nested zones with gaps and names sharing a "
  "suffix are not tried",
  ["aiomisc/service/dns/store.py", "aiomisc/service/dns/tree.py",
   "aiomisc/service/dns/zone.py"],
  [("DNSStore.query/add_zone/remove_zone/replace",
    "aiomisc/service/dns/store.py"),
   ("RadixTree.find_prefix", "aiomisc/service/dns/tree.py"),
   ("DNSZone.check_record", "aiomisc/service/dns/zone.py")],
  note="names of <=4 labels over a symbolic alphabet, <=3 zones",
  harness="c18_dnsstore")

P("C19", "DNS server: well formed, complete or truncated answers",
  """Every well formed request gets exactly one answer with its id and
  question carrying exactly the store's records, the name error when there
  are none, and the server failure status when it cannot be processed.
  Over UDP an answer never exceeds the size the client can take (512 bytes
  unless it announced more), and one which had to be cut says so.
  Over TCP any number of requests on a connection are answered in order,
  however the bytes are split, and the connection is closed at its end.""",
  ["inputs", "fault_sequences"],
  "every number of records, announced size and split of the stream within "
  "the bounds",
  "tests send whole small messages",
  ["aiomisc/service/dns/service.py"],
  [("DNSServer.handle_request", "aiomisc/service/dns/service.py"),
   ("UDPDNSServer, TCPDNSServer", "aiomisc/service/dns/service.py")],
  note="record counts and EDNS sizes symbolic, stream splits symbolic",
  harness="c19_dnsserver")

P("C20", "Threaded log handler: nothing lost, reordered or blocking",
  """Every record handed to a started threaded handler is passed to the
  target exactly once, in the order of acceptance, including those accepted
  before it is closed; a target which fails on a record does not stop the
  following ones.
  Logging from any thread does not wait for the target or for the flush
  interval as long as the queue has room, never deadlocks and never raises
  into the caller.
  Closing ends the handler's thread.""",
  ["schedules", "fault_sequences"],
  "every interleaving of loggers, handler thread and close with bounded "
  "preemptions",
  "tests log a few records from one thread and wait",
  ["aiomisc/log.py"],
  [("ThreadedHandler.emit/_in_thread/close", "aiomisc/log.py")],
  note="2 logging threads, <=3 records, line-level preemption <=K",
  harness="c20_log")

P("C21", "JSON log formatter: one valid JSON object for every record",
  """Formatting any log record the logging package can produce - any level,
  message, arguments, extra attributes, exception or missing field - yields
  one JSON text on which nothing is lost: it holds the rendered message,
  level, all standard fields under their documented names, every public extra
  field which has a value and a name of its own, the value of each argument,
  the stack trace when there is an exception, and the timestamp when
  configured.
  Formatting neither raises nor changes the record.""",
  ["inputs"],
  "every level number, field presence, argument kind and extra name class",
  "tests format three records",
  ["aiomisc_log/formatter/json.py"],
  [("JSONLogFormatter.format", "aiomisc_log/formatter/json.py")],
  note="levels symbolic integers, kinds of every field chosen symbolically",
  harness="c21_json")

P("C22", "TLS options always yield the security they ask for",
  """The TLS context built from options has exactly the requested protocol
  range and ciphers, no compression, loads the given CA and certificate, and
  verifies the peer whenever that was requested: a server requiring client
  certificates demands them, and a client with verification on verifies the
  server's certificate and name.
  Verification is off only when it was switched off (or, on servers, client
  certificates are not required), and a missing CA file is an error.""",
  ["configurations"],
  "every combination of purpose, verify, require_client_cert, ca, cert, key, "
  "versions and ciphers",
  "tests run handshakes in a few combinations with self-signed certificates",
  ["aiomisc/service/tls.py"],
  [("SSLOptions.create_context", "aiomisc/service/tls.py"),
   ("TLSServer/TLSClient/RobustTLSClient", "aiomisc/service/tls.py")],
  note="all option combinations symbolic, real ssl contexts inspected",
  harness="c22_tls")

P("C23", "Network servers handle every client and stop cleanly",
  """A TCP, TLS or UDP server service calls its handler exactly once for each
  connection or datagram with that peer's data, independently of other
  peers' failures, from when it has started until it is stopped.
  Stopping cancels and ends every handler, closes the listening socket and
  then accepts nobody; address and port report the bound socket.
  A server without an address and without a socket, or with something that
  is not a socket, is refused; sockets are bound with the requested family,
  options and flags.""",
  ["schedules", "fault_sequences", "configurations"],
  "every arrival and duration of handlers, failures, the instant of stop, "
  "and option combination",
  "tests connect one client and read an answer",
  ["aiomisc/service/tcp.py", "aiomisc/service/tls.py",
   "aiomisc/service/udp.py", "aiomisc/service/base.py", "aiomisc/utils.py"],
  [("TCPServer, TLSServer, UDPServer", "aiomisc/service/"),
   ("TaskStoreBase.create_task/stop", "aiomisc/service/base.py"),
   ("bind_socket", "aiomisc/utils.py")],
  note="3 peers, times symbolic, sockets and transports replaced by "
       "recording stand-ins",
  harness="c23_servers")

P("C24", "Asynchronous files behave like the files they wrap",
  """Every operation on an asynchronous file has the effect and result of
  the same operation on an ordinary file opened with the same name, mode and
  options (also compressed ones), in the order awaited, and runs blocking
  work in the executor.
  Opening happens once, leaving the context closes the file, reading before
  opening is refused, an unopened or closed file can be discarded silently,
  and iteration yields every line once.
  Asynchronous files are ordered as the wrapped ones (that is, not), and
  those of different files are not equal.""",
  ["inputs", "histories"],
  "every history of operations within the bound, concurrent iteration",
  "tests check single operations",
  ["aiomisc/io.py"],
  [("AsyncFileIO and subclasses, async_open", "aiomisc/io.py")],
  note="histories of <=4 operations on a symbolic content",
  harness="c24_io")

P("C25", "Error reporting transport: every event sent or reported failed",
  """Each event given to the transport is posted at most once, and exactly
  one of its callbacks is called: success after an accepted post, failure
  with the matching error otherwise, also when it was dropped from a full
  queue or given after closing.
  Closing waits (within its timeout) for the events accepted before, ends
  every worker, releases the session and may be repeated.""",
  ["schedules", "fault_sequences"],
  "every arrival, post duration, response kind and close instant",
  "tests run a local server answering at once",
  ["aiomisc/service/raven.py"],
  [("AioHttpTransport, QueuedAioHttpTransport",
    "aiomisc/service/raven.py")],
  note="<=4 events, queue 1-2, workers 1-2, http session replaced by a stub",
  harness="c25_raven")

P("C26", "Services: required parameters, attributes, pickling, utilities",
  """A service refuses to be created without its required parameters and a
  class whose start or stop is not a coroutine function cannot be defined;
  every given parameter is readable as an attribute and assigning one later
  is kept.
  A service pickled or copied and restored has exactly its current parameters,
  is independent of the original and can be started like it.
  Splitting an iterable into chunks preserves every item in order with all
  chunks but the last full.""",
  ["inputs", "histories", "configurations"],
  "every set of given and required parameters, later assignments, chunk size",
  "tests try one or two services",
  ["aiomisc/service/base.py", "aiomisc/utils.py"],
  [("ServiceMeta, Service", "aiomisc/service/base.py"),
   ("chunk_list", "aiomisc/utils.py")],
  note="<=3 parameters, <=3 assignments, lists of <=5, symbolic chunk size",
  harness="c26_service")

P("C27", "systemd watchdog tells systemd the truth, in time",
  """Under systemd the service announces starting before services start,
  readiness only after all have started, stopping when the shutdown is over,
  and between readiness and stop sends a keep-alive at least twice per
  watchdog interval - also when single notifications fail.
  A changed interval is announced; without a notification socket or interval
  nothing is sent and nothing fails.""",
  ["inputs", "fault_sequences", "configurations"],
  "every interval, start/stop duration, failing notification",
  "tests use one interval on a real socket (refused in some sandboxes)",
  ["aiomisc/service/sdwatchdog.py"],
  [("SDWatchdogService, _pre_start.._post_stop",
    "aiomisc/service/sdwatchdog.py")],
  note="times symbolic, socket replaced by a recording stand-in",
  harness="c27_sdwatchdog")

P("C28", "Process services: started, respawned and ended with certainty",
  """Starting a process service returns when its process is running;
  stopping interrupts it and, when it does not end within the stop timeout,
  kills it, so that no process survives the stop.
  A respawning service starts a new process within the poll time after the
  old one died, never has two alive at once, and starts none after stop.""",
  ["schedules", "fault_sequences"],
  "every instant of death, slow end, stop",
  "tests start real processes which behave",
  ["aiomisc/service/process.py"],
  [("ProcessService, RespawningProcessService",
    "aiomisc/service/process.py")],
  note="process, events and kill replaced by recording stand-ins with "
       "symbolic life times",
  harness="c28_process")

P("C29", "Network clients connect, retry and reconnect as configured",
  """A TCP or TLS client tries to connect at most the configured number of
  times with the configured pause, signals readiness when connected, hands
  the connection to its handler once, and fails with the last connection
  error when all attempts fail.
  A robust client connects again after the reconnect pause whenever it could
  not connect or its handler fails (as it does when the connection is lost),
  for as long as it is not stopped, and reports whether it is connected.
  Stopping or cancelling a client ends it at once (its handler may finish)
  and leaves no connection attempt, handler or open connection; the
  connection of a failed handler is closed.""",
  ["schedules", "fault_sequences"],
  "every sequence of connection outcomes, handler durations and outcomes, "
  "stop instant",
  "tests connect to a live server",
  ["aiomisc/service/tcp.py", "aiomisc/service/tls.py"],
  [("TCPClient.connect/start", "aiomisc/service/tcp.py"),
   ("RobustTCPClient.start", "aiomisc/service/tcp.py"),
   ("TLSClient.connect, RobustTLSClient.connect",
    "aiomisc/service/tls.py")],
  note="<=3 connection attempts and sessions, times symbolic, "
       "open_connection replaced by a stub",
  harness="c29_clients")

P("C30", "Worker processes answer every request and are replaced on death",
  """A worker process authenticates first and then answers each request with
  exactly one reply carrying the function's result, its exception or its
  cancellation, also when the result or the exception cannot be serialised,
  and ends when the connection does.
  The supervisor keeps one process per identity: each worker which dies
  abnormally is started again with the same identity, and none is started
  after the supervisor was told to stop; a failing initializer is reported
  once.""",
  ["fault_sequences", "histories"],
  "every sequence of requests and outcomes, worker deaths and interrupts",
  "tests fork real processes with well behaved functions",
  ["aiomisc_worker/worker.py", "aiomisc_worker/forking.py",
   "aiomisc_worker/process.py", "aiomisc_worker/process_inner.py"],
  [("execute/worker/bad_initializer", "aiomisc_worker/worker.py"),
   ("main/fork", "aiomisc_worker/forking.py")],
  note="<=3 requests, <=3 deaths, sockets, fork, wait and kill replaced by "
       "stand-ins",
  harness="c30_worker")

P("C31", "Logging set-up applies the requested level, format and handlers",
  """Configuring logging leaves the root logger with exactly the requested
  level and the handlers asked for (the format's own one plus every given
  one, each once), routes unhandled errors of the interpreter and the loop to
  them, and refuses unknown levels and formats; repeating it replaces the
  earlier set-up.
  The disabled format installs no handler of its own; every other one writes
  the level, name and message it is made of, errors with their traceback, to
  the stream asked for, with the date in the format asked for; the journal is
  refused when there is none.
  The default format is the journal's when the errors of the process go there,
  else plain when they go to no terminal, else rich or, without it, color.""",
  ["configurations"],
  "every format, level (name or number), set of handlers",
  "tests try some formats through a child process",
  ["aiomisc_log/__init__.py", "aiomisc/log.py", "aiomisc_log/enum.py",
   "aiomisc_log/formatter/color.py", "aiomisc_log/formatter/rich.py",
   "aiomisc_log/formatter/journald.py"],
  [("basic_config, create_logging_handler", "aiomisc_log/__init__.py"),
   ("basic_config, UnhandledLoopHook", "aiomisc/log.py")],
  note="all combinations of the option kinds",
  harness="c31_logconfig")

P("C32", "Diagnostic and metrics services report on time and end cleanly",
  """A memory tracer traces from its start to its stop and reports, at its
  start and then at every interval, how the memory differs from its start:
  the first lines of the grouping asked for, at most the number set, every
  number in its column and every size in the right unit.
  A profiler profiles from its start to its stop and reports, at its start
  and then at every interval, the most expensive calls in the order and
  number asked for, also into the file when one is given, and goes on after a
  report or a write failed.
  A carbon sender sets up a client with the address, protocol, storage and
  cleaned namespace it was given, and sends what was counted at its start and
  then at every interval, also after a sending failed.
  When stopped they end at once, and nothing is traced, profiled, reported,
  written or sent any more, and nothing fails.""",
  ["inputs", "schedules", "fault_sequences"],
  "every interval, stop instant, size, duration and outcome of a sending",
  "tests only start and stop a profiler; the tracer and the carbon sender "
  "have none",
  ["aiomisc/service/tracer.py", "aiomisc/service/profiler.py",
   "aiomisc/service/carbon.py"],
  [("MemoryTracer", "aiomisc/service/tracer.py"),
   ("Profiler", "aiomisc/service/profiler.py"),
   ("CarbonSender, strip_carbon_ns", "aiomisc/service/carbon.py")],
  note="tracemalloc, cProfile and the carbon clients replaced by recording "
       "stand-ins; times and sizes symbolic",
  harness="c32_diagnostics")

P("C33", "Web and gRPC services serve their application, then end cleanly",
  """An aiohttp, ASGI or uvicorn service creates and starts its application
  once, before it listens on the socket it was given or on the one bound to
  its address and port, and every client from then on is answered by that
  application; handlers of clients which are gone are cancelled unless asked
  otherwise, and TLS is used with the certificates asked for.
  Stopping it stops the listening at once (uvicorn: when its server looks
  next), gives running requests the shutdown timeout, waits for nothing else,
  stops the application once, and leaves no handler running.
  Every setting of an uvicorn service, and every handler, method, port and
  setting of a gRPC one, reaches the server; ports are told to those waiting
  for them, running calls get the graceful stop time.
  A start which fails or is interrupted leaves nothing listening and nobody
  waiting, and stopping afterwards does not fail.""",
  ["schedules", "configurations", "fault_sequences"],
  "every instant of requests, disconnects and the stop, every duration, every "
  "failing step, every setting",
  "tests make a request or two and stop when idle; uvicorn is started with "
  "its defaults only",
  ["aiomisc/service/aiohttp.py", "aiomisc/service/asgi.py",
   "aiomisc/service/uvicorn.py", "aiomisc/service/grpc_server.py"],
  [("AIOHTTPService.start/stop/create_site", "aiomisc/service/aiohttp.py"),
   ("ASGIHTTPService", "aiomisc/service/asgi.py"),
   ("UvicornService.start/stop", "aiomisc/service/uvicorn.py"),
   ("GRPCService", "aiomisc/service/grpc_server.py")],
  note="2 clients; aiohttp and uvicorn real on simulated sockets, the server "
       "of grpcio replaced by a recording stand-in",
  harness="c33_web")

P("C34", "A process pool hands out every outcome, counts every call, and ends",
  """A call submitted to a ProcessPoolExecutor from a running loop is given to
  the processes once, with exactly its arguments, and its caller is told its
  own result, its own error, its cancellation or the death of the processes at
  the instant it ends; without a running loop, or when the pool refuses it, a
  call is refused, not run and not counted.
  At every instant the statistic of this pool, and of no other, tells how many
  calls were submitted, are done, succeeded and failed, the time they took in
  total and the number of its processes; a cancelled call is done, but neither
  succeeded nor failed, and counting never fails.
  Every setting reaches the underlying pool; it goes on working until it is
  shut down as asked, and at the latest its deletion shuts it down.""",
  ["schedules", "configurations", "fault_sequences"],
  "every instant and duration of calls, cancellations and deaths, every "
  "outcome, every setting",
  "tests run a few sleeps and look neither at what is counted nor at calls "
  "which were cancelled",
  ["aiomisc/process_pool.py", "aiomisc/counters.py"],
  [("ProcessPoolExecutor.submit/_statistic_callback/__del__",
    "aiomisc/process_pool.py")],
  note="3 (4) calls; the standard library's pool replaced by a stand-in",
  harness="c34_processpool")

P("C35", "Plugins, event loops and identifiers are as the environment asks",
  """Every installed plugin of the groups "aiomisc.plugins" and "aiomisc" which
  can be loaded is set up exactly once under its name (one of several of the
  same name) and known by it; one which can not be loaded is reported and does
  not keep others from working, an error of a setup is raised, and with
  AIOMISC_NO_PLUGINS none is touched.  "python -m aiomisc.plugins" prints their
  names in order, and logs what they are for, as its options ask.
  uvloop is used exactly when it can be imported and AIOMISC_USE_UVLOOP is not
  set or says yes; a created event loop is a new one of its policy, becomes the
  current one, has the debug mode asked for and a pool of as many threads as
  asked for as its default executor; while a loop runs nothing is created or
  changed.
  An object belongs to the loop it was given or first used in; the current loop
  of one context is not seen by others, asking without one is an error.
  fast_uuid4 and fast_uuid1 make identifiers of their version: all 122 other
  bits of the first are random, the second ends in the node of the host and
  differs for instants less than 4096 ns apart.""",
  ["configurations", "inputs", "fault_sequences"],
  "every combination of plugins and variables, every setting of a loop, all "
  "random bits and instants",
  "tests see the plugins and variables of one machine, and a few identifiers",
  ["aiomisc/plugins/__init__.py", "aiomisc/plugins/__main__.py",
   "aiomisc/compat.py", "aiomisc/utils.py", "aiomisc/_context_vars.py"],
  [("setup_plugins", "aiomisc/plugins/__init__.py"),
   ("event_loop_policy, EventLoopMixin", "aiomisc/compat.py"),
   ("create_default_event_loop, fast_uuid1, fast_uuid4", "aiomisc/utils.py"),
   ("StrictContextVar", "aiomisc/_context_vars.py")],
  note="3 (4) plugins in 2 distributions; a stand-in for uvloop",
  harness="c35_environment")

P("C36", "DNS records put exactly the values given on the wire",
  """A record made by the create of any type has that type and class IN; what
  is sent for it is its name, type, class, time to live (3600 unless given)
  and exactly the values given, each in its field of the format which the RFC
  of the type defines.
  A value which fits its field is taken; one which does not is refused, never
  altered.
  Two records are equal, and have one hash, exactly when their name, type and
  all their values are equal; the time to live does not matter.""",
  ["inputs"],
  "every value of every number of every type; names, texts and addresses of "
  "all shapes",
  "tests create one or two records of each type and look at their attributes",
  ["aiomisc/service/dns/records.py"],
  [("DNSRecord.rr, create, _raw, __hash__", "aiomisc/service/dns/records.py")],
  note="all 32 bit numbers, texts of up to 256 bytes",
  harness="c36_records")
