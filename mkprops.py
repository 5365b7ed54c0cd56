#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os

H = "src/handlers/broker_handler.cpp"
S = "src/queuing/single_queue_manager.h"
M = "src/queuing/multi_queue_manager.cpp"
R = "src/reactor/reactor.cpp"
RW = "src/reactor/router_socket_wrapper.cpp"
W = "src/worker.cpp"
WR = "src/worker_registry.cpp"
SN = "src/handlers/status_notifier_handler.cpp"
RN = "src/notifier/reactor_status_notifier.cpp"
CU = "src/helpers/curl.cpp"
BC = "src/broker_connect.cpp"
CO = "src/broker_core.cpp"
CF = "src/config/broker_config.cpp"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


SOCK = ["messages the broker sends and receives on its worker, client and monitor sockets",
        "HTTP requests the broker makes to the frontend"]

prop("C01", "Every accepted job ends in a final report to the frontend",
     "For every evaluation request the broker has accepted, as long as the broker process lives, the frontend is "
     "eventually sent a final status (OK or FAILED) for that job, whatever workers crash, disconnect, fall silent, "
     "report internal errors, join or leave in the meantime. Once faults stop this happens within a bounded time; no "
     "accepted job is silently dropped or left waiting forever.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every workload, worker population, queue manager, and every sequence of worker crashes, connection losses, "
     "partitions, stalls, internal failures and frontend outages short enough for the notifier's retries",
     "The unit tests feed the handler a few fixed message sequences with one or two workers and never run to "
     "quiescence; a lost job only shows over a whole history (failure while others are queued, death during a retry).",
     [H, S, M, WR, R, SN],
     [("reassignment of the jobs of expired workers", H + ": process_timer"),
      ("handling of finished and failed jobs", H + ": process_worker_done"),
      ("re-queuing", H + ": reassign_request"), ("hand-over of unserviceable jobs", S + ": worker_terminated"),
      ("per-worker queues", M + ": worker_terminated")],
     [("jobs_/queues_", "accepted requests waiting for a worker", "src/queuing/*"),
      ("worker_jobs_/current_requests_", "request each worker is processing", "src/queuing/*")],
     SOCK)

prop("C02", "Jobs are sent only to registered workers that meet all their requirements",
     "The broker sends a job only to a worker that is registered at that moment and whose declared hardware group and "
     "headers satisfy every header of the job (hardware group is one of the listed alternatives, thread count is at "
     "least the requested one, any other header has an equal declared value). This holds for first dispatch, for jobs "
     "taken from a queue and for jobs reassigned after a failure.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "every mix of worker capabilities and job requirements, at every point of every history of registrations, "
     "failures, expirations and reassignments",
     "Header matching is tested on single calls; no test dispatches from a queue or reassigns with heterogeneous "
     "workers, where a wrong worker can be picked.",
     [W, S, M, H, WR],
     [("header matching", W + ": worker::check_headers"), ("idle worker selection", S + ": first_idle_worker_selector"),
      ("queue scan for a free worker", S + ": assign_request"), ("worker selection", M + ": enqueue_request")],
     [], SOCK)

prop("C03", "A worker is never given a job while it still holds another one",
     "Between sending a job to a worker and receiving that worker's final message about it (or giving the worker up), "
     "the broker never sends that worker another job. The same holds for a job a worker declared as running when it "
     "registered.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every interleaving of client requests, worker results (including late, repeated or mismatched ones), "
     "registrations and expirations, with either queue manager",
     "Tests check at most one queued job on one worker; double dispatch needs particular interleavings of results, "
     "retries and registrations.",
     [H, S, M],
     [("current request bookkeeping", S + ": worker_jobs_"), ("current request bookkeeping", M + ": current_requests_"),
      ("result check against the current job", H + ": process_worker_done")],
     [], SOCK)

prop("C04", "No worker stays idle while a job it should run is waiting",
     "Whenever the broker has finished handling an event, with the single-queue manager no accepted job is waiting "
     "while a registered worker able to run it is idle, and with the multi-queue manager no worker is idle while jobs "
     "wait in its own queue. In particular a worker that becomes free for any reason is immediately given the next "
     "job that waits for it.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every history of submissions, results of every kind (OK, FAILED, INTERNAL_ERROR, also for re-announced jobs), "
     "registrations and expirations",
     "Tests cover the success and FAILED paths with one queued job; the paths where a job fails and is moved to "
     "another worker while more jobs wait are never combined.",
     [H, S, M],
     [("next job on completion", H + ": process_worker_done"), ("assign_request", S), ("worker_finished/assign_request", M),
      ("dispatch on registration", H + ": process_worker_init")],
     [], SOCK)

prop("C05", "Silent workers are given up in bounded time and their jobs recovered",
     "A worker from which nothing has been received for max_liveness ping intervals (plus a small scheduling slack) "
     "is no longer treated as registered: its next ping is answered with an introduction request, no job is sent to "
     "it or accepted on its account, and its jobs have been reassigned to capable workers or reported as failed. This "
     "holds also for a worker that falls silent immediately after registering, under any message load and for any "
     "adjustment of the system clock.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every moment at which a worker dies, every load of other traffic, clock steps in both directions, broker "
     "stalls, and every max_liveness / ping_interval setting",
     "Tests inject one synthetic timer message of 1100 ms into workers whose liveness was set by hand; the reactor's "
     "measurement of time and the registration path are not part of any test that counts.",
     [H, R, "src/worker.h"],
     [("liveness countdown", H + ": process_timer"), ("elapsed time measurement", R + ": start_loop"),
      ("liveness reset", H + ": on_request")],
     [("liveness", "remaining ping intervals a worker may miss", "src/worker.h"),
      ("worker_timers_", "time since a worker was last heard", "src/handlers/broker_handler.h")],
     SOCK)

prop("C06", "Workers heard from in time are never given up",
     "A registered worker from which the broker keeps receiving any message at intervals shorter than max_liveness "
     "ping intervals (less a small scheduling slack) stays registered: its pings are answered with pong, and the job it holds is neither reassigned "
     "nor reported as failed on account of a timeout. Neither system clock steps, message load, nor the death of "
     "other workers changes that.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every timing of worker messages within the allowed silence, with clock steps in both directions, load, and "
     "other workers failing at the same time",
     "No test lets several workers live through time with the real reactor clock; clock steps are never injected.",
     [H, R, WR],
     [("liveness reset on any message", H + ": on_request"), ("liveness countdown", H + ": process_timer"),
      ("elapsed time measurement", R + ": start_loop")],
     [], SOCK)

prop("C07", "Failed attempts are retried up to the configured limit, then reported",
     "A job whose attempt ended with an internal error or with the loss of its worker is tried again as long as fewer "
     "than max_request_failures attempts have failed and a capable worker is registered. Once max_request_failures "
     "attempts have failed it is never sent to a worker again and the frontend is told FAILED; a job a worker "
     "reported as FAILED is never retried.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every sequence of internal errors and worker losses a job meets, also while it waits in a queue in between, for "
     "every configured limit",
     "Tests check single failures with hand-set counters; the count over several attempts, managers and causes is "
     "never followed.",
     [H, S, M],
     [("failure count check", H + ": check_failure_count"), ("failure counting", H + ": process_worker_done, process_timer")],
     [("failure_count", "failed attempts of a request", "src/worker.h")], SOCK)

prop("C08", "Every evaluation request gets ack and then exactly one correct verdict",
     "For every well-formed evaluation request the requesting client, and only it, receives 'ack' and then exactly "
     "one of 'accept' or 'reject': 'accept' if and only if the broker is not frozen and a registered worker meets all "
     "of the job's headers. A rejected job is never sent to any worker.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "every request at every point of every history of registrations and expirations, with any number of concurrent "
     "clients, with either queue manager",
     "Tests accept a handful of requests with one idle worker and reject one while frozen; the verdict after "
     "expirations, with busy workers or mixed capabilities is not tested.",
     [H, S, M, W],
     [("request handling", H + ": process_client_eval"), ("acceptance", S + ": enqueue_request"), ("acceptance", M + ": enqueue_request")],
     [], SOCK)

prop("C09", "Freezing rejects new jobs without disturbing accepted ones",
     "From the moment a freeze command is handled until an unfreeze command is handled, every new evaluation request "
     "is rejected and both commands are acknowledged. Jobs accepted before are unaffected: they are still "
     "dispatched, retried, reassigned and reported, and after unfreezing requests are accepted again.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of freeze/unfreeze commands with submissions, worker results, worker failures and "
     "registrations",
     "One test freezes an idle broker and submits one job; nothing checks queued and retried jobs during a freeze, "
     "nor unfreezing.",
     [H], [("frozen flag", H + ": process_client_eval, process_client_freeze, process_client_unfreeze")],
     [("is_frozen_", "whether new jobs are refused", "src/handlers/broker_handler.h")], SOCK)

prop("C10", "No message, however malformed or ill-timed, disrupts the broker",
     "Whatever frames workers, clients or the monitor send - truncated, empty, unknown, non-numeric, binary, or valid "
     "ones that are repeated, late or do not fit the sender's state - the broker keeps running and keeps serving all "
     "well-behaved peers correctly. A message that cannot be interpreted has no effect on other peers' jobs and replies.",
     ["inputs", "schedules", "histories"],
     "every malformed or out-of-place message at every point of an otherwise normal history",
     "Tests send almost only well-formed messages in the expected order; the space of bad messages times broker "
     "states cannot be enumerated by hand.",
     [H, W, RW, R, "src/reactor/command_holder.cpp"],
     [("argument checks", H + ": process_*"), ("command lookup", "src/reactor/command_holder.cpp"),
      ("numeric header parsing", W + ": count_matcher")],
     [], SOCK)

prop("C11", "Final reports to the frontend are truthful and issued exactly once",
     "The frontend is told OK for a job exactly once for each OK result from the registered worker holding that job, "
     "and never otherwise; it is told FAILED exactly once when that worker reports FAILED, when the retry limit is "
     "reached, or when no registered worker can take the job any more, and never otherwise. Results from workers "
     "that are not registered or do not hold the job change nothing, and an assignment whose final status was "
     "issued is never sent to a worker again (a job announced by a registering worker is an assignment of its own).",
     ["schedules", "fault_sequences", "histories"],
     "every history of results (also duplicated, late and mismatched ones), expirations, reassignments and "
     "registrations",
     "Tests compare the outputs of single handler calls; duplicates or contradictions across a history are not "
     "observed by any test.",
     [H, RN, S, M],
     [("result handling", H + ": process_worker_done"), ("expiration handling", H + ": process_timer"), ("report format", RN)],
     [], SOCK)

prop("C12", "Frontend notifications survive temporary failures, in order and unaltered",
     "A notification whose delivery to the frontend fails is attempted again with growing delays, up to four attempts "
     "in total, and is not sent again after an attempt succeeded; a refused, reset, erroneous or hanging frontend "
     "that recovers in time loses nothing, and later notifications get through once it recovers. Notifications reach the "
     "frontend in the order they were issued, at the configured address, port and credentials, with job id, status "
     "and message exactly as issued, starting with the very first one after the broker starts.",
     ["fault_sequences", "schedules", "inputs"],
     "every pattern of connection failures, HTTP errors, lost responses, hangs, resource shortage, every schedule of "
     "the notifier thread relative to the main loop, and every message text",
     "No test exercises the notifier handler, the asynchronous hand-over or the HTTP helper at all.",
     [SN, CU, RN, R],
     [("retry loop", SN + ": on_request"), ("HTTP POST", CU + ": curl_post"), ("query construction", CU + ": get_http_query"),
      ("asynchronous hand-over", R + ": asynchronous_handler_wrapper")],
     [], ["HTTP requests the broker makes to the frontend"])

prop("C13", "A slow frontend, a dead monitor or a flood never stalls the broker",
     "While frontend requests are slow, failing or hanging, the monitor is unreachable, or one peer floods the "
     "broker, every message that arrives from any worker or client is still handled within a fraction of a second: "
     "pings are answered, requests get their verdict, and jobs are dispatched.",
     ["schedules", "fault_sequences"],
     "every frontend/monitor fault pattern and load pattern, for every arrival of a message",
     "Tests call the handlers directly without a reactor, an HTTP endpoint or time.",
     [R, BC, RW, SN],
     [("asynchronous notifier", BC + ": add_async_handler"), ("poll loop", R + ": start_loop"), ("non-blocking sends", RW)],
     [], SOCK)

prop("C14", "The monitor gets every progress message and every abort",
     "Every progress message a registered worker sends is forwarded to the monitor exactly once, unchanged and in "
     "order. When a job leaves a worker that was given up, the monitor is told ABORTED if the job goes on elsewhere or FAILED "
     "if it does not, and it is told FAILED when a job is rejected for lack of a worker or exceeds the retry limit.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "every progress content and interleaving, and every history of expirations, retries and rejections",
     "Tests forward a single progress message and check single expirations in isolation.",
     [H, BC],
     [("forwarding", H + ": process_worker_progress"), ("abort/failure messages", H + ": notify_monitor callers")],
     [], ["messages the broker sends to the monitor socket"])

prop("C15", "Workers that survive a broker restart are re-adopted with their running job",
     "After the broker crashes at any point and is restarted, the first ping of a worker it does not know is "
     "answered with an introduction request, and a worker that introduces itself with a running job is registered as "
     "busy with it: it receives no job until it reports that one. The result of such a job is reported to the frontend; "
     "if it fails internally or the worker is lost, the frontend is told FAILED and the job is never sent to a worker.",
     ["crash_points", "schedules", "histories", "fault_sequences"],
     "every crash point of the broker, every set of workers running jobs at that time, and everything that happens to "
     "them afterwards, with either queue manager",
     "Tests build the re-announced state by hand with the multi-queue manager only; no test restarts a broker or "
     "looks at what is sent on the wire after a re-registration.",
     [H, S, M, RW],
     [("introduction", H + ": process_worker_ping, process_worker_init"), ("registration with a running job", S + ": add_worker"),
      ("registration with a running job", M + ": add_worker"), ("incomplete requests", "src/worker.h: job_request_data")],
     [], SOCK)

prop("C16", "Messages reach the addressed peer complete and unmixed",
     "Every message the broker sends is one complete, well-formed protocol message delivered only to the peer it is meant "
     "for: a worker receives a job exactly as 'eval', job id and the client's payload frames byte for byte, without "
     "headers and metadata. Frames of different messages are never merged, dropped, truncated or sent to another "
     "peer, whatever bytes identities, ids and payloads contain.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "every payload (binary, empty frames, any count), every identity, every interleaving of sends on the sockets, "
     "and peers disconnecting at any point",
     "Tests observe handler outputs before they reach a socket; the multipart framing on shared sockets is not tested.",
     [RW, H, R, "src/worker.h"],
     [("multipart send/receive", RW), ("request data", "src/worker.h: job_request_data"), ("request parsing", H + ": process_client_eval")],
     [], ["frames on the broker's sockets"])

prop("C17", "Waiting jobs are served first come, first served",
     "When a worker takes a job from the single queue, it is the one that has been waiting longest among those the "
     "worker can run; each queue of the multi-queue manager is served in order of arrival. Jobs arriving within the "
     "same clock tick, long queues and system clock adjustments do not change the order.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every arrival pattern (bursts within one millisecond, many waiting jobs, mixed requirements) and every clock step",
     "Tests queue at most two jobs.",
     [S, M],
     [("arrival order comparator and sort", S + ": fcfs_job_comparator, assign_request"), ("std::queue per worker", M)],
     [("arrived_at", "arrival time of a waiting job", S)], SOCK)

prop("C18", "The multi-queue manager spreads jobs over all capable workers",
     "With the multi-queue manager each accepted job goes to the capable registered worker that has gone longest "
     "without being given one. So jobs that the same workers can run are handed to these workers in turn, however workers "
     "join and leave.",
     ["histories", "schedules", "inputs"],
     "every mix of capabilities and requirements and every order of submissions, completions and registrations",
     "One test assigns two jobs to two identical workers.",
     [M], [("rotation of the worker list", M + ": enqueue_request")],
     [("worker_queue_", "workers ordered by last assignment", "src/queuing/multi_queue_manager.h")], SOCK)

prop("C19", "Runtime statistics match the actual state of the system",
     "The reply to a statistics request reports the true current number of waiting jobs, registered workers, idle "
     "workers, jobs in progress and whether the broker is frozen, and the true totals of jobs finished OK and of attempts "
     "reported as failed, all taken at the time of the request. The totals never decrease.",
     ["histories", "schedules", "fault_sequences"],
     "every history and every moment of the request, with either queue manager",
     "No test requests statistics.",
     [H, S, M],
     [("statistics", H + ": runtime_stats_, process_timer, process_client_get_runtime_stats"), ("queue length", S + ": get_queued_request_count"),
      ("queue length", M + ": get_queued_request_count")],
     [("runtime_stats_", "published counters", "src/handlers/broker_handler.h")], SOCK)

prop("C20", "The reactor delivers to asynchronous handlers exactly once, in order",
     "Every message routed to an asynchronous handler is processed by that handler exactly once, complete and in the order "
     "it was routed, even if it is sent before the handler's thread has started; everything a handler sends in response reaches "
     "the addressed socket or handler exactly once and in order. A termination request made at any time ends the loop "
     "in bounded time after the handlers have processed what was routed to them.",
     ["schedules", "histories", "inputs"],
     "every interleaving of the reactor thread, any number of handler threads and a terminating thread, and every "
     "message shape",
     "The reactor test suite is flaky (it races with its own threads) and therefore excluded; schedules are left to "
     "the operating system.",
     [R],
     [("in-process sockets and handler thread", R + ": asynchronous_handler_wrapper"), ("poll loop and routing", R + ": start_loop, send_message"),
      ("termination flag", R + ": terminate")],
     [], ["handler invocations", "messages on the reactor's sockets"])

prop("C21", "State does not grow with the number of past workers and jobs",
     "The memory the broker holds depends on the currently registered workers and unfinished jobs, not on how many workers have "
     "come and gone or how many jobs and messages it has handled. After any amount of churn that ends in the same "
     "situation it holds the same amount of memory, up to a constant.",
     ["histories", "fault_sequences"],
     "every length of history of workers registering and expiring, reconnects under new identities, jobs finishing, "
     "failing and being rejected, malformed messages and notifications",
     "Tests run a few events and never measure retained memory.",
     [H, S, M, WR, R],
     [("removal on expiration", H + ": process_timer"), ("removal", WR + ": remove_worker"), ("removal", S + ": worker_terminated"),
      ("removal", M + ": worker_terminated")],
     [("worker_timers_", "per-worker timers", "src/handlers/broker_handler.h")], ["live heap of the broker"])

prop("C22", "The broker runs with exactly the configured settings or does not start",
     "A started broker listens for clients and workers, connects to the monitor and reports to the frontend at exactly the "
     "configured addresses and ports with the configured credentials, and applies the configured queue manager and limits, with the "
     "documented default for every omitted item. If the configuration cannot be read or names an unknown queue manager, or a listening address is not available, the process ends with a "
     "failure status instead of running half-configured.",
     ["configurations", "fault_sequences"],
     "every configuration file (any subset of items, truncated or damaged files) and every failure to acquire a "
     "listening address",
     "Tests parse three documents and never start the program; the executable is not even linked in the test build.",
     [CF, CO, BC, "src/main.cpp", "src/reactor/socket_wrapper_base.cpp"],
     [("configuration loading", CF), ("start-up", CO + ": broker_core"), ("endpoints", BC), ("bind/connect", "src/reactor/socket_wrapper_base.cpp")],
     [], ["endpoints bound and connected, HTTP requests, process exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
