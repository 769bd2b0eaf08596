#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["source/fern/" + f for f in files],
                          "mechanism": [{"name": n, "where": "source/fern/" + w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Every task submitted to a thread pool runs exactly once and reports back",
     "A task submitted to a running thread pool is executed exactly once, by one of the pool's threads, whichever client threads submit at the same time and whatever the other tasks do, and submitting never blocks on the execution of tasks. "
     "The future returned to the submitter becomes ready and delivers that task's own result or exception, and everything the task wrote is visible to whoever waited for it. "
     "A pool with one thread starts the tasks in the order in which a client submitted them, and a pool of n threads can have n tasks in progress at once.",
     ["schedules", "inputs"], "All interleavings of 1-3 workers and 1-2 client threads submitting 1-4 tasks (returning, throwing, submitting themselves), up to a preemption bound.",
     "The tests run each scenario under whatever schedule the machine happens to pick; a lost wake-up, a double pop or an unsynchronised hand-over needs one particular interleaving.",
     ["core/thread_pool.h", "core/thread_pool.cc", "core/thread_safe_queue.h", "core/detail/function_wrapper.h"],
     [("ThreadPool::submit, ThreadPool::execute_task_or_wait", "core/thread_pool.cc"), ("ThreadSafeQueue", "core/thread_safe_queue.h")],
     ["std::future returned by submit", "effects of the tasks"])

prop("C02", "Destroying or failing to construct a thread pool ends cleanly",
     "Destroying a thread pool always terminates, whatever its threads are doing at that moment, even if not a single worker would ever be woken by chance: all worker threads have ended and been joined, and no task starts afterwards. "
     "A task that was running is completed; the future of every task ever submitted is ready once the pool is gone, with the task's outcome or with a broken promise for a task that was never started. "
     "If a worker thread cannot be created the constructor throws and no thread is left running.",
     ["schedules", "fault_sequences"], "All interleavings of destruction with 1-3 workers that are starting, waiting, popping or executing, with 0-3 queued tasks, and failure of the k-th thread creation, up to a preemption bound.",
     "Tests destroy pools at one lucky moment; the window between a worker's check and its wait is a few instructions wide. Thread creation never fails in the tests.",
     ["core/thread_pool.h", "core/thread_pool.cc", "core/join_threads.cc"],
     [("ThreadPool::~ThreadPool, ThreadPool::ThreadPool", "core/thread_pool.cc"), ("JoinThreads::~JoinThreads", "core/join_threads.cc")],
     ["termination", "threads left", "std::future state"])

prop("C03", "The thread safe queue is a linearizable first-in first-out queue",
     "Any concurrent history of pushes, pops and emptiness checks on a thread safe queue can be explained by executing the operations one at a time, each between its call and its return, on an ordinary queue: no value is lost, duplicated, or reordered, and a pop fails only when the queue was empty. "
     "The queue's operations are free of data races, also for move-only values.",
     ["schedules", "histories"], "All interleavings, up to a preemption bound, of 2-3 threads with every combination of 1-2 operations, on a queue holding 0-2 elements.",
     "There is no test of concurrent use of the queue; a check-then-act race needs a switch between two adjacent statements.",
     ["core/thread_safe_queue.h"], [("ThreadSafeQueue::push, try_pop, empty", "core/thread_safe_queue.h")],
     ["return values of the queue's operations"])

if __name__ == "__main__":
    import os
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")) else None
    for p in sorted(P, key=lambda p: p["id"]):
        print(json.dumps(p))
