"""C15: parallel loops call their body once for each iteration (thread-modular contracts on the thread pool)."""
import os
from vlib import build, rtcheck
from irsym import build as B, tasks

SRC = ("thread_pool.cc", "thread_pool_impl.cc")


def specs():
    B.many([(os.path.join(build.REPO, "slinky", "base", f),) for f in SRC])
    front, impl = (B.repo("slinky/base/" + f) for f in SRC)
    return tasks.core(impl) + tasks.pool(impl) + tasks.front(front, impl)


def main():
    rtcheck.run(
        "C15", specs, tasks.lemma_obligations,
        [("loops, nested loops, tasks and conditions of several threads on one pool", "task", 8, 300)],
        ["loops have fewer than 2^60 iterations, and may have at least one worker", "bodies do not throw",
         "what other threads do between steps is what the contracts of their functions guarantee (counters of shards only grow, work that was not counted is left)",
         "a thread does not wait for a task that it is working on"],
        ("contracts of std::mutex, std::unique_lock (by its code), std::condition_variable, std::function, std::deque, std::vector and std::find on the thread's stack of tasks",
         "atomic operations are atomic, with the orderings that are checked to be strong enough"))
