// Two real threads of which exactly one runs at a time; which one is decided by the explorer at
// every operation boundary and every synchronisation of the code under test. All memory accesses of
// code compiled with -fsanitize=thread are recorded, and two accesses to the same byte from both
// threads, one of them a write, that no synchronisation orders fail the execution.
#pragma once

namespace th
{
    // preemptions: how often a thread that could continue may be interrupted
    void run(void (*first)(void*), void* a, void (*second)(void*), void* b, int preemptions);
    void step(); // an operation of the calling thread ends here
}
