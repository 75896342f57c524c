// Controlled scheduler: the code under test is compiled with ThreadSanitizer's
// instrumentation and linked with sched.cpp instead of its run-time library.
#pragma once
#include <stdint.h>
#include <stddef.h>
namespace sched {
// Runs `body` as thread 0. Every interleaving of synchronisation operations with at most
// `preemptions` preemptive switches is explored through mc::choose.
void run(int preemptions, void (*body)(void*), void* arg);
template <typename F> void run(int preemptions, const F& f) {
    run(preemptions, [](void* a) { (*(const F*) a)(); }, (void*) &f);
}
void spuriousWakeups(int n);    // budget of spurious condition-variable wake-ups per execution
void interrupts(int n);         // budget of EINTR results of semaphore waits and sleeps
uint64_t nowNanos();            // virtual time
int self();                     // thread number
long heapBlocks();              // blocks allocated and not freed since run() began
bool blockedForever(int t);
void unlockedYield();           // a scheduling point without any effect
void ignoreBegin(); void ignoreEnd(); // accesses in between are not checked
// marks: harness bookkeeping which is invisible to the race detector
}
