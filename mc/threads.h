/* shared between h_threads.c (the scheduler) and h_threads_w.c (the workloads; compiled with instrumentation) */
#ifndef THREADS_H
#define THREADS_H
#include <stddef.h>
void tw_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    /* result of a call */
void tw_bytes(const void* p, size_t n);
void tw_fail_from(int k);       /* allocations of this thread fail from the k-th on; 0: none */
typedef struct WORKLOAD { const char* name; void (*run)(int variant); int variants; } WORKLOAD;
extern const WORKLOAD workloads[];
extern const int n_workloads;
#endif
