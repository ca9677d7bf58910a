#pragma once
extern "C" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); int omp_get_num_procs(); int omp_in_parallel(); double omp_get_wtime(); void omp_set_dynamic(int); void omp_set_nested(int); }
typedef struct { void *l; } omp_lock_t;
