#pragma once
// Declarations only, for parsing.
extern "C" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); int omp_in_parallel(); double omp_get_wtime(); int omp_get_num_procs(); void omp_set_nested(int); int omp_get_level();}
