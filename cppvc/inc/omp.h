#pragma once
extern "C" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); double omp_get_wtime(); }
