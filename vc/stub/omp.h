/* Declaration only: clang has no omp.h here. */
#pragma once
extern "C" int omp_get_thread_num(void);
extern "C" int omp_get_max_threads(void);
extern "C" int omp_get_num_threads(void);
extern "C" void omp_set_num_threads(int);
