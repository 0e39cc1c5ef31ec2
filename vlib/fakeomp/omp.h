#pragma once
// declarations only: the runtime is modelled by the interpreter
typedef struct { void* p; } omp_lock_t;
extern "C" {
    int omp_get_max_threads(void);
    int omp_get_num_threads(void);
    int omp_get_thread_num(void);
    int omp_get_num_procs(void);
    int omp_in_parallel(void);
    int omp_get_num_devices(void);
    int omp_get_default_device(void);
    int omp_get_initial_device(void);
    int omp_is_initial_device(void);
    double omp_get_wtime(void);
    void omp_set_num_threads(int);
    void omp_set_dynamic(int);
}
