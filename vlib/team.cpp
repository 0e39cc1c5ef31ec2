// OpenMP entry points g++ calls, on plain pthreads (for race replays only).
#include <pthread.h>
#include <atomic>
#include <vector>
namespace {
    struct Job { void (*fn)(void*); void* data; unsigned k, n; };
    thread_local unsigned me = 0, size = 1;
    pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER, at = PTHREAD_MUTEX_INITIALIZER;
    struct Loop { long next, end, inc, chunk; bool set; };
    Loop loop;
    pthread_barrier_t bar;
    void* start(void* p) {
        Job* j = static_cast<Job*>(p);
        me = j->k; size = j->n;
        j->fn(j->data);
        return nullptr;
    }
}
extern "C" {
    __attribute__((visibility("default"))) void GOMP_parallel(void (*fn)(void*), void* data, unsigned, unsigned) {
        const unsigned n = 3;
        Job jobs[n];
        pthread_t th[n];
        pthread_barrier_init(&bar, nullptr, n);
        loop.set = false;
        for (unsigned k = 0; k < n; k++) jobs[k] = Job{fn, data, k, n};
        for (unsigned k = 1; k < n; k++) pthread_create(&th[k], nullptr, start, &jobs[k]);
        me = 0; size = n;
        fn(data);
        for (unsigned k = 1; k < n; k++) pthread_join(th[k], nullptr);
        me = 0; size = 1;
        pthread_barrier_destroy(&bar);
    }
    void omp_set_num_threads(int) {}
    void omp_set_dynamic(int) {}
    double omp_get_wtime() { return 0; }
    int omp_get_num_devices() { return 0; }
    int omp_get_default_device() { return 0; }
    int omp_get_initial_device() { return 0; }
    int omp_is_initial_device() { return 1; }
    int omp_get_thread_num() { return me; }
    int omp_get_num_threads() { return size; }
    int omp_get_max_threads() { return 3; }
    int omp_in_parallel() { return size > 1; }
    int omp_get_num_procs() { return 3; }
    void GOMP_critical_start() { pthread_mutex_lock(&lock); }
    void GOMP_critical_end() { pthread_mutex_unlock(&lock); }
    void GOMP_critical_name_start(void**) { pthread_mutex_lock(&lock); }
    void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&lock); }
    void GOMP_atomic_start() { pthread_mutex_lock(&at); }
    void GOMP_atomic_end() { pthread_mutex_unlock(&at); }
    void GOMP_barrier() { if (size > 1) pthread_barrier_wait(&bar); }
    bool GOMP_loop_dynamic_next(long* a, long* b) {
        pthread_mutex_lock(&at);
        bool more = loop.inc > 0 ? loop.next < loop.end : loop.next > loop.end;
        if (more) {
            *a = loop.next;
            loop.next += loop.inc*loop.chunk;
            *b = loop.inc > 0 ? (loop.next < loop.end ? loop.next : loop.end) : (loop.next > loop.end ? loop.next : loop.end);
        }
        pthread_mutex_unlock(&at);
        return more;
    }
    bool GOMP_loop_dynamic_start(long s, long e, long inc, long chunk, long* a, long* b) {
        pthread_mutex_lock(&at);
        if (!loop.set) loop = Loop{s, e, inc, chunk, true};
        pthread_mutex_unlock(&at);
        return GOMP_loop_dynamic_next(a, b);
    }
    bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
    bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long inc, long chunk, long* a, long* b) {
        return GOMP_loop_dynamic_start(s, e, inc, chunk, a, b);
    }
    void GOMP_loop_end() {}
    void GOMP_loop_end_nowait() {}
}
