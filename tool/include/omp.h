/* Declarations only: lets clang parse sources that include <omp.h> without the OpenMP runtime headers. */
#ifndef NBSA_OMP_H
#define NBSA_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_dynamic(void);
int omp_get_nested(void);
int omp_get_level(void);
int omp_get_thread_limit(void);
int omp_get_max_active_levels(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
double omp_get_wtime(void);
double omp_get_wtick(void);
typedef struct omp_lock_s { void* p; } omp_lock_t;
typedef struct omp_nest_lock_s { void* p; } omp_nest_lock_t;
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
