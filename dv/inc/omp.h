/* verification stub: only prototypes; the verified text is the sequential (one-thread) program */
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void);
