#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* callbacks used by jobs.c (C side that knows the repository API) */
void sim_note(const char *fmt, ...);
void sim_logger(int kind, const char *tag, const char *msg);
char *sim_take_text(const char *text);           /* record the text a job returned */
void *sim_malloc(size_t);
void sim_free(void *);
int job_run(const char *api, int argc, const char *const *argv, int loggers);
int job_model(const char *kind, const long *ops, int nops);
void sim_restart(void);                          /* forget what the job has reported so far */
void sim_violation(const char *fmt, ...);
int sim_alloc_failed_now(void);                  /* allocations refused so far */
long sim_faults_on(const char *kind, const char *path);   /* injected failures so far */
const char *sim_file(const char *path, size_t *size);    /* what the simulated disk holds */
int sim_exists(const char *path);
void job_set_loggers(int custom);
#ifdef __cplusplus
}
#endif
