/* forced include for every translation unit taken from /repo: environment and
 * allocator calls go to the model */
#ifndef VP_PRE_H
#define VP_PRE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <mpi.h>
char *vp_getenv(const char *);
void *vp_malloc(size_t);
void *vp_calloc(size_t, size_t);
void *vp_realloc(void *, size_t);
void  vp_free(void *);
void *vp_memcpy(void *, const void *, size_t);
void *vp_memmove(void *, const void *, size_t);
void *vp_memset(void *, int, size_t);
char *vp_strncpy(char *, const char *, size_t);
size_t vp_strlen(const char *);
int   vp_strcmp(const char *, const char *);
int   vp_snprintf(char *, size_t, const char *, ...);
int   vp_sprintf(char *, const char *, ...);
char *vp_strstr(const char *, const char *);
int   vp_strncmp(const char *, const char *, size_t);
long  vp_atol(const char *);
void  vp_exit(int);
long  vp_strtol(const char *, char **, int);
int   vp_printf(const char *, ...);
int   vp_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int   vp_pthread_join(pthread_t, void **);
void  vp_pthread_exit(void *);
int   vp_nanosleep(const struct timespec *, struct timespec *);
int   vp_usleep(unsigned);
#define getenv vp_getenv
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define memcpy vp_memcpy
#define memmove vp_memmove
#define memset vp_memset
#define strncpy vp_strncpy
#define strlen vp_strlen
#define strcmp vp_strcmp
#define snprintf vp_snprintf
#define sprintf vp_sprintf
#define vsnprintf(d, n, f, ap) ((d)[0] = 0, 0)
#define strstr vp_strstr
#define strncmp vp_strncmp
#define atol vp_atol
#define atoi(x) ((int)vp_atol(x))
#define strtol vp_strtol
#define printf(...)  vp_printf(__VA_ARGS__)
#define pthread_create vp_pthread_create
#define pthread_join vp_pthread_join
#define pthread_exit vp_pthread_exit
#define nanosleep vp_nanosleep
#define fprintf(...) ((void)0)
#define perror(x)    ((void)0)
#undef fflush
#define fflush(x)    ((void)0)
#define exit vp_exit
#define abort() vp_exit(134)
#define usleep vp_usleep
#define sleep(x) ((void)(x),0)
#endif
