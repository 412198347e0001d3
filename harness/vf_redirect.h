/* force-included before every translation unit of the project: gives the
   environment (formatting, files, sockets, clock) a model.  The system headers
   come first so that only uses inside the project and the harness are renamed */
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <netdb.h>
#include <pthread.h>
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <assert.h>
#include <time.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

#ifdef __CPROVER__
/* the function forms have (C locale) bodies in CBMC, the table macros do not */
#undef isalnum
#undef isalpha
#undef isdigit
#undef isxdigit
#undef isspace
#undef isupper
#undef islower
#undef isprint
#undef ispunct
#undef tolower
#undef toupper
/* CBMC has no useful bodies for these: output goes nowhere, formatting into
   memory is modelled in vf_libc.c */
static inline int vf_noprintf(const char *f, ...) { (void) f; return 0; }
static inline int vf_nofprintf(FILE *s, const char *f, ...) { (void) s; (void) f; return 0; }
static inline int vf_nofflush(FILE *s) { (void) s; return 0; }
#define printf vf_noprintf
#define fprintf vf_nofprintf
#define fflush vf_nofflush
int vf_sprintf(char *b, const char *f, ...);
int vf_snprintf(char *b, size_t n, const char *f, ...);
int vf_vsprintf(char *b, const char *f, va_list a);
int vf_vsnprintf(char *b, size_t n, const char *f, va_list a);
#undef sprintf
#undef snprintf
#undef vsprintf
#undef vsnprintf
/* CBMC does not promote short arguments of variadic calls */
#define VF_PM_1(x) (x) + 0
#define VF_PM_2(x, ...) (x) + 0, VF_PM_1(__VA_ARGS__)
#define VF_PM_3(x, ...) (x) + 0, VF_PM_2(__VA_ARGS__)
#define VF_PM_4(x, ...) (x) + 0, VF_PM_3(__VA_ARGS__)
#define VF_PM_5(x, ...) (x) + 0, VF_PM_4(__VA_ARGS__)
#define VF_PM_6(x, ...) (x) + 0, VF_PM_5(__VA_ARGS__)
#define VF_PM_7(x, ...) (x) + 0, VF_PM_6(__VA_ARGS__)
#define VF_PM_8(x, ...) (x) + 0, VF_PM_7(__VA_ARGS__)
#define VF_PM_9(x, ...) (x) + 0, VF_PM_8(__VA_ARGS__)
#define VF_PM_10(x, ...) (x) + 0, VF_PM_9(__VA_ARGS__)
#define VF_PM_11(x, ...) (x) + 0, VF_PM_10(__VA_ARGS__)
#define VF_PM_12(x, ...) (x) + 0, VF_PM_11(__VA_ARGS__)
#define VF_PM_13(x, ...) (x) + 0, VF_PM_12(__VA_ARGS__)
#define VF_PM_14(x, ...) (x) + 0, VF_PM_13(__VA_ARGS__)
#define VF_PM_15(x, ...) (x) + 0, VF_PM_14(__VA_ARGS__)
#define VF_PM_16(x, ...) (x) + 0, VF_PM_15(__VA_ARGS__)
#define VF_PM_17(x, ...) (x) + 0, VF_PM_16(__VA_ARGS__)
#define VF_PM_18(x, ...) (x) + 0, VF_PM_17(__VA_ARGS__)
#define VF_PM_19(x, ...) (x) + 0, VF_PM_18(__VA_ARGS__)
#define VF_PM_20(x, ...) (x) + 0, VF_PM_19(__VA_ARGS__)
#define VF_PM_21(x, ...) (x) + 0, VF_PM_20(__VA_ARGS__)
#define VF_PM_22(x, ...) (x) + 0, VF_PM_21(__VA_ARGS__)
#define VF_PM_23(x, ...) (x) + 0, VF_PM_22(__VA_ARGS__)
#define VF_PM_24(x, ...) (x) + 0, VF_PM_23(__VA_ARGS__)
#define VF_PM_N(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, k, ...) VF_PM_##k
#define VF_PM(...) VF_PM_N(__VA_ARGS__, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)(__VA_ARGS__)
#define sprintf(b, ...) vf_sprintf(b, VF_PM(__VA_ARGS__))
#define snprintf(b, n, ...) vf_snprintf(b, n, VF_PM(__VA_ARGS__))
#define vsprintf vf_vsprintf
#define vsnprintf vf_vsnprintf
#ifdef VF_MEMCPY_WITNESS
/* copies of any size: both ranges are checked, and the byte at one arbitrary
   index (fixed for the whole run) is copied; the others are left as they are,
   so that only that index may be looked at afterwards */
extern size_t vf_witness;
void *vf_memcpy(void *d, const void *s, size_t n);
#undef memcpy
#define memcpy vf_memcpy
#endif
#ifdef VF_MEMCPY_BYTES
/* byte loop versions: far cheaper than the array-theory models of CBMC when
   the sizes are small constants after unwinding */
void *vf_memcpy(void *d, const void *s, size_t n);
void *vf_memmove(void *d, const void *s, size_t n);
void *vf_memset(void *d, int c, size_t n);
#undef memcpy
#undef memmove
#undef memset
#define memcpy vf_memcpy
#define memmove vf_memmove
#define memset vf_memset
#endif
#endif

#if defined(VF_MODEL_MALLOC) && defined(__CPROVER__)
/* the harness chooses the type of heap objects, so that the solver sees arrays
   of structures instead of arrays of bytes (sizes and life times are kept) */
void *vf_malloc(size_t n);
void *vf_zero(void *p, int c, size_t n);
#undef malloc
#undef memset
#define malloc vf_malloc
#define memset vf_zero
#endif
#if defined(VF_MODEL_REALLOC) && defined(__CPROVER__)
/* as above, for arrays that grow */
void *vf_realloc(void *p, size_t n);
#undef realloc
#define realloc vf_realloc
#endif
#ifdef VF_MODEL_FILE
/* in-memory files (vf_file.c) */
FILE *vf_fopen(const char *p, const char *m);
int vf_fclose(FILE *f);
size_t vf_fread(void *b, size_t s, size_t n, FILE *f);
size_t vf_fwrite(const void *b, size_t s, size_t n, FILE *f);
int vf_fseek(FILE *f, long o, int w);
int vf_fseeko(FILE *f, off_t o, int w);
long vf_ftell(FILE *f);
off_t vf_ftello(FILE *f);
int vf_feof(FILE *f);
int vf_ferror(FILE *f);
int vf_getc(FILE *f);
char *vf_fgets(char *b, int n, FILE *f);
int vf_fputc(int c, FILE *f);
void vf_rewind(FILE *f);
#undef getc
#undef feof
#undef ferror
#undef fputc
#undef putc
#undef fgetc
#undef fread
#undef fwrite
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define fwrite vf_fwrite
#define fseek vf_fseek
#define fseeko vf_fseeko
#define fseeko64 vf_fseeko
#define ftell vf_ftell
#define ftello vf_ftello
#define ftello64 vf_ftello
#define feof vf_feof
#define ferror vf_ferror
#define getc vf_getc
#define fgetc vf_getc
#define fgets vf_fgets
#define fputc vf_fputc
#define putc vf_fputc
#define rewind vf_rewind
#endif
#ifdef VF_MODEL_ACCESS
int vf_access(const char *p, int m);
#define access vf_access
#endif
#ifdef VF_MODEL_STAT
int vf_stat(const char *p, struct stat *s);
#define stat(p, s) vf_stat(p, s)
#define lstat(p, s) vf_stat(p, s)
#endif
#ifdef VF_MODEL_DIR
DIR *vf_opendir(const char *p);
struct dirent *vf_readdir(DIR *d);
int vf_closedir(DIR *d);
#define opendir vf_opendir
#define readdir vf_readdir
#define closedir vf_closedir
#endif
#ifdef VF_MODEL_REALPATH
char *vf_realpath(const char *p, char *r);
#define realpath vf_realpath
#endif
#ifdef VF_MODEL_ENV
char *vf_getenv(const char *n);
#define getenv vf_getenv
#endif
#ifdef VF_MODEL_TIME
time_t vf_time(time_t *t);
#define time vf_time
#endif
#ifdef VF_MODEL_SOCKET
ssize_t vf_recv(int s, void *b, size_t n, int f);
ssize_t vf_send(int s, const void *b, size_t n, int f);
int vf_close(int s);
int vf_accept(int s, struct sockaddr *a, socklen_t *l);
#define recv vf_recv
#define send vf_send
#define close vf_close
#define accept vf_accept
int vf_fcntl(int s, int c, ...);
int vf_setsockopt(int s, int l, int o, const void *v, socklen_t n);
int vf_getsockopt(int s, int l, int o, void *v, socklen_t *n);
int vf_connect(int s, const struct sockaddr *a, socklen_t n);
int vf_socket(int d, int t, int p);
#define fcntl vf_fcntl
#define setsockopt vf_setsockopt
#define getsockopt vf_getsockopt
#define connect vf_connect
#define socket vf_socket
int *vf_errno(void);
#undef errno
#define errno (*vf_errno())
#endif
#ifdef VF_MODEL_EPOLL
int vf_epoll_create(int n);
int vf_epoll_ctl(int e, int op, int fd, struct epoll_event *ev);
int vf_epoll_wait(int e, struct epoll_event *ev, int n, int t);
#define epoll_create vf_epoll_create
#define epoll_create1 vf_epoll_create
#define epoll_ctl vf_epoll_ctl
#define epoll_wait vf_epoll_wait
#endif
#ifdef VF_MODEL_PTHREAD
int vf_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p);
int vf_pthread_join(pthread_t t, void **r);
int vf_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int vf_mutex_destroy(pthread_mutex_t *m);
int vf_mutex_lock(pthread_mutex_t *m);
int vf_mutex_unlock(pthread_mutex_t *m);
int vf_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int vf_cond_destroy(pthread_cond_t *c);
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int vf_cond_signal(pthread_cond_t *c);
int vf_cond_broadcast(pthread_cond_t *c);
#define pthread_create vf_pthread_create
#define pthread_join vf_pthread_join
#define pthread_mutex_init vf_mutex_init
#define pthread_mutex_destroy vf_mutex_destroy
#define pthread_mutex_lock vf_mutex_lock
#define pthread_mutex_unlock vf_mutex_unlock
#define pthread_cond_init vf_cond_init
#define pthread_cond_destroy vf_cond_destroy
#define pthread_cond_wait vf_cond_wait
#define pthread_cond_signal vf_cond_signal
#define pthread_cond_broadcast vf_cond_broadcast
#endif
