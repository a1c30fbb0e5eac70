/* Found before the system's header by the analyses only: turns the setjmp-based
 * pthread cleanup macros of glibc into plain marker calls, so that the cleanup
 * stack is visible in the intermediate representation. */
#include_next <pthread.h>
#ifndef VP_SHIM_H
#define VP_SHIM_H
#ifdef __cplusplus
extern "C" {
#endif
void __vp_cleanup_push(void (*)(void *), void *);
void __vp_cleanup_pop(int);
#ifdef __cplusplus
}
#endif
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(f, a) do { __vp_cleanup_push((f), (a))
#define pthread_cleanup_pop(e) __vp_cleanup_pop(e); } while (0)
#endif
