/* native side of the harness interface: feeds the solver's values */
#define VF_REPLAY_MAIN
#include "vf.h"
#include <unistd.h>
#undef fopen
#undef fclose
#undef malloc
static FILE *in;
unsigned long long vf_next(void) {
    unsigned long long v = 0;
    if(in == NULL || fscanf(in, "%llu", &v) != 1) { v = 0; }
    return v;
}
int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
void vf_assume_(int c) { if(!c) { fflush(stdout); printf("VF-ASSUME\n"); fflush(stdout); _exit(77); } }
void vf_assert_(int c, const char *m) { if(!c) { printf("VF-FAIL %s\n", m); fflush(stdout); _exit(70); } }
void vf_reach_(const char *m) { printf("VF-REACH %s\n", m); fflush(stdout); }
int main(int argc, char **argv) {
    if(argc > 1) { in = fopen(argv[1], "r"); }
    harness();
    printf("VF-DONE\n");
    fflush(stdout);
    /* leaks, where the query asks for them (a no-op otherwise) */
    if(__lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check()) { _exit(74); }
    _exit(0);
}
