/* Receives the edges of instrumented code (-C passes=sancov-module) and keeps a hash of their sequence.
   Code in the ranges listed in <program>.skip (address and size) is left out. */
#include <stdint.h>
#include <stdio.h>
#include <unistd.h>
extern char __ehdr_start;
static uint64_t hash;
static uint64_t count;
static int on;
static char base;
static struct { uint64_t from, size; } skip[256];
static int skips;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!on) return;
    uint64_t pc = (uint64_t)__builtin_return_address(0) - (uint64_t)&__ehdr_start;
    for (int i = 0; i < skips; i++)
        if (pc - skip[i].from < skip[i].size) return;
    count++;
    hash = (hash ^ (uint64_t)((char *)g - &base)) * 0x9e3779b97f4a7c15u;
    hash ^= hash >> 29;
}
__attribute__((constructor)) static void read_skip(void) {
    char name[4096];
    ssize_t n = readlink("/proc/self/exe", name, sizeof name - 8);
    if (n < 0) return;
    snprintf(name + n, 8, ".skip");
    FILE *f = fopen(name, "r");
    if (!f) return;
    while (skips < 256 && fscanf(f, "%lx %lx", &skip[skips].from, &skip[skips].size) == 2) skips++;
    fclose(f);
}
void vp_trace_start(void) { hash = count = 0; on = 1; }
uint64_t vp_trace_stop(uint64_t *n) { on = 0; *n = count; return hash; }
