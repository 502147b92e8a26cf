/* Runs one harness natively on concrete input values, against the same shared object the symbolic
 * executor's IR was emitted with. Usage: launch <so> <harness> "<name=value name=value ...>"
 * Prints COVER <id> lines, then one line: END done | END assert <id> | END assume | END inputs.
 * A panic of the code under test aborts the process (SIGABRT). */
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

static char *cur;

static uint64_t take(const char *name, size_t len) {
    while (*cur == ' ') cur++;
    char *eq = strchr(cur, '=');
    if (!*cur || !eq) {
        printf("END inputs\n");
        fflush(stdout);
        _exit(4);
    }
    uint64_t v = strtoull(eq + 1, &cur, 10);
    return v;
}

__attribute__((noinline)) static void end(const char *what, const uint8_t *id, size_t len, int code) {
    printf("END %s %.*s\n", what, (int)len, (const char *)id);
    fflush(stdout);
    _exit(code);
}

uint64_t obs_sym(const uint8_t *name, size_t len, uint32_t width, uint32_t sgn, uint64_t lo, uint64_t hi) {
    uint64_t v = take((const char *)name, len);
    if (sgn ? ((int64_t)v < (int64_t)lo || (int64_t)v > (int64_t)hi) : (v < lo || v > hi)) end("assume", (const uint8_t *)"range", 5, 5);
    return v;
}
uint64_t obs_choice(uint64_t n) {
    uint64_t v = take("choice", 6);
    if (v >= n) end("assume", (const uint8_t *)"choice", 6, 5);
    return v;
}
void obs_assume(uint8_t c) {
    if (!(c & 1)) end("assume", (const uint8_t *)"", 0, 5);
}
void obs_assert(uint8_t c, const uint8_t *id, size_t len) {
    if (!(c & 1)) end("assert", id, len, 3);
}
void obs_cover(uint8_t c, const uint8_t *id, size_t len) {
    if (c & 1) {
        printf("COVER %.*s\n", (int)len, (const char *)id);
        fflush(stdout);
    }
}
static uint32_t np;
void obs_no_panic(uint32_t on) { np = on; }
uint64_t obs_concrete(uint64_t v) { return v; }
void obs_stop(void) { end("done", (const uint8_t *)"", 0, 0); }

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) {
        fprintf(stderr, "%s\n", dlerror());
        return 2;
    }
    void (*f)(void) = (void (*)(void))dlsym(h, argv[2]);
    if (!f) {
        fprintf(stderr, "%s\n", dlerror());
        return 2;
    }
    cur = argv[3];
    struct rlimit mem = {2ull << 30, 4ull << 30};
    setrlimit(RLIMIT_AS, &mem);
    alarm(30);
    f();
    end("done", (const uint8_t *)"", 0, 0);
}
