// Native implementation of the hooks the symbolic executor intercepts.
//
//   BIN HARNESS HEX          replay one input
//   BIN --batch FILE         lines "HARNESS HEX"; one forked run per line
//
// Per run one line goes to stdout:  R <index> <status> <obs,obs|->
//   status: ok | assume | assert:<id> | sig:<n> | exit:<n> | short
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern int vx_run(const char *name);

static unsigned char input[4096];
static size_t ilen, ipos;
static uint64_t obs[65536];
static size_t nobs;
static int result_fd = 1;
static long run_index;
static unsigned tier_value;

static void finish(const char *status) {
    static char buf[1 << 20];
    size_t n = (size_t)snprintf(buf, sizeof buf, "R %ld %s ", run_index, status);
    if (!nobs) n += (size_t)snprintf(buf + n, sizeof buf - n, "-");
    for (size_t i = 0; i < nobs && n < sizeof buf - 64; i++)
        n += (size_t)snprintf(buf + n, sizeof buf - n, "%s%llu", i ? "," : "", (unsigned long long)obs[i]);
    n += (size_t)snprintf(buf + n, sizeof buf - n, "\n");
    size_t o = 0;
    while (o < n) {
        ssize_t w = write(result_fd, buf + o, n - o);
        if (w <= 0) break;
        o += (size_t)w;
    }
}

void sym_bytes(unsigned char *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = ipos < ilen ? input[ipos++] : 0;
}
void sym_assume(_Bool b) {
    if (!b) { finish("assume"); _exit(0); }
}
void sym_assert(_Bool b, uint32_t id) {
    if (!b) {
        char s[64];
        snprintf(s, sizeof s, "assert:%u", id);
        finish(s);
        _exit(0);
    }
}
void sym_cover(uint32_t id) { (void)id; }
void sym_observe(uint64_t v) {
    if (nobs < sizeof obs / sizeof *obs) obs[nobs++] = v;
}
uint64_t sym_conc(uint64_t v) { return v; }
uint32_t sym_tier(void) { return tier_value; }

static size_t unhex(const char *h) {
    size_t n = 0;
    if (strcmp(h, "-") == 0) return 0;
    while (h[0] && h[1] && n < sizeof input) {
        char t[3] = {h[0], h[1], 0};
        input[n++] = (unsigned char)strtoul(t, 0, 16);
        h += 2;
    }
    return n;
}

static void child(const char *name, const char *hex) {
    struct rlimit rl = {20, 20};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    struct rlimit as = {4ull << 30, 4ull << 30};
    setrlimit(RLIMIT_AS, &as);
    ilen = unhex(hex);
    ipos = 0;
    nobs = 0;
    if (vx_run(name) != 0) _exit(99);
    finish("ok");
    _exit(0);
}

static int supervise(const char *name, const char *hex, int quiet) {
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) return 2;
    if (p == 0) {
        if (quiet) { if (!freopen("/dev/null", "w", stderr)) _exit(98); }
        child(name, hex);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) {
        printf("R %ld sig:%d -\n", run_index, WTERMSIG(st));
        fflush(stdout);
    } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
        printf("R %ld exit:%d -\n", run_index, WEXITSTATUS(st));
        fflush(stdout);
    }
    return 0;
}

int vx_main(int argc, char **argv) {
    const char *t = getenv("VX_TIER");
    tier_value = t ? (unsigned)atoi(t) : 0;
    if (argc == 3 && strcmp(argv[1], "--batch") == 0) {
        FILE *f = fopen(argv[2], "r");
        if (!f) return 2;
        static char line[16384];
        while (fgets(line, sizeof line, f)) {
            char name[256], hex[8200];
            if (sscanf(line, "%255s %8199s", name, hex) == 2) supervise(name, hex, 1);
            run_index++;
        }
        fclose(f);
        return 0;
    }
    if (argc == 3) return supervise(argv[1], argv[2], 0);
    fprintf(stderr, "usage: %s HARNESS HEX | --batch FILE\n", argv[0]);
    return 2;
}
