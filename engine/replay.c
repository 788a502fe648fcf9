// Runs one harness entry natively (compiled code, no executor) on given input values.
// usage: replay LIB ENTRY ARGS TAGS  < cases   (one case per line: input values separated by blanks)
// per case: "end ok|panic|assume|hang|crash tag=<panic tag> fails=<tags> trace=<values> used=<n>"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
typedef uint64_t u64;
struct Sh { u64 nf, nt, used, ptag, end; u64 fails[256]; u64 trace[65536]; } *sh;
static u64 *vals; static size_t nvals; static u64 args[64]; static size_t nargs; static u64 tags[64]; static size_t ntags;
static u64 next(void) { if (sh->used >= nvals) { sh->end = 5; _exit(0); } return vals[sh->used++]; }
u64 px_sym(u64 lo, u64 hi) { if (lo > hi) { sh->end = 2; _exit(0); } u64 v = next(); if (v < lo || v > hi) { sh->end = 2; _exit(0); } return v; }
u64 px_choose(u64 n) { u64 v = next(); if (v >= n) { sh->end = 2; _exit(0); } return v; }
void px_assume(bool c) { if (!c) { sh->end = 2; _exit(0); } }
bool px_enabled(uint32_t p) { for (size_t i = 0; i < ntags; i++) if (tags[i] == p) return true; return false; }
void px_check(uint32_t t, bool c) { if (!c && (t >= 9900 || px_enabled(t / 100)) && sh->nf < 256) sh->fails[sh->nf++] = t; }
void px_cover(uint32_t t) { (void)t; }
void px_trace(u64 v) { if (sh->nt < 65536) sh->trace[sh->nt++] = v; }
void px_panic_mode(uint32_t t) { sh->ptag = t; }
u64 px_arg(u64 i) { return i < nargs ? args[i] : 0; }
static size_t list(const char *s, u64 *o, size_t max) { size_t n = 0; char *p = (char *)s; while (*p && n < max) { o[n++] = strtoull(p, &p, 10); if (*p == ',') p++; } return n; }
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  nargs = list(argv[3], args, 64); ntags = list(argv[4], tags, 64);
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]); if (!f) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char *line = 0; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    vals = realloc(vals, (n + 2) * 8); nvals = 0; char *p = line;
    for (;;) { while (*p == ' ') p++; if (*p == '\n' || !*p) break; vals[nvals++] = strtoull(p, &p, 10); }
    memset(sh, 0, offsetof(struct Sh, trace));
    fflush(stdout);
    pid_t c = fork();
    if (!c) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); alarm(20); f(); sh->end = 1; _exit(0); }
    int st; waitpid(c, &st, 0);
    const char *e = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGILL ? "panic" : WTERMSIG(st) == SIGALRM ? "hang" : "crash") : sh->end == 1 ? "ok" : sh->end == 2 ? "assume" : sh->end == 5 ? "short" : "exit";
    printf("end %s tag=%llu fails=", e, (unsigned long long)sh->ptag);
    for (u64 i = 0; i < sh->nf; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->fails[i]);
    printf(" used=%llu trace=", (unsigned long long)sh->used);
    for (u64 i = 0; i < sh->nt; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->trace[i]);
    printf("\n");
  }
  return 0;
}
