/* Native implementation of the symbolic intrinsics: replays concrete models.
 * SYM_ENTRY=<name> SYM_IN=<file> binary
 * Every line of the file: <expected-observation-hash-hex|-> v0 v1 ...
 * Each line runs in a forked child. SYM_VERBOSE=1 prints notes. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t *vals;
static size_t nvals, pos;
static uint64_t obs = 0xcbf29ce484222325ull;
static int verbose;

static uint64_t next(uint64_t mask) {
  uint64_t v = pos < nvals ? vals[pos] : 0;
  pos++;
  return v & mask;
}
uint64_t __sym_var(uint32_t bits, const char *name, size_t len) {
  uint64_t v = next(bits >= 64 ? ~0ull : ((1ull << bits) - 1));
  if (verbose) printf("  input %.*s = %llu\n", (int)len, name, (unsigned long long)v);
  return v;
}
uint64_t __sym_choice(uint64_t n, const char *name, size_t len) {
  uint64_t v = next(~0ull);
  if (v >= n) v = 0;
  if (verbose) printf("  choice %.*s = %llu\n", (int)len, name, (unsigned long long)v);
  return v;
}
uint64_t __sym_concretize(uint64_t v) { return v; }
static void done(int code) { fflush(stdout); _exit(code); }
void __sym_assume(_Bool c) { if (!c) { if (verbose) printf("  assumption false\n"); done(12); } }
void __sym_check(_Bool c, uint32_t id) {
  if (!c) { if (verbose) printf("  CHECK %u FAILED\n", id); done(10); }
}
void __sym_reach(uint32_t id) { (void)id; }
void __sym_note(const char *p, size_t n) { if (verbose) printf("  note: %.*s\n", (int)n, p); }
void __sym_observe(uint64_t v) {
  obs = (obs ^ v) * 0x100000001b3ull;
  obs = (obs << 17) | (obs >> 47);
}
void __sym_fail(const char *p, size_t n) { if (verbose) printf("  FAILED: %.*s\n", (int)n, p); done(11); }

int __sym_native_main(const char *const *names, const size_t *lens, void (*const *fns)(void), size_t n) {
  const char *entry = getenv("SYM_ENTRY"), *in = getenv("SYM_IN");
  verbose = getenv("SYM_VERBOSE") != NULL;
  if (!entry || !in) {
    fprintf(stderr, "set SYM_ENTRY and SYM_IN; entries:\n");
    for (size_t i = 0; i < n; i++) fprintf(stderr, "  %.*s\n", (int)lens[i], names[i]);
    return 2;
  }
  void (*f)(void) = NULL;
  for (size_t i = 0; i < n; i++)
    if (strlen(entry) == lens[i] && !memcmp(entry, names[i], lens[i])) f = fns[i];
  if (!f) { fprintf(stderr, "no entry %s\n", entry); return 2; }
  FILE *fp = fopen(in, "r");
  if (!fp) { perror(in); return 2; }
  char *line = NULL;
  size_t cap = 0;
  long k = 0;
  long ok = 0, bad = 0;
  while (getline(&line, &cap, fp) > 0) {
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      char *tok = strtok(line, " \n");
      uint64_t want = 0;
      int has = tok && strcmp(tok, "-");
      if (has) want = strtoull(tok, NULL, 16);
      size_t c = 64;
      vals = malloc(c * 8);
      while ((tok = strtok(NULL, " \n"))) {
        if (nvals == c) { c *= 2; vals = realloc(vals, c * 8); }
        vals[nvals++] = strtoull(tok, NULL, 10);
      }
      if (!verbose && !getenv("SYM_STDERR")) { if (!freopen("/dev/null", "w", stderr)) _exit(9); }
      f();
      if (has && obs != want) { if (verbose) printf("  observation %016llx differs from the engine's %016llx\n", (unsigned long long)obs, (unsigned long long)want); done(13); }
      done(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    const char *r;
    char buf[64];
    if (WIFEXITED(st)) switch (WEXITSTATUS(st)) {
      case 0: r = "ok"; break;
      case 10: r = "check-failed"; break;
      case 11: r = "fail"; break;
      case 12: r = "assume"; break;
      case 13: r = "mismatch"; break;
      default: snprintf(buf, sizeof buf, "exit-%d", WEXITSTATUS(st)); r = buf;
    } else { snprintf(buf, sizeof buf, "signal-%d", WTERMSIG(st)); r = buf; }
    if (!strcmp(r, "ok")) ok++; else { bad++; printf("%ld %s\n", k, r); }
    k++;
  }
  printf("total %ld ok %ld bad %ld\n", k, ok, bad);
  fflush(stdout);
  return bad ? 1 : 0;
}
