/* Native replay of a recorded path: loads the shared object compiled from the same
 * crate graph as the IR, and runs one harness with the recorded inputs.
 *   replay LIB HARNESS INPUTS [PARAM...]      (INPUTS: file of decimal numbers)
 * prints "obs N" lines, "ASSERT id" for a failed assertion.
 * exit: 0 path ended normally, 10 assertion failed, 12 inputs do not fit the path,
 *       11 ended in an expected panic; SIGABRT: panic; SIGALRM: hang.              */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t *in;
static size_t nin, pos;
static uint64_t params[64];
static int nparams;
static volatile int expect;

static uint64_t next(void) {
  if (pos >= nin) {
    printf("MISMATCH inputs exhausted\n");
    fflush(stdout);
    _exit(12);
  }
  return in[pos++];
}
uint64_t mk_any(uint32_t bits) {
  uint64_t v = next();
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t mk_range(uint64_t lo, uint64_t hi) {
  uint64_t v = next();
  if (v < lo || v > hi) {
    printf("MISMATCH range\n");
    fflush(stdout);
    _exit(12);
  }
  return v;
}
void mk_assume(uint8_t c) {
  if (!(c & 1)) {
    printf("MISMATCH assume\n");
    fflush(stdout);
    _exit(12);
  }
}
void mk_assert(uint8_t c, uint64_t id) {
  if (!(c & 1)) {
    printf("ASSERT %lu\n", (unsigned long)id);
    fflush(stdout);
    _exit(10);
  }
}
void mk_reach(uint64_t id) { (void)id; }
uint64_t mk_param(uint64_t i) {
  if ((int)i >= nparams) {
    printf("MISMATCH param\n");
    fflush(stdout);
    _exit(12);
  }
  return params[i];
}
void mk_sym_alloc(uint64_t on) { (void)on; }
void mk_expect_panic(uint64_t on) { expect = on != 0; }
void mk_obs(uint64_t x) { printf("obs %lu\n", (unsigned long)x); }
uint64_t mk_concretize(uint64_t x) { return x; }
uint64_t mk_symbolic(void) { return 0; }
void mk_exit(void) {
  fflush(stdout);
  _exit(0);
}
static void on_abort(int s) {
  (void)s;
  fflush(stdout);
  if (expect) _exit(11);
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  FILE *f = fopen(argv[3], "r");
  if (!f) return 2;
  size_t cap = 0;
  unsigned long x;
  while (fscanf(f, "%lu", &x) == 1) {
    if (nin == cap) in = realloc(in, (cap = cap * 2 + 64) * sizeof *in);
    in[nin++] = x;
  }
  fclose(f);
  for (int i = 4; i < argc && nparams < 64; i++) params[nparams++] = strtoull(argv[i], 0, 10);
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    fprintf(stderr, "%s\n", dlerror());
    return 2;
  }
  void (*fn)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!fn) {
    fprintf(stderr, "%s\n", dlerror());
    return 2;
  }
  signal(SIGABRT, on_abort);
  fn();
  fflush(stdout);
  _exit(0);
}
