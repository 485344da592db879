/*
 * Several engines at the same time, one per thread. Each thread reads its own
 * list of commands (DIR/T.in) and writes what it observed to DIR/T.out:
 *   new          destroys the engine, if any, and creates another one
 *   exec HEX     runs a script: events, then "R exec err msg value trace"
 * The hooks force collections and give up the processor at random steps.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include "hooks.h"
#include "src/mjs_core.h"
#include "src/mjs_ffi.h"

#define NBUF 16
static __thread FILE *lg;
static __thread char *bufs[NBUF];
static __thread size_t buflens[NBUF];
static __thread char *cstrs[512];
static __thread size_t ncstrs;
static __thread unsigned long g_emits;
static __thread int me;
static __thread unsigned long long rng;
struct hook_state hs; /* never written here */
const char *ffi_lib_name_of(void *p);
const char *ffi_lib_name_of(void *p) {
  (void) p;
  return NULL;
}
#define TLS __thread
#include "cfuncs.h"

/* who ran when: the sequence of threads at hook steps */
static int last_thread;
static unsigned long long sched_hash;
static unsigned long switches;
static unsigned rnd(void) {
  rng = rng * 6364136223846793005ull + 1442695040888963407ull;
  return (unsigned) (rng >> 33);
}
void mjs_verif_step(struct mjs *mjs);
void mjs_verif_step(struct mjs *mjs) {
  int l = __atomic_exchange_n(&last_thread, me, __ATOMIC_RELAXED);
  unsigned z;
  if (l != me) {
    unsigned long long h = __atomic_load_n(&sched_hash, __ATOMIC_RELAXED);
    __atomic_store_n(&sched_hash, (h ^ (unsigned) me) * 1099511628211ull, __ATOMIC_RELAXED);
    __atomic_fetch_add(&switches, 1, __ATOMIC_RELAXED);
  }
  z = rnd() % 64;
  if (z == 0) mjs_gc(mjs, (int) (rnd() & 1));
  else if (z < 6) sched_yield();
}
void mjs_verif_cell_alloc(void *cell, size_t size) { (void) cell; (void) size; }
void mjs_verif_cell_free(void *cell, size_t size) { (void) cell; (void) size; }
void mjs_verif_cell_use(void *cell) { (void) cell; }
void mjs_verif_gc_done(struct mjs *mjs, struct mbuf *strings) { (void) mjs; (void) strings; }
size_t __real_fwrite(const void *p, size_t sz, size_t n, FILE *f);
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) { return __real_fwrite(p, sz, n, f); }
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { return __real_fclose(f); }

/* foreign functions: plain, and with a callback */
static int t_add(int a, int b) { return a + b; }
static double t_half(double d) { return d / 2; }
static int t_each(int n, int (*cb)(int, void *), void *ud) {
  int i, s = 0;
  for (i = 0; i < n; i++) s += cb(i, ud);
  return s;
}
static int t_len(const char *s) { return (int) strlen(s); }
static void *resolve(void *h, const char *name) {
  (void) h;
  if (strcmp(name, "t_add") == 0) return (void *) t_add;
  if (strcmp(name, "t_half") == 0) return (void *) t_half;
  if (strcmp(name, "t_each") == 0) return (void *) t_each;
  if (strcmp(name, "t_len") == 0) return (void *) t_len;
  return NULL;
}

static struct mjs *create(void) {
  struct mjs *m = mjs_create();
  int j;
  mjs_set_ffi_resolver(m, resolve);
  for (j = 0; cfuncs[j].n; j++)
    mjs_set(m, mjs_get_global(m), cfuncs[j].n, ~0,
            mjs_mk_foreign_func(m, (mjs_func_ptr_t) cfuncs[j].f));
  return m;
}
static void reset(struct mjs *m) {
  size_t i;
  if (m != NULL) mjs_destroy(m);
  for (i = 0; i < ncstrs; i++) free(cstrs[i]);
  ncstrs = 0;
}

static const char *dir;
static unsigned long seed;
static pthread_barrier_t bar;
static void *thread(void *arg) {
  struct mjs *m = NULL;
  char path[600], *line = NULL;
  size_t cap = 0;
  FILE *in;
  me = (int) (intptr_t) arg;
  rng = seed * 977 + (unsigned) me;
  snprintf(path, sizeof(path), "%s/%d.in", dir, me);
  in = fopen(path, "r");
  snprintf(path, sizeof(path), "%s/%d.out", dir, me);
  lg = fopen(path, "w");
  if (in == NULL || lg == NULL) abort();
  pthread_barrier_wait(&bar);
  while (getline(&line, &cap, in) > 0) {
    line[strcspn(line, "\n")] = 0;
    if (strcmp(line, "new") == 0) {
      reset(m);
      g_emits = 0;
      m = create();
    } else if (strncmp(line, "exec ", 5) == 0) {
      char *src = unhex(line + 5, NULL);
      mjs_val_t res = mjs_mk_undefined();
      mjs_err_t e = mjs_exec(m, src, &res);
      free(src);
      put_result("exec", m, e, res);
    }
  }
  reset(m);
  free(line);
  fclose(in);
  fclose(lg);
  return NULL;
}

int main(int argc, char **argv) {
  pthread_t t[64];
  int i, n;
  if (argc < 4) return 2;
  dir = argv[1];
  n = atoi(argv[2]);
  seed = strtoul(argv[3], NULL, 10);
  if (freopen("/dev/null", "w", stdout) == NULL) return 2;
  pthread_barrier_init(&bar, NULL, (unsigned) n);
  for (i = 0; i < n; i++) pthread_create(&t[i], NULL, thread, (void *) (intptr_t) i);
  for (i = 0; i < n; i++) pthread_join(t[i], NULL);
  fprintf(stderr, "SCHED %llx %lu\n", sched_hash, switches);
  return 0;
}
