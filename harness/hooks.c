#include "hooks.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void) 0)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void) 0)
#endif

struct hook_state hs;

/* open-addressing set of freed cells */
#define FS_BITS 16
#define FS_SIZE (1u << FS_BITS)
#define TOMB ((void *) 1)
static void **fs;
static size_t fs_used;
static unsigned h(void *p) {
  unsigned long long x = (unsigned long long) (uintptr_t) p;
  x *= 0x9E3779B97F4A7C15ull;
  return (unsigned) (x >> (64 - FS_BITS));
}
static void fs_clear(void) {
  if (fs == NULL) fs = calloc(FS_SIZE, sizeof(*fs));
  else if (fs_used) memset(fs, 0, FS_SIZE * sizeof(*fs));
  fs_used = 0;
}
static int fs_has(void *p) {
  unsigned i = h(p);
  if (fs == NULL || fs_used == 0) return 0;
  while (fs[i] != NULL) {
    if (fs[i] == p) return 1;
    i = (i + 1) & (FS_SIZE - 1);
  }
  return 0;
}
static void fs_add(void *p) {
  unsigned i = h(p);
  if (fs == NULL) fs_clear();
  if (fs_used > FS_SIZE / 2) fs_clear(); /* loses detection, never invents */
  while (fs[i] != NULL && fs[i] != p) i = (i + 1) & (FS_SIZE - 1);
  if (fs[i] == NULL) {
    fs[i] = p;
    fs_used++;
  }
}
static void fs_del(void *p) {
  unsigned i = h(p);
  if (fs == NULL || fs_used == 0) return;
  while (fs[i] != NULL) {
    if (fs[i] == p) {
      fs[i] = TOMB;
      return;
    }
    i = (i + 1) & (FS_SIZE - 1);
  }
}

static void *valid[1024];
static int nvalid;
void hooks_reset(void) {
  memset(&hs, 0, sizeof(hs));
}
void hooks_new_case(void) {
  hooks_reset();
  nvalid = 0;
  fs_clear();
}

static unsigned long rnd(void) {
  hs.gc_rng = hs.gc_rng * 6364136223846793005ull + 1442695040888963407ull;
  return (unsigned long) (((unsigned long long) hs.gc_rng) >> 33);
}

/*
 * Hostile mode. Scripts may compute raw pointers and call or read through
 * them, which is documented to be unsafe: such a script is stopped as soon as
 * it has one. So are scripts which grow without bounds.
 */
void hooks_valid_ptr(void *p) {
  if (nvalid < 1024) valid[nvalid++] = p;
}
static void stop(struct mjs *mjs, const char *why) {
  hs.limit_hit = 1;
  mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "%s", why);
}
static void hostile(struct mjs *mjs) {
  void *p;
  if (mjs_verif_top_ptr(mjs, &p)) {
    int i;
    for (i = 0; i < nvalid; i++) {
      if (valid[i] == p) break;
    }
    if (i == nvalid) {
      hs.wild_pointer = 1;
      stop(mjs, "VERIF_WILD_POINTER");
    }
  }
  if (hs.steps % 4 == 0) {
    unsigned long o[10];
    mjs_verif_snapshot(mjs, o);
    if (o[9] + 8 * (o[0] + o[1] + o[2] + o[3] + o[4]) + 64 * (o[6] + o[7]) >
        hs.mem_cap) {
      stop(mjs, "VERIF_MEMORY_LIMIT");
    }
  }
}

void mjs_verif_step(struct mjs *mjs);
void mjs_verif_step(struct mjs *mjs) {
  hs.steps++;
  if (hs.track && hs.steps % 32 == 0) {
    unsigned long o[10], n;
    memset(o, 0, sizeof(o));
    mjs_verif_snapshot(mjs, o);
    n = o[6] + o[7] + o[8];
    if (n > hs.peak_cells) hs.peak_cells = n;
    if (o[9] > hs.peak_strings) hs.peak_strings = o[9];
    n = o[0] + o[1] + o[2] + o[3] + o[4];
    if (n > hs.peak_stacks) hs.peak_stacks = n;
#ifdef HAVE_ASAN
    if (hs.steps % 1024 == 0) {
      n = __sanitizer_get_current_allocated_bytes();
      if (n > hs.peak_bytes) hs.peak_bytes = n;
    }
#endif
  }
  if (hs.mem_cap != 0) hostile(mjs);
  if (hs.step_limit != 0 && hs.steps > hs.step_limit) {
    hs.limit_hit = 1;
    mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "VERIF_STEP_LIMIT");
  }
  switch (hs.gc_mode) {
    case 1:
      mjs_gc(mjs, (int) (hs.steps & 1));
      break;
    case 2:
      if (hs.steps % hs.gc_k == 0) mjs_gc(mjs, (int) (hs.steps & 1));
      break;
    case 3:
      if (rnd() % hs.gc_k == 0) mjs_gc(mjs, (int) (rnd() & 1));
      break;
  }
}
void mjs_verif_cell_alloc(void *cell, size_t size);
void mjs_verif_cell_alloc(void *cell, size_t size) {
  (void) size;
  ASAN_UNPOISON_MEMORY_REGION(cell, size);
  fs_del(cell);
}
void mjs_verif_cell_free(void *cell, size_t size);
void mjs_verif_cell_free(void *cell, size_t size) {
  hs.freed_cells++;
  fs_add(cell);
  if (size > 8) {
    ASAN_POISON_MEMORY_REGION((char *) cell + 8, size - 8);
  }
}
void mjs_verif_cell_use(void *cell);
void mjs_verif_cell_use(void *cell) {
  hs.cell_uses++;
  if (cell != NULL && fs_has(cell)) {
    fflush(stdout);
    fprintf(stderr, "VERIF-MONITOR: use of a freed cell %p\n", cell);
    fflush(stderr);
    abort();
  }
}
void mjs_verif_gc_done(struct mjs *mjs, struct mbuf *strings);
void mjs_verif_gc_done(struct mjs *mjs, struct mbuf *strings) {
  hs.gcs++;
  if (hs.relocate && strings->buf != NULL) {
    /* exact-size copy elsewhere: stale pointers and overreads become visible */
    char *nb = malloc(strings->len);
    memcpy(nb, strings->buf, strings->len);
    free(strings->buf);
    strings->buf = nb;
    strings->size = strings->len;
  }
  (void) mjs;
}

/* injected write errors (linked with --wrap); never for the driver's own files */
FILE *hooks_log;
size_t __real_fwrite(const void *p, size_t sz, size_t n, FILE *f);
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f);
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
  if (hs.fault_write == 0 || f == hooks_log || f == stdout || f == stderr)
    return __real_fwrite(p, sz, n, f);
  hs.faults++;
  __real_fwrite(p, 1, sz * n / 2, f);
  return hs.fault_write == 1 ? 0 : n;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f);
int __wrap_fclose(FILE *f) {
  int r = __real_fclose(f);
  return hs.fault_write == 2 && f != hooks_log ? EOF : r;
}
