/*
 * Foreign functions for the FFI checks. A case declares functions:
 *   ffidef NAME RET ARGS RETVAL [CBSIG ACTIONS...]
 * RET: v i b d f p s;  ARGS: '-' or letters i b d f p(pointer) q(void* given a
 * string) s m(mg_str*) c(callback) u(userdata).
 * RETVAL: -, integer, 16 hex digits (d, f), pA+off / p0, s<hex> / n,
 *   A<k>+off (the k-th argument's own string, from an offset).
 * CBSIG: RET:ARGS with ARGS over i b p s m d u.
 * ACTIONS: N:args (call the callback now), S:k (stash it in slot k), with args
 * a comma separated list, one per non-userdata argument.
 *   cbfire K args      calls a stashed callback from the host
 * Every foreign call is logged as "C name args...", every callback return as
 * "CB name ret".
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "hooks.h"
#include <inttypes.h>

union fa { uintptr_t w; double d; float f; };
static union fa ffi_enter(int slot, union fa *a);
struct def {
  char name[256], ret, args[16], *retval, cbret, cbargs[16], *acts[8];
  int nacts, slot;
  char *retstr;
};
#include "ffi_slots.inc"

#define NDEF 64
/* one library per engine instance */
struct stash { void *fn; void *ud; struct def *def; };
static struct lib {
  struct def defs[NDEF];
  int ndefs;
  struct stash stashes[16];
} libs[8], *L = libs;
#define defs (L->defs)
#define ndefs (L->ndefs)
#define stashes (L->stashes)
void ffi_lib_inst(int i) { L = &libs[i & 7]; }
static FILE *lg;
static int quiet; /* do not log lookups */
extern char *ffi_buf(int i);   /* provided by the driver */
extern void ffi_log_ptr(FILE *f, void *p);
static struct mg_str mgs[8];
static char *strs[65536];
static int nstrs;

/* what the bundled script libraries use */
static const char *lib_names[] = {"mjs_mem_to_ptr", "mjs_mem_get_ptr", "mjs_mem_set_ptr", "mjs_mem_get_dbl",
                                "mjs_mem_set_dbl", "mjs_mem_get_uint", "mjs_mem_get_int", "mjs_mem_set_uint",
                                "mjs_mem_set_int", "fopen", "fclose", "fread", "fwrite", "remove", "rename",
                                "ceil", "floor", "round", "fmax", "fmin", "fabs", "sqrt", "exp", "log", "pow",
                                "sin", "cos", "rand", NULL};
static void *lib_fns[40];
void ffi_lib_init(FILE *log) {
  int i;
  lg = log;
  for (i = 0; lib_names[i] != NULL; i++) lib_fns[i] = dlsym(RTLD_DEFAULT, lib_names[i]);
}

/* forgets what instance i has defined */
void ffi_lib_clear(int k) {
  struct lib *old = L;
  int i, j;
  ffi_lib_inst(k);
  for (i = 0; i < ndefs; i++) {
    free(defs[i].retval);
    free(defs[i].retstr);
    for (j = 0; j < defs[i].nacts; j++) free(defs[i].acts[j]);
    slots[defs[i].slot].def = NULL;
  }
  memset(L, 0, sizeof(*L));
  L = old;
}
void ffi_lib_case(void) {
  int i;
  for (i = 0; i < 8; i++) ffi_lib_clear(i);
  L = libs;
  quiet = 0;
  for (i = 0; i < nstrs; i++) free(strs[i]);
  nstrs = 0;
}

static char *unhex(const char *s, size_t *n) {
  size_t l = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2, i;
  char *r = malloc(l + 1);
  unsigned v;
  for (i = 0; i < l; i++) {
    sscanf(s + 2 * i, "%2x", &v);
    r[i] = (char) v;
  }
  r[l] = '\0';
  if (n) *n = l;
  return r;
}
static char *keep(char *s) {
  if (nstrs == 65536) abort();
  strs[nstrs++] = s;
  return s;
}
static void hexs(const void *p, size_t n) {
  const unsigned char *s = p;
  if (n == 0) fputc('-', lg);
  while (n--) fprintf(lg, "%02x", *s++);
}
static double bits2d(const char *s) {
  union { uint64_t i; double d; } u;
  u.i = strtoull(s, NULL, 16);
  return u.d;
}
static void putd(double d) {
  union { uint64_t i; double d; } u;
  u.d = d;
  if (d != d) fputs("dNaN", lg);
  else fprintf(lg, "d%016" PRIx64, u.i);
}

static void *parse_ptr(const char *s) {
  if (strcmp(s, "p0") == 0) return NULL;
  return ffi_buf(s[1] - 'A') + atol(s + 2);
}

/* calls the callback with the values in the comma separated list */
static void fire(struct def *d, void *fn, void *ud, const char *list) {
  uintptr_t w[8] = {0};
  double dv = 0;
  int i, n = (int) strlen(d->cbargs), dpos = -1, nm = 0;
  char *copy = strdup(list), *sv = copy, *t = strtok(copy, ",");
  uintptr_t r = 0;
  for (i = 0; i < n; i++) {
    char k = d->cbargs[i];
    if (k == 'u') { w[i] = (uintptr_t) ud; continue; }
    if (t == NULL) break;
    switch (k) {
      case 'i': w[i] = (uintptr_t) (uint32_t) (int32_t) strtol(t, NULL, 10); break;
      case 'b': w[i] = (uintptr_t) atoi(t); break;
      case 'p': w[i] = (uintptr_t) parse_ptr(t); break;
      case 's': w[i] = t[0] == 'n' ? 0 : (uintptr_t) keep(unhex(t + 1, NULL)); break;
      case 'm': {
        size_t l;
        char *s = keep(unhex(t + 1, &l));
        mgs[nm].p = s; mgs[nm].len = l;
        w[i] = (uintptr_t) &mgs[nm++];
        break;
      }
      case 'd': dv = bits2d(t + 1); dpos = i; break;
    }
    t = strtok(NULL, ",");
  }
  free(sv);
  if (dpos >= 0) {
    if (dpos == 0) r = ((uintptr_t (*)(double, uintptr_t)) fn)(dv, w[1]);
    else r = ((uintptr_t (*)(uintptr_t, double)) fn)(w[0], dv);
  } else {
    switch (n) {
      case 1: r = ((uintptr_t (*)(uintptr_t)) fn)(w[0]); break;
      case 2: r = ((uintptr_t (*)(uintptr_t, uintptr_t)) fn)(w[0], w[1]); break;
      case 3: r = ((uintptr_t (*)(uintptr_t, uintptr_t, uintptr_t)) fn)(w[0], w[1], w[2]); break;
      case 4: r = ((uintptr_t (*)(uintptr_t, uintptr_t, uintptr_t, uintptr_t)) fn)(w[0], w[1], w[2], w[3]); break;
      case 5: r = ((uintptr_t (*)(uintptr_t, uintptr_t, uintptr_t, uintptr_t, uintptr_t)) fn)(w[0], w[1], w[2], w[3], w[4]); break;
      case 6: r = ((uintptr_t (*)(uintptr_t, uintptr_t, uintptr_t, uintptr_t, uintptr_t, uintptr_t)) fn)(w[0], w[1], w[2], w[3], w[4], w[5]); break;
    }
  }
  fprintf(lg, "CB %s ", d->name);
  switch (d->cbret) {
    case 'i': fprintf(lg, "%d\n", (int) r); break;
    case 'b': fprintf(lg, "%d\n", (int) (r & 0xff)); break;
    default: fprintf(lg, "-\n"); break;
  }
}

static union fa ffi_enter(int slot, union fa *a) {
  struct def *d = slots[slot].def;
  union fa r;
  int i;
  void *fn = NULL, *ud = NULL;
  memset(&r, 0, sizeof(r));
  if (d == NULL) {
    fprintf(lg, "C ?\n");
    return r;
  }
  fprintf(lg, "C %s", d->name);
  for (i = 0; d->args[i]; i++) {
    fputc(' ', lg);
    switch (d->args[i]) {
      case 'i': fprintf(lg, "%d", (int) a[i].w); break;
      case 'b': fprintf(lg, "%d", (int) (a[i].w & 0xff)); break;
      case 'd': putd(a[i].d); break;
      case 'f': putd(a[i].f); break;
      case 'p': ffi_log_ptr(lg, (void *) a[i].w); break;
      case 'q':
      case 's':
        if (a[i].w == 0) fputc('n', lg);
        else { fputc('s', lg); hexs((char *) a[i].w, strlen((char *) a[i].w)); }
        break;
      case 'm': {
        struct mg_str *s = (struct mg_str *) a[i].w;
        if (s == NULL) fputc('n', lg);
        else { fputc('s', lg); hexs(s->p, s->len); }
        break;
      }
      case 'c': fn = (void *) a[i].w; fputc('c', lg); break;
      case 'u': ud = (void *) a[i].w; fputc('u', lg); break;
    }
  }
  fputc('\n', lg);
  for (i = 0; i < d->nacts; i++) {
    char *act = d->acts[i];
    if (act[0] == 'N') fire(d, fn, ud, act + 2);
    else if (act[0] == 'S') {
      struct stash *s = &stashes[atoi(act + 2) & 15];
      s->fn = fn; s->ud = ud; s->def = d;
    }
  }
  switch (d->ret) {
    case 'i': r.w = (uintptr_t) (uint32_t) strtol(d->retval, NULL, 10) |
                    ((uintptr_t) 0x5a5a5a5a << 16 << 16); break;
    case 'b': r.w = (uintptr_t) (atoi(d->retval) & 1) | 0x5a5a00; break;
    case 'd': r.d = bits2d(d->retval); break;
    case 'f': r.f = (float) bits2d(d->retval); break;
    case 'p': r.w = (uintptr_t) parse_ptr(d->retval); break;
    case 's':
      if (d->retval[0] == 'A') { /* a pointer into an argument */
        const char *s = (const char *) a[d->retval[1] - '0'].w;
        size_t off = strtoul(d->retval + 3, NULL, 10);
        if (s != NULL) s += off < strlen(s) ? off : strlen(s);
        r.w = (uintptr_t) s;
        break;
      }
      r.w = d->retval[0] == 'n' ? 0 : (uintptr_t) d->retstr;
      break;
  }
  return r;
}

static uintptr_t zzero(void) { return 0; }
static int zrec(int (*cb)(void *), void *u) { return cb(u); }
void *ffi_lib_resolve(void *handle, const char *name) {
  int i;
  (void) handle;
  if (!quiet) {
    fprintf(lg, "L ");
    hexs(name, strlen(name));
    fputc('\n', lg);
  }
  for (i = 0; i < ndefs; i++) {
    if (strcmp(defs[i].name, name) == 0) return slots[defs[i].slot].fn;
  }
  for (i = 0; lib_names[i] != NULL; i++) {
    if (strcmp(name, lib_names[i]) == 0) return lib_fns[i];
  }
  if (strcmp(name, "zzero") == 0) return (void *) zzero;
  if (strcmp(name, "zrec") == 0) return (void *) zrec;
  return NULL;
}

const char *ffi_lib_name_of(void *p) {
  int i;
  for (i = 0; i < ndefs; i++) {
    if (slots[defs[i].slot].fn == p) return defs[i].name;
  }
  return NULL;
}

int ffi_lib_cmd(struct mjs *mjs, char **tok, int ntok) {
  (void) mjs;
  if (strcmp(tok[0], "ffidef") == 0 && ntok >= 5 && ndefs < NDEF) {
    struct def *d = &defs[ndefs];
    char shape[16], rs[2] = {0, 0};
    int i;
    memset(d, 0, sizeof(*d));
    snprintf(d->name, sizeof(d->name), "%s", tok[1]);
    d->ret = tok[2][0];
    if (strcmp(tok[3], "-") != 0) snprintf(d->args, sizeof(d->args), "%s", tok[3]);
    d->retval = strdup(tok[4]);
    if (d->ret == 's' && tok[4][0] == 's') d->retstr = unhex(tok[4] + 1, NULL);
    if (ntok > 5 && strlen(tok[5]) >= 2) {
      d->cbret = tok[5][0];
      snprintf(d->cbargs, sizeof(d->cbargs), "%s", tok[5] + 2);
      for (i = 6; i < ntok && d->nacts < 8; i++) d->acts[d->nacts++] = strdup(tok[i]);
    }
    for (i = 0; d->args[i]; i++)
      shape[i] = (d->args[i] == 'd' || d->args[i] == 'f') ? d->args[i] : 'w';
    shape[i] = 0;
    rs[0] = strchr("bdf", d->ret) ? d->ret : 'w';
    for (i = 0; i < NSLOTS; i++) {
      if (slots[i].def == NULL && strcmp(slots[i].s, shape) == 0 &&
          strcmp(slots[i].r, rs) == 0) {
        slots[i].def = d;
        d->slot = i;
        ndefs++;
        return 1;
      }
    }
    fprintf(lg, "X no slot for %s\n", shape);
    return 1;
  }
  if (strcmp(tok[0], "ffiquiet") == 0) {
    quiet = 1;
    return 1;
  }
  if (strcmp(tok[0], "cbfire") == 0) {
    struct stash *s = &stashes[atoi(tok[1]) & 15];
    if (s->fn != NULL) fire(s->def, s->fn, s->ud, ntok > 2 ? tok[2] : "");
    else fprintf(lg, "X no stash\n");
    return 1;
  }
  return 0;
}
