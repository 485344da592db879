/*
 * Case driver: reads a case file, runs each case against the real engine and
 * writes one line per observed event to the log file. See lib/drv.py.
 */
#define _GNU_SOURCE
#include "hooks.h"
#include <signal.h>
#include <sys/time.h>
#include <stdint.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "common/cs_dbg.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
#include <sanitizer/allocator_interface.h>
#endif

void ffi_lib_init(FILE *log);
void *ffi_lib_resolve(void *handle, const char *name);
const char *ffi_lib_name_of(void *p);
void ffi_lib_case(void);
void ffi_lib_inst(int i);
void ffi_lib_clear(int i);
int ffi_lib_cmd(struct mjs *mjs, char **tok, int ntok);

#ifdef WITH_UTIL
int util_cmd(FILE *log, char **tok, int ntok);
void util_case(void);
#endif
#ifdef WITH_JSON
int json_cmd(FILE *log, char **tok, int ntok);
#endif

#define NREG 64
#define NINST 8
#define NBUF 16
static FILE *lg;
static struct mjs *inst[NINST];
static int cur;
#define M inst[cur]
static mjs_val_t regs[NINST][NREG];
static char owned[NINST][NREG];
static char *all_bufs[NINST][NBUF];
static size_t all_buflens[NINST][NBUF];
#define bufs all_bufs[cur]
#define buflens all_buflens[cur]
static char *cstrs[512]; /* C strings kept alive for foreign strings */
static size_t ncstrs;
static unsigned long g_emits;
static size_t base_mem;
static int g_fault; /* write errors while the engine runs */

#define TLS
#include "cfuncs.h"

static void make_inst(int i) {
  int j;
  struct mjs *m = mjs_create();
  inst[i] = m;
  mjs_set_ffi_resolver(m, ffi_lib_resolve);
  for (j = 0; cfuncs[j].n; j++) {
    mjs_set(m, mjs_get_global(m), cfuncs[j].n, ~0,
            mjs_mk_foreign_func(m, (mjs_func_ptr_t) cfuncs[j].f));
  }
  for (j = 0; j < NREG; j++) {
    regs[i][j] = mjs_mk_undefined();
    owned[i][j] = 0;
  }
}

/* all native functions scripts can get at */
static void hostile_mode(struct mjs *m, unsigned long cap) {
  static const char *src[] = {"''.at", "''.slice", "''.indexOf", "''.charCodeAt", "[].push", "[].splice",
                              "(function(){}).apply", "print.apply", "JSON.parse", "JSON.stringify",
                              "Object.create", "ffi.apply", NULL};
  mjs_val_t it = mjs_mk_undefined(), k, v;
  int i;
  while ((k = mjs_next(m, mjs_get_global(m), &it)) != mjs_mk_undefined()) {
    v = mjs_get_v(m, mjs_get_global(m), k);
    if (mjs_is_foreign(v)) hooks_valid_ptr(mjs_get_ptr(m, v));
  }
  for (i = 0; src[i] != NULL; i++) {
    if (mjs_exec(m, src[i], &v) == MJS_OK && mjs_is_foreign(v)) hooks_valid_ptr(mjs_get_ptr(m, v));
  }
  hs.mem_cap = cap;
}

/* nest(i, k): runs source k in engine i, in the middle of this one */
#define NNEST 32
static char *nest_src[NNEST];
static void make_inst(int i);
static void f_nest(struct mjs *mjs) {
  int old = cur, i = mjs_get_int(mjs, mjs_arg(mjs, 0)) % NINST;
  int k = mjs_get_int(mjs, mjs_arg(mjs, 1)) % NNEST;
  mjs_val_t v = mjs_mk_undefined();
  mjs_err_t e;
  cur = i;
  ffi_lib_inst(i);
  if (inst[i] == NULL) make_inst(i);
  e = mjs_exec(inst[i], nest_src[k], &v);
  put_result("nest", inst[i], e, v);
  cur = old;
  ffi_lib_inst(old);
  mjs_return(mjs, mjs_mk_number(mjs, k));
}

static mjs_val_t lit(struct mjs *mjs, const char *s) {
  switch (s[0]) {
    case 'd': {
      uint64_t b;
      double d;
      if (strcmp(s, "dNaN") == 0) return mjs_mk_number(mjs, 0.0 / 0.0);
      b = strtoull(s + 1, NULL, 16);
      memcpy(&d, &b, 8);
      return mjs_mk_number(mjs, d);
    }
    case 's': {
      size_t n;
      char *p;
      mjs_val_t v;
      if (s[1] == 'F') { /* foreign string */
        p = unhex(s + 2, &n);
        cstrs[ncstrs++] = p;
        return mjs_mk_string(mjs, p, n, 0);
      }
      if (s[1] == 'Z') { /* by NUL-terminated C string */
        p = unhex(s + 2, &n);
        v = mjs_mk_string(mjs, p, ~0, 1);
        free(p);
        return v;
      }
      p = unhex(s + 1, &n);
      v = mjs_mk_string(mjs, p, n, 1);
      free(p);
      return v;
    }
    case 't': return mjs_mk_boolean(mjs, 1);
    case 'f': return mjs_mk_boolean(mjs, 0);
    case 'n': return mjs_mk_null();
    case 'o': return mjs_mk_object(mjs);
    case 'a': return mjs_mk_array(mjs);
    case 'g': return mjs_get_global(mjs);
    case 'p': {
      int i = s[1] - 'A';
      if (s[1] == '0') return mjs_mk_foreign(mjs, NULL);
      return mjs_mk_foreign(mjs, bufs[i] + atol(s + 2));
    }
    case 'c': {
      int j;
      for (j = 0; cfuncs[j].n; j++) {
        if (strcmp(cfuncs[j].n, s + 1) == 0)
          return mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) cfuncs[j].f);
      }
      return mjs_mk_undefined();
    }
    default: return mjs_mk_undefined();
  }
}

static void snap(struct mjs *mjs, const char *tag) {
  unsigned long o[10];
  int i;
  memset(o, 0, sizeof(o));
  mjs_verif_snapshot(mjs, o);
  fprintf(lg, "S %s", tag);
  for (i = 0; i < 10; i++) fprintf(lg, " %lu", o[i]);
  fprintf(lg, "\n");
}

static char out_path[64];
static long out_pos;
static void flush_stdout_events(void) {
  struct stat st;
  fflush(stdout);
  if (fstat(1, &st) == 0 && st.st_size > out_pos) {
    size_t n = st.st_size - out_pos;
    char *b;
    FILE *f;
    if (n > 65536) n = 65536;
    b = malloc(n);
    f = fopen(out_path, "rb");
    if (f != NULL) {
      fseek(f, out_pos, SEEK_SET);
      n = fread(b, 1, n, f);
      fclose(f);
      fputs("O ", lg);
      put_hex(lg, b, n);
      fputc('\n', lg);
    }
    free(b);
    out_pos = st.st_size;
  }
}

#define R(i) regs[cur][atoi(tok[i] + 1) & (NREG - 1)]

static void run_cmd(char **tok, int n) {
  const char *c = tok[0];
  size_t len;
  if (strcmp(c, "exec") == 0 || strcmp(c, "execq") == 0) {
    char *src = unhex(tok[1], &len);
    mjs_val_t res = mjs_mk_undefined();
    mjs_err_t e;
    e = mjs_exec(M, src, &res);
    free(src);
    if (c[4] == 0) put_result("exec", M, e, res);
    flush_stdout_events();
  } else if (strcmp(c, "execr") == 0) { /* result into a register */
    char *src = unhex(tok[2], &len);
    mjs_err_t e = mjs_exec(M, src, &R(1));
    free(src);
    put_result("exec", M, e, R(1));
  } else if (strcmp(c, "execfile") == 0) {
    char *p = unhex(tok[1], &len);
    mjs_val_t res = mjs_mk_undefined();
    mjs_err_t e = mjs_exec_file(M, p, &res);
    free(p);
    put_result("exec", M, e, res);
    flush_stdout_events();
  } else if (strcmp(c, "file") == 0) {
    char *p = unhex(tok[1], NULL), *d = unhex(tok[2], &len);
    FILE *f = fopen(p, "wb");
    if (f != NULL) {
      fwrite(d, 1, len, f);
      fclose(f);
    }
    free(p);
    free(d);
  } else if (strcmp(c, "unlink") == 0) {
    char *p = unhex(tok[1], NULL);
    unlink(p);
    free(p);
  } else if (strcmp(c, "exists") == 0) {
    char *p = unhex(tok[1], NULL);
    fprintf(lg, "V %d\n", access(p, F_OK) == 0);
    free(p);
  } else if (strcmp(c, "mkdir") == 0) {
    char *p = unhex(tok[1], NULL);
    if (p[0] != '/') mkdir(p, 0700);
    free(p);
  } else if (strcmp(c, "symlink") == 0) { /* symlink target name */
    char *t = unhex(tok[1], NULL), *p = unhex(tok[2], NULL);
    if (p[0] != '/' && symlink(t, p) != 0) fprintf(lg, "X symlink\n");
    free(t);
    free(p);
  } else if (strcmp(c, "rmrf") == 0) { /* a file or an empty directory */
    char *p = unhex(tok[1], NULL);
    if (p[0] != '/') remove(p);
    free(p);
  } else if (strcmp(c, "fault") == 0) {
    g_fault = atoi(tok[1]);
  } else if (strcmp(c, "maps") == 0) { /* number of mapped bytecode files */
    FILE *f = fopen("/proc/self/maps", "r");
    char buf[1024];
    int k = 0;
    while (f != NULL && fgets(buf, sizeof(buf), f) != NULL) {
      if (strstr(buf, ".jsc") != NULL) k++;
    }
    if (f != NULL) fclose(f);
    fprintf(lg, "V %d\n", k);
  } else if (strcmp(c, "jsc") == 0) {
    mjs_set_generate_jsc(M, atoi(tok[1]));
  } else if (strcmp(c, "gc") == 0) {
    hs.gc_mode = atoi(tok[1]);
    hs.gc_k = strtoul(tok[2], NULL, 10);
    hs.gc_rng = strtoul(tok[3], NULL, 10);
    hs.relocate = hs.gc_mode != 0;
  } else if (strcmp(c, "reloc") == 0) {
    hs.relocate = atoi(tok[1]);
  } else if (strcmp(c, "steps") == 0) {
    hs.step_limit = strtoul(tok[1], NULL, 10);
    hs.steps = 0;
    hs.limit_hit = 0;
  } else if (strcmp(c, "hostile") == 0) {
    hostile_mode(M, strtoul(tok[1], NULL, 10));
  } else if (strcmp(c, "fullgc") == 0) {
    mjs_gc(M, 1);
  } else if (strcmp(c, "halfgc") == 0) {
    mjs_gc(M, 0);
  } else if (strcmp(c, "snap") == 0) {
    snap(M, n > 1 ? tok[1] : "-");
  } else if (strcmp(c, "track") == 0) {
    hs.track = 1;
    hs.peak_cells = hs.peak_strings = hs.peak_stacks = hs.peak_bytes = 0;
  } else if (strcmp(c, "peak") == 0) {
    hs.track = 0;
    fprintf(lg, "PK %lu %lu %lu %ld\n", hs.peak_cells, hs.peak_strings, hs.peak_stacks,
            hs.peak_bytes ? (long) (hs.peak_bytes - base_mem) : 0);
  } else if (strcmp(c, "mem") == 0) {
#ifdef HAVE_ASAN
    fprintf(lg, "M %lu\n",
            (unsigned long) __sanitizer_get_current_allocated_bytes());
#endif
  } else if (strcmp(c, "inst") == 0) {
    int i = atoi(tok[1]) % NINST;
    cur = i;
    ffi_lib_inst(i);
    if (inst[i] == NULL) make_inst(i);
  } else if (strcmp(c, "destroy") == 0) {
    int i = atoi(tok[1]) % NINST;
    if (inst[i] != NULL) mjs_destroy(inst[i]);
    inst[i] = NULL;
    ffi_lib_clear(i);
    if (cur == i) cur = 0;
    ffi_lib_inst(cur);
    if (inst[cur] == NULL) make_inst(cur);
  } else if (strcmp(c, "nestfn") == 0) {
    mjs_set(M, mjs_get_global(M), "nest", ~0,
            mjs_mk_foreign_func(M, (mjs_func_ptr_t) f_nest));
  } else if (strcmp(c, "nestsrc") == 0) { /* nestsrc k hex */
    int i = atoi(tok[1]) % NNEST;
    free(nest_src[i]);
    nest_src[i] = unhex(tok[2], NULL);
  } else if (strcmp(c, "buf") == 0) { /* buf i hexcontent */
    int i = atoi(tok[1]) % NBUF;
    char *d = unhex(tok[2], &len);
    free(bufs[i]);
    bufs[i] = malloc(len ? len : 1);
    memcpy(bufs[i], d, len);
    buflens[i] = len;
    free(d);
  } else if (strcmp(c, "bufptr") == 0) { /* bufptr i off j joff [mglen] */
    int i = atoi(tok[1]) % NBUF, j = atoi(tok[3]);
    char *p = j < 0 ? NULL : bufs[j % NBUF] + atoi(tok[4]);
    if (n > 5) {
      struct mg_str m;
      memset(&m, 0, sizeof(m));
      m.p = p;
      m.len = atoi(tok[5]);
      memcpy(bufs[i] + atoi(tok[2]), &m, sizeof(m));
    } else {
      memcpy(bufs[i] + atoi(tok[2]), &p, sizeof(p));
    }
  } else if (strcmp(c, "sdef") == 0) { /* sdef k name off type arg */
    int k = atoi(tok[1]) % NDESC;
    struct mjs_c_struct_member *d = &descs[k][ndesc[k]];
    if (ndesc[k] < NMEMB) {
      ndesc[k]++;
      d->name = unhex(tok[2], NULL);
      d->offset = atoi(tok[3]);
      d->type = (enum mjs_struct_field_type) atoi(tok[4]);
      d->arg = d->type == MJS_STRUCT_FIELD_TYPE_CUSTOM ? (void *) custom_field
               : d->type == MJS_STRUCT_FIELD_TYPE_DATA
                   ? (void *) (intptr_t) atoi(tok[5])
                   : tok[5][0] == '-' ? NULL : (void *) descs[atoi(tok[5]) % NDESC];
    }
  } else if (strcmp(c, "bufdump") == 0) {
    int i = atoi(tok[1]) % NBUF;
    fputs("B ", lg);
    put_hex(lg, bufs[i], buflens[i]);
    fputc('\n', lg);
  } else if (strcmp(c, "val") == 0) {
    R(1) = lit(M, tok[2]);
  } else if (strcmp(c, "mov") == 0) {
    R(1) = R(2);
  } else if (strcmp(c, "own") == 0) {
    mjs_own(M, &R(1));
    owned[cur][atoi(tok[1] + 1)] = 1;
  } else if (strcmp(c, "disown") == 0) {
    fprintf(lg, "V %d\n", mjs_disown(M, &R(1)));
    owned[cur][atoi(tok[1] + 1)] = 0;
  } else if (strcmp(c, "get") == 0 || strcmp(c, "getz") == 0) {
    char *k = unhex(tok[3], &len);
    R(1) = mjs_get(M, R(2), k, c[3] == 'z' ? (size_t) ~0 : len);
    free(k);
  } else if (strcmp(c, "getv") == 0) {
    R(1) = mjs_get_v(M, R(2), R(3));
  } else if (strcmp(c, "getp") == 0) {
    R(1) = mjs_get_v_proto(M, R(2), R(3));
  } else if (strcmp(c, "set") == 0 || strcmp(c, "setz") == 0) {
    char *k = unhex(tok[2], &len);
    mjs_err_t e =
        mjs_set(M, R(1), k, c[3] == 'z' ? (size_t) ~0 : len, R(3));
    free(k);
    fprintf(lg, "V %d\n", e);
  } else if (strcmp(c, "setv") == 0) {
    fprintf(lg, "V %d\n", mjs_set_v(M, R(1), R(2), R(3)));
  } else if (strcmp(c, "del") == 0 || strcmp(c, "delz") == 0) {
    char *k = unhex(tok[2], &len);
    fprintf(lg, "V %d\n",
            mjs_del(M, R(1), k, c[3] == 'z' ? (size_t) ~0 : len));
    free(k);
  } else if (strcmp(c, "next") == 0) { /* enumerate */
    mjs_val_t it = mjs_mk_undefined(), k;
    fputs("K", lg);
    while ((k = mjs_next(M, R(1), &it)) != mjs_mk_undefined()) {
      fputc(' ', lg);
      ser_top(lg, M, k);
    }
    fprintf(lg, " %s\n", it == mjs_mk_undefined() ? "end" : "notend");
  } else if (strcmp(c, "aget") == 0) {
    R(1) = mjs_array_get(M, R(2), strtoul(tok[3], NULL, 10));
  } else if (strcmp(c, "aset") == 0) {
    fprintf(lg, "V %d\n",
            mjs_array_set(M, R(1), strtoul(tok[2], NULL, 10), R(3)));
  } else if (strcmp(c, "adel") == 0) {
    mjs_array_del(M, R(1), strtoul(tok[2], NULL, 10));
  } else if (strcmp(c, "apush") == 0) {
    fprintf(lg, "V %d\n", mjs_array_push(M, R(1), R(2)));
  } else if (strcmp(c, "alen") == 0) {
    fprintf(lg, "V %lu\n", mjs_array_length(M, R(1)));
  } else if (strcmp(c, "dump") == 0) {
    fputs("D ", lg);
    ser_top(lg, M, R(1));
    fputc('\n', lg);
  } else if (strcmp(c, "apply") == 0 || strcmp(c, "call") == 0) {
    /* apply rDst rFunc rThis rArgs... */
    mjs_val_t args[16], res = mjs_mk_undefined();
    int i, na = n - 4;
    mjs_err_t e;
    for (i = 0; i < na && i < 16; i++) args[i] = R(4 + i);
    mjs_own(M, &res);
    if (c[0] == 'a') {
      e = mjs_apply(M, &res, R(2), R(3), na, args);
    } else {
      switch (na) {
        case 0: e = mjs_call(M, &res, R(2), R(3), 0); break;
        case 1: e = mjs_call(M, &res, R(2), R(3), 1, args[0]); break;
        case 2: e = mjs_call(M, &res, R(2), R(3), 2, args[0], args[1]); break;
        case 3:
          e = mjs_call(M, &res, R(2), R(3), 3, args[0], args[1], args[2]);
          break;
        default:
          e = mjs_call(M, &res, R(2), R(3), 4, args[0], args[1], args[2],
                       args[3]);
      }
    }
    put_result("apply", M, e, e == MJS_OK ? res : mjs_mk_undefined());
    R(1) = e == MJS_OK ? res : mjs_mk_undefined();
    mjs_disown(M, &res);
  } else if (strcmp(c, "applynull") == 0) { /* result pointer omitted */
    mjs_val_t args[16];
    int i, na = n - 3;
    mjs_err_t e;
    for (i = 0; i < na && i < 16; i++) args[i] = R(3 + i);
    e = mjs_apply(M, NULL, R(1), R(2), na, args);
    put_result("apply", M, e, mjs_mk_undefined());
  } else if (strcmp(c, "this") == 0) {
    fputs("D ", lg);
    ser_top(lg, M, mjs_get_this(M));
    fputc('\n', lg);
  } else if (strcmp(c, "typeof") == 0) {
    mjs_val_t v = R(1);
    fprintf(lg, "V %s num=%d bool=%d str=%d null=%d undef=%d obj=%d arr=%d "
                "fn=%d foreign=%d\n",
            mjs_typeof(v), !!mjs_is_number(v), !!mjs_is_boolean(v),
            !!mjs_is_string(v), !!mjs_is_null(v), !!mjs_is_undefined(v),
            !!mjs_is_object(v), !!mjs_is_array(v), !!mjs_is_function(v),
            !!mjs_is_foreign(v));
  } else if (strcmp(c, "conv") == 0) {
    mjs_val_t v = R(1);
    double d = mjs_get_double(M, v);
    uint64_t b;
    memcpy(&b, &d, 8);
    fprintf(lg, "V int=%d int32=%d bool=%d dbl=%016llx ptrnull=%d\n",
            d == d ? mjs_get_int(M, v) : 0, d == d ? (int) mjs_get_int32(M, v) : 0,
            mjs_get_bool(M, v), d == d ? (unsigned long long) b : 0ull,
            mjs_get_ptr(M, v) == NULL);
  } else if (strcmp(c, "cstr") == 0) {
    mjs_val_t v = R(1);
    const char *s = mjs_get_cstring(M, &v);
    fputs("V ", lg);
    if (s == NULL) fputs("NULL", lg);
    else put_hex(lg, s, strlen(s));
    fputc('\n', lg);
  } else if (strcmp(c, "strcmp") == 0) {
    char *k = unhex(tok[2], &len);
    mjs_val_t v = R(1);
    int r = mjs_strcmp(M, &v, k, len);
    fprintf(lg, "V %d\n", r < 0 ? -1 : r > 0);
    free(k);
  } else if (strcmp(c, "sprintf") == 0) { /* sprintf rN bufsize */
    size_t bs = strtoul(tok[2], NULL, 10);
    char *b = malloc(bs ? bs : 1);
    memset(b, 0x5a, bs ? bs : 1);
    mjs_sprintf(R(1), M, b, bs);
    fputs("P ", lg);
    {
      size_t l = 0;
      while (l < bs && b[l]) l++;
      put_hex(lg, b, l);
      fprintf(lg, " %d\n", l < bs);
    }
    free(b);
  } else if (strcmp(c, "fprintf") == 0) {
    mjs_fprintf(R(1), M, stdout);
    flush_stdout_events();
  } else if (strcmp(c, "perr") == 0) { /* mjs_print_error into a buffer */
    char *b = NULL;
    size_t bl = 0;
    FILE *f = open_memstream(&b, &bl);
    mjs_print_error(M, f, NULL, atoi(tok[1]));
    fclose(f);
    fputs("P ", lg);
    put_hex(lg, b, bl);
    fputc('\n', lg);
    free(b);
  } else if (strcmp(c, "strerr") == 0) {
    const char *s = mjs_strerror(M, (enum mjs_err) atoi(tok[1]));
    fputs("P ", lg);
    put_hex(lg, s, strlen(s));
    fputc('\n', lg);
  } else if (strcmp(c, "seterr") == 0) {
    mjs_set_errorf(M, (mjs_err_t) atoi(tok[1]), "%s", "set by host");
  } else if (strcmp(c, "clrerr") == 0) {
    mjs_set_errorf(M, MJS_OK, NULL);
  } else if (strcmp(c, "stat") == 0) {
    fprintf(lg, "H %lu %lu %lu %lu\n", hs.steps, hs.gcs, hs.freed_cells,
            hs.cell_uses);
#ifdef WITH_JSON
  } else if (strcmp(c, "j") == 0) {
    json_cmd(lg, tok, n);
#endif
#ifdef WITH_UTIL
  } else if (strcmp(c, "u") == 0) {
    util_cmd(lg, tok, n);
#endif
  } else if (!ffi_lib_cmd(M, tok, n)) {
    fprintf(lg, "X unknown command %s\n", c);
  }
}

static void set_alarm(int sec) {
  struct itimerval t;
  memset(&t, 0, sizeof(t));
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, NULL); /* CPU time: load must not look like a hang */
}
static const char *cur_case = "?";
static void on_alarm(int s) {
  static const char m[] = "VERIF-MONITOR: hang\n";
  (void) s;
  if (write(2, m, sizeof(m) - 1) < 0) _exit(97);
  _exit(97);
}

int main(int argc, char **argv) {
  FILE *in;
  char *line = NULL, *all = NULL, *next;
  size_t all_len = 0;
  long skip = 0, ncase = -1;
  int hang_s = 20;
  static int base_fd;
  if (argc < 4) return 2;
  in = fopen(argv[1], "r");
  hooks_log = lg = fopen(argv[2], "a");
  skip = atol(argv[3]);
  if (argc > 4) hang_s = atoi(argv[4]);
  if (in == NULL || lg == NULL) return 2;
  snprintf(out_path, sizeof(out_path), "out.%d.txt", (int) getpid());
  if (freopen(out_path, "w+", stdout) == NULL) return 2;
  signal(SIGPROF, on_alarm);
#ifdef DRV_LOG
  {
    FILE *nul = fopen("/dev/null", "w");
    cs_log_set_file(nul);
    cs_log_set_level(DRV_LOG);
  }
#endif
  ffi_lib_init(lg);
  {
    /* exercise lazily allocated runtime state once */
    struct mjs *m = mjs_create();
    mjs_destroy(m);
  }
  fseek(in, 0, SEEK_END);
  all_len = (size_t) ftell(in);
  rewind(in);
  all = malloc(all_len + 1);
  if (fread(all, 1, all_len, in) != all_len) return 2;
  all[all_len] = 0;
  fclose(in);
  printf("warm up\n");
  fflush(stdout);
  if (ftruncate(1, 0) == 0) rewind(stdout);
  for (line = all; *line; line = next) {
    char *tok[64];
    int n = 0;
    char *p = strchr(line, '\n');
    next = p != NULL ? p + 1 : line + strlen(line);
    if (p != NULL) *p = 0;
    for (p = strtok(line, " "); p != NULL && n < 64; p = strtok(NULL, " "))
      tok[n++] = p;
    if (n == 0) continue;
    if (strcmp(tok[0], "BEGIN") == 0) {
      int i;
      ncase++;
      if (ncase < skip) {
        cur_case = NULL;
        continue;
      }
      cur_case = "x";
      fprintf(lg, "BEGIN %s\n", tok[1]);
      fflush(lg);
      hooks_new_case();
      for (i = 0; i < NREG; i++) regs[0][i] = mjs_mk_undefined();
      g_emits = 0;
      g_fault = 0;
      ncstrs = 0;
      cur = 0;
      ffi_lib_case();
      set_alarm(hang_s);
      base_fd = dup(0);
      close(base_fd);
#ifdef HAVE_ASAN
      base_mem = __sanitizer_get_current_allocated_bytes();
#endif
      make_inst(0);
    } else if (cur_case == NULL) {
      continue;
    } else if (strcmp(tok[0], "END") == 0) {
      int i;
      for (i = 0; i < NINST; i++) {
        if (inst[i] != NULL) mjs_destroy(inst[i]);
        inst[i] = NULL;
      }
      for (cur = NINST - 1;; cur--) {
        for (i = 0; i < NBUF; i++) {
          free(bufs[i]);
          bufs[i] = NULL;
        }
        if (cur == 0) break;
      }
      for (i = 0; i < NNEST; i++) {
        free(nest_src[i]);
        nest_src[i] = NULL;
      }
      for (i = 0; i < (int) ncstrs; i++) free(cstrs[i]);
      ncstrs = 0;
      free_descs();
#ifdef WITH_UTIL
      util_case();
#endif
      ffi_lib_case();
      set_alarm(0);
      {
        int fd = dup(0);
        close(fd);
        if (fd != base_fd) fprintf(lg, "X leaked file descriptor\n");
      }
#ifdef HAVE_ASAN
      {
        size_t now = __sanitizer_get_current_allocated_bytes();
        fprintf(lg, "LEAK %ld\n", (long) (now - base_mem));
      }
#endif
      fprintf(lg, "END %lu %lu %lu\n", hs.steps, hs.gcs, hs.freed_cells);
      fflush(lg);
      if (ftruncate(1, 0) == 0) {
        rewind(stdout);
        out_pos = 0;
      }
    } else {
      hs.fault_write = strncmp(tok[0], "exec", 4) == 0 ? g_fault : 0;
      run_cmd(tok, n);
      hs.fault_write = 0;
      fflush(lg);
    }
  }
  fclose(lg);
  unlink(out_path);
  return 0;
}
