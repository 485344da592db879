/*
 * Value serialization and the C functions scripts can call; shared by the
 * drivers, which define lg, g_emits, cstrs, ncstrs, bufs, buflens and TLS.
 */
/* ---------- hex ---------- */
static void put_hex(FILE *f, const void *p, size_t n) {
  const unsigned char *s = p;
  size_t i;
  static const char d[] = "0123456789abcdef";
  if (n == 0) fputc('-', f);
  for (i = 0; i < n; i++) {
    fputc(d[s[i] >> 4], f);
    fputc(d[s[i] & 15], f);
  }
}
static int hv(int c) {
  return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}
/* exact-size buffer holding the decoded bytes plus one NUL */
static char *unhex(const char *s, size_t *len) {
  size_t n = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2, i;
  char *r = malloc(n + 1);
  for (i = 0; i < n; i++) r[i] = (char) (hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
  r[n] = 0;
  if (len != NULL) *len = n;
  return r;
}

char *ffi_buf(int i) { return i >= 0 && i < NBUF ? bufs[i] : NULL; }
void ffi_log_ptr(FILE *f, void *ptr) {
  char *p = ptr;
  const char *nm;
  int i;
  if (p == NULL) {
    fputs("p0", f);
    return;
  }
  for (i = 0; i < NBUF; i++) {
    if (bufs[i] && p >= bufs[i] && p < bufs[i] + buflens[i]) {
      fprintf(f, "p%c%+ld", 'A' + i, (long) (p - bufs[i]));
      return;
    }
  }
  for (i = 0; i < NBUF; i++) {
    if (bufs[i] && p >= bufs[i] - 64 && p <= bufs[i] + buflens[i] + 64) {
      fprintf(f, "p%c%+ld", 'A' + i, (long) (p - bufs[i]));
      return;
    }
  }
  nm = ffi_lib_name_of(p);
  if (nm != NULL) fprintf(f, "c%s", nm);
  else fprintf(f, "p?");
}

/* ---------- canonical value serialization ---------- */
struct path {
  mjs_val_t v;
  struct path *up;
};
static TLS unsigned long ser_budget;
static void ser(FILE *f, struct mjs *mjs, mjs_val_t v, struct path *up) {
  if (ser_budget == 0) {
    fputs("~", f);
    return;
  }
  ser_budget--;
  if (mjs_is_number(v)) {
    double d = mjs_get_double(mjs, v);
    uint64_t b;
    if (d != d) {
      fputs("dNaN", f);
      return;
    }
    memcpy(&b, &d, 8);
    fprintf(f, "d%016llx", (unsigned long long) b);
  } else if (mjs_is_string(v)) {
    size_t n;
    const char *s = mjs_get_string(mjs, &v, &n);
    fputc('s', f);
    put_hex(f, s, n);
  } else if (mjs_is_boolean(v)) {
    fputc(mjs_get_bool(mjs, v) ? 't' : 'f', f);
  } else if (mjs_is_null(v)) {
    fputc('n', f);
  } else if (mjs_is_undefined(v)) {
    fputc('u', f);
  } else if (mjs_is_function(v)) {
    fputc('F', f);
  } else if (mjs_is_foreign(v)) {
    ffi_log_ptr(f, mjs_get_ptr(mjs, v));
  } else if (mjs_is_object(v)) {
    struct path me, *q;
    int d = 0;
    mjs_val_t it = mjs_mk_undefined(), k;
    for (q = up; q != NULL; q = q->up, d++) {
      if (q->v == v) {
        fprintf(f, "@%d", d);
        return;
      }
    }
    if (d > 200) {
      fputs("^", f);
      return;
    }
    me.v = v;
    me.up = up;
    if (mjs_is_array(v)) {
      unsigned long n = mjs_array_length(mjs, v), i;
      fprintf(f, "[%lu|", n);
      for (i = 0; i < n && i < 300; i++) {
        if (i) fputc(',', f);
        ser(f, mjs, mjs_array_get(mjs, v, i), &me);
      }
      fputc('|', f);
      /* non-index properties, and number of own properties */
      d = 0;
      while ((k = mjs_next(mjs, v, &it)) != mjs_mk_undefined()) {
        size_t kn, j;
        const char *ks = mjs_get_string(mjs, &k, &kn);
        int num = kn > 0;
        for (j = 0; j < kn; j++) {
          if (ks[j] < '0' || ks[j] > '9') num = 0;
        }
        d++;
        if (!num) {
          put_hex(f, ks, kn);
          fputc(':', f);
          ser(f, mjs, mjs_get_v(mjs, v, k), &me);
          fputc(',', f);
        }
      }
      fprintf(f, "|%d]", d);
    } else {
      fputc('{', f);
      while ((k = mjs_next(mjs, v, &it)) != mjs_mk_undefined()) {
        size_t kn;
        const char *ks = mjs_get_string(mjs, &k, &kn);
        put_hex(f, ks, kn);
        fputc(':', f);
        ser(f, mjs, mjs_get_v(mjs, v, k), &me);
        fputc(',', f);
      }
      fputc('}', f);
    }
  } else {
    fputc('S', f); /* the only kind left: an ffi signature */
  }
}
static void ser_top(FILE *f, struct mjs *mjs, mjs_val_t v) {
  ser_budget = 20000;
  ser(f, mjs, v, NULL);
}

/* ---------- C functions visible to scripts ---------- */
static void f_emit(struct mjs *mjs) {
  int i, n = mjs_nargs(mjs);
  if (g_emits++ < 5000) {
    fputs("E", lg);
    for (i = 0; i < n; i++) {
      fputc(' ', lg);
      ser_top(lg, mjs, mjs_arg(mjs, i));
    }
    fputc('\n', lg);
  }
  mjs_return(mjs, n > 0 ? mjs_arg(mjs, 0) : mjs_mk_undefined());
}
/* capply(f, thisv, args...): call back into the engine from C */
static void f_capply(struct mjs *mjs) {
  mjs_val_t res = mjs_mk_undefined(), args[16];
  int i, n = mjs_nargs(mjs) - 2;
  mjs_err_t e;
  if (n < 0) n = 0;
  if (n > 16) n = 16;
  for (i = 0; i < n; i++) args[i] = mjs_arg(mjs, i + 2);
  mjs_own(mjs, &res);
  e = mjs_apply(mjs, &res, mjs_arg(mjs, 0), mjs_arg(mjs, 1), n, args);
  if (e != MJS_OK) res = mjs_mk_undefined();
  mjs_return(mjs, res);
  mjs_disown(mjs, &res);
}
/* ctry(f, thisv, args...): like capply, but swallows the error */
static void f_ctry(struct mjs *mjs) {
  mjs_val_t res = mjs_mk_undefined(), args[16];
  int i, n = mjs_nargs(mjs) - 2;
  mjs_err_t e;
  if (n < 0) n = 0;
  if (n > 16) n = 16;
  for (i = 0; i < n; i++) args[i] = mjs_arg(mjs, i + 2);
  mjs_own(mjs, &res);
  e = mjs_apply(mjs, &res, mjs_arg(mjs, 0), mjs_arg(mjs, 1), n, args);
  if (e != MJS_OK && !hs.limit_hit) {
    fprintf(lg, "T %d ", e);
    put_hex(lg, mjs_strerror(mjs, e), strlen(mjs_strerror(mjs, e)));
    fputc('\n', lg);
    mjs_set_errorf(mjs, MJS_OK, NULL);
    res = mjs_mk_number(mjs, -1 * (double) e);
  }
  mjs_return(mjs, res);
  mjs_disown(mjs, &res);
}
/* where(): file and line of every active frame, innermost first */
static void f_where(struct mjs *mjs) {
  int i, off;
  fputs("W", lg);
  for (i = 0; (off = mjs_get_offset_by_call_frame_num(mjs, i)) >= 0; i++) {
    const char *fn = mjs_get_bcode_filename_by_offset(mjs, off);
    if (i == 1) continue; /* the frame of this native call: same place */
    if (off == 0x7fffffff) continue;
    fputc(' ', lg);
    if (fn == NULL) fputs("none", lg);
    else put_hex(lg, fn, strlen(fn));
    fprintf(lg, ":%d", fn == NULL ? 0 : mjs_get_lineno_by_offset(mjs, off));
  }
  fputc('\n', lg);
  mjs_return(mjs, mjs_mk_number(mjs, 1));
}
static void f_cthis(struct mjs *mjs) {
  mjs_return(mjs, mjs_get_this(mjs));
}
static void f_cnargs(struct mjs *mjs) {
  mjs_return(mjs, mjs_mk_number(mjs, mjs_nargs(mjs)));
}
static void f_carg(struct mjs *mjs) {
  mjs_return(mjs, mjs_arg(mjs, mjs_get_int(mjs, mjs_arg(mjs, 0))));
}
static void f_cerr(struct mjs *mjs) {
  int e = mjs_get_int(mjs, mjs_arg(mjs, 0));
  if (hs.mem_cap != 0 && (e < 1 || e > 8)) e = 3;
  mjs_prepend_errorf(mjs, (mjs_err_t) e, "%s", "cerr");
  mjs_return(mjs, mjs_mk_undefined());
}
static void f_noreturn(struct mjs *mjs) {
  (void) mjs; /* a C function that never sets a return value */
}
static void f_ptr(struct mjs *mjs) {
  int i = mjs_get_int(mjs, mjs_arg(mjs, 0));
  mjs_return(mjs, i >= 0 && i < NBUF && bufs[i] ? mjs_mk_foreign(mjs, bufs[i])
                                                : mjs_mk_foreign(mjs, NULL));
}
static void f_del(struct mjs *mjs) {
  mjs_val_t k = mjs_arg(mjs, 1);
  size_t n;
  const char *s = mjs_get_string(mjs, &k, &n);
  int r = s == NULL ? -2 : mjs_del(mjs, mjs_arg(mjs, 0), s, n);
  mjs_return(mjs, mjs_mk_number(mjs, r));
}
static void f_fstr(struct mjs *mjs) {
  /* fstr(s): same content, as a foreign (not engine-owned) string */
  mjs_val_t k = mjs_arg(mjs, 0);
  size_t n;
  const char *s = mjs_get_string(mjs, &k, &n);
  char *c;
  if (s == NULL || ncstrs >= 500) {
    mjs_return(mjs, mjs_mk_undefined());
    return;
  }
  c = malloc(n + 1);
  memcpy(c, s, n);
  c[n] = 0;
  cstrs[ncstrs++] = c;
  mjs_return(mjs, mjs_mk_string(mjs, c, n, 0));
}
/* struct descriptors */
#define NDESC 8
#define NMEMB 24
static TLS struct mjs_c_struct_member descs[NDESC][NMEMB + 1];
static TLS int ndesc[NDESC];
static void free_descs(void) {
  int i, j;
  for (i = 0; i < NDESC; i++) {
    for (j = 0; j < ndesc[i]; j++) free((void *) descs[i][j].name);
    ndesc[i] = 0;
    memset(descs[i], 0, sizeof(descs[i]));
  }
}
static mjs_val_t custom_field(struct mjs *mjs, const void *p) {
  mjs_val_t a;
  uint16_t n;
  memcpy(&n, p, 2);
  if (n & 1) mjs_gc(mjs, 1); /* a callback may run scripts */
  a = mjs_mk_array(mjs);
  mjs_array_push(mjs, a, mjs_mk_number(mjs, n));
  return a;
}
/* sdesc(k): pointer to descriptor k */
static void f_sdesc(struct mjs *mjs) {
  mjs_return(mjs, mjs_mk_foreign(mjs, descs[mjs_get_int(mjs, mjs_arg(mjs, 0)) & (NDESC - 1)]));
}
static struct {
  const char *n;
  void (*f)(struct mjs *);
} cfuncs[] = {{"emit", f_emit},       {"capply", f_capply}, {"ctry", f_ctry},
              {"cthis", f_cthis},     {"cnargs", f_cnargs}, {"carg", f_carg},
              {"cerr", f_cerr},       {"noret", f_noreturn}, {"where", f_where}, {"ptr", f_ptr},
              {"cdel", f_del},        {"fstr", f_fstr},     {"sdesc", f_sdesc},     {NULL, NULL}};


/* R what err msg value trace */
static void put_result(const char *what, struct mjs *mjs, mjs_err_t e,
                       mjs_val_t v) {
  char *b = NULL, *t;
  size_t bl = 0, n;
  FILE *f = open_memstream(&b, &bl);
  mjs_print_error(mjs, f, "@@", 1);
  fclose(f);
  fprintf(lg, "R %s %d ", what, (int) e);
  t = strstr(b, "@@: ");
  n = strlen(t + 4);
  put_hex(lg, t + 4, n ? n - 1 : 0);
  fputc(' ', lg);
  ser_top(lg, mjs, v);
  fputc(' ', lg);
  put_hex(lg, b, t - b);
  fprintf(lg, "%s\n", hs.wild_pointer ? " WILD" : hs.limit_hit ? " LIMIT" : "");
  free(b);
}

