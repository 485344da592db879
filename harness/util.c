/* Commands on the utility library (src/common): "u NAME args". */
#define _GNU_SOURCE
#include "hooks.h"
#include "common/cs_file.h"
#include "common/cs_varint.h"
#include "common/str_util.h"

#define NMB 4
static struct mbuf mb[NMB];
static int hv(int c) {
  return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}
/* exact-size copy; "0" is NULL; term: with a terminating NUL */
static char *dec(const char *s, size_t *len, int term) {
  size_t n = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2, i;
  char *r;
  if (len != NULL) *len = 0;
  if (strcmp(s, "0") == 0) return NULL;
  r = malloc(n + (term ? 1 : 0) + (n == 0 && !term));
  for (i = 0; i < n; i++) r[i] = (char) (hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
  if (term) r[n] = 0;
  if (len != NULL) *len = n;
  return r;
}
static struct mg_str decs(const char *s) {
  struct mg_str r;
  r.p = dec(s, &r.len, 0);
  return r;
}
static void put_hex(FILE *f, const void *p, size_t n) {
  const unsigned char *s = p;
  size_t i;
  fputc(' ', f);
  if (n == 0) fputc('-', f);
  for (i = 0; i < n; i++) fprintf(f, "%02x", s[i]);
}
static long sgn(int x) {
  return x < 0 ? -1 : x > 0;
}
static void put_off(FILE *f, const char *p, const char *base, size_t len) {
  if (p == NULL)
    fprintf(f, " null");
  else if (base == NULL || p < base || p > base + len)
    fprintf(f, " outside");
  else
    fprintf(f, " %ld", (long) (p - base));
}
static void put_mb(FILE *f, struct mbuf *m) {
  fprintf(f, " %lu %d", (unsigned long) m->len, m->len <= m->size);
  if (m->size > 0) { /* the whole capacity must be there */
    volatile char *p = m->buf;
    (void) p[m->size - 1];
  }
  put_hex(f, m->buf, m->len);
}

void util_case(void) {
  int i;
  for (i = 0; i < NMB; i++) {
    mbuf_free(&mb[i]);
    memset(&mb[i], 0, sizeof(mb[i]));
  }
}

int util_cmd(FILE *f, char **t, int n) {
  const char *c = t[1];
  if (n < 2) return 0;
  fprintf(f, "U %s", c);
  if (strncmp(c, "mb", 2) == 0) {
    int k = atoi(t[2]);
    struct mbuf *m = &mb[k];
    if (strcmp(c, "mbinit") == 0) {
      mbuf_free(m);
      mbuf_init(m, strtoul(t[3], NULL, 10));
    } else if (strcmp(c, "mbfree") == 0) {
      mbuf_free(m);
      fprintf(f, " %d", m->buf == NULL && m->size == 0);
    } else if (strcmp(c, "mbins") == 0) { /* off data */
      size_t l;
      char *d = dec(t[4], &l, 0);
      fprintf(f, " %lu", (unsigned long) mbuf_insert(m, strtoul(t[3], NULL, 10), d, l));
      free(d);
    } else if (strcmp(c, "mbgap") == 0) { /* off len: room without data */
      size_t off = strtoul(t[3], NULL, 10), l = strtoul(t[4], NULL, 10);
      size_t r = mbuf_insert(m, off, NULL, l);
      fprintf(f, " %lu", (unsigned long) r);
      if (r == l) memset(m->buf + off, 'g', l);
    } else if (strcmp(c, "mbapp") == 0) {
      size_t l;
      char *d = dec(t[3], &l, 0);
      fprintf(f, " %lu", (unsigned long) mbuf_append(m, d, l));
      free(d);
    } else if (strcmp(c, "mbhuge") == 0) { /* more than there is */
      fprintf(f, " %lu", (unsigned long) mbuf_append(m, NULL, (size_t) 1 << atoi(t[3])));
    } else if (strcmp(c, "mbtake") == 0) {
      size_t l;
      char *d = dec(t[3], &l, 0);
      fprintf(f, " %lu", (unsigned long) mbuf_append_and_free(m, d, l));
    } else if (strcmp(c, "mbrem") == 0) {
      mbuf_remove(m, strtoul(t[3], NULL, 10));
    } else if (strcmp(c, "mbsize") == 0) {
      size_t z = strtoul(t[3], NULL, 10), old = m->size;
      mbuf_resize(m, z);
      /* grown, or shrunk if the data still fits; otherwise unchanged */
      fprintf(f, " %d", z < m->len ? m->size == old : m->size == z);
    } else if (strcmp(c, "mbtrim") == 0) {
      mbuf_trim(m);
      fprintf(f, " %d", m->size == m->len);
    } else if (strcmp(c, "mbclear") == 0) {
      size_t old = m->size;
      mbuf_clear(m);
      fprintf(f, " %d", m->size == old);
    } else if (strcmp(c, "mbmove") == 0) {
      struct mbuf *to = &mb[atoi(t[3])];
      mbuf_free(to);
      mbuf_move(m, to);
      put_mb(f, to);
    }
    put_mb(f, m);
  } else if (strcmp(c, "vi") == 0) { /* value size */
    uint64_t v = strtoull(t[2], NULL, 10), w = 0;
    size_t size = strtoul(t[3], NULL, 10), l, l2 = 0;
    uint8_t *b = malloc(size ? size : 1), full[16];
    int l3 = 0;
    fprintf(f, " %lu", (unsigned long) cs_varint_llen(v));
    l = cs_varint_encode(v, b, size);
    fprintf(f, " %lu", (unsigned long) l);
    put_hex(f, b, l < size ? l : size);
    if (l < size) size = l;
    w = 77;
    if (cs_varint_decode(b, size, &w, &l2))
      fprintf(f, " %llu %lu", (unsigned long long) w, (unsigned long) l2);
    else
      fprintf(f, " short");
    free(b);
    b = malloc(l);
    cs_varint_encode(v, full, sizeof(full));
    memcpy(b, full, l);
    w = cs_varint_decode_unsafe(b, &l3);
    fprintf(f, " %llu %d", (unsigned long long) w, l3);
    free(b);
  } else if (strcmp(c, "vd") == 0) { /* any bytes */
    size_t l, l2 = 0;
    uint64_t w = 0;
    uint8_t *b = (uint8_t *) dec(t[2], &l, 0);
    if (cs_varint_decode(b, l, &w, &l2))
      fprintf(f, " %llu %lu", (unsigned long long) w, (unsigned long) l2);
    else
      fprintf(f, " short");
    free(b);
  } else if (strcmp(c, "fmt") == 0) { /* size fmt args (sHEX, zHEX, i) */
    size_t size = strtoul(t[2], NULL, 10);
    char *fmt = dec(t[3], NULL, 1), *b = size ? malloc(size) : NULL;
    char *keep[8] = {0};
    uint64_t a[8] = {0};
    int i, r;
    for (i = 4; i < n && i < 12; i++) {
      if (*t[i] == 'z' || *t[i] == 's') {
        keep[i - 4] = dec(t[i] + 1, NULL, *t[i] == 'z');
        a[i - 4] = (uint64_t) (uintptr_t) keep[i - 4];
      } else {
        a[i - 4] = *t[i] == '-' ? (uint64_t) strtoll(t[i], NULL, 10) : strtoull(t[i], NULL, 10);
      }
    }
    if (size) memset(b, 'Z', size);
    r = c_snprintf(b, size, fmt, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    fprintf(f, " %d", r);
    if (size > 0) {
      size_t z = strnlen(b, size);
      if (z == size)
        fprintf(f, " unterminated");
      else
        put_hex(f, b, z);
    }
    free(b);
    free(fmt);
    for (i = 0; i < 8; i++) free(keep[i]);
  } else if (strcmp(c, "afmt") == 0) { /* size str int */
    size_t size = strtoul(t[2], NULL, 10);
    char *s = dec(t[3], NULL, 1), *b = size ? malloc(size) : NULL, *p = b;
    int r = mg_asprintf(&p, size, "<%s|%d>", s, atoi(t[4]));
    fprintf(f, " %d %d", r, p == b);
    put_hex(f, p, p ? strlen(p) : 0);
    if (p != b) free(p);
    free(b);
    free(s);
  } else if (strcmp(c, "cmp") == 0) { /* a b n: all comparisons of a and b */
    struct mg_str a = decs(t[2]), b = decs(t[3]);
    size_t k = strtoul(t[4], NULL, 10);
    fprintf(f, " %ld %ld %ld %d", sgn(mg_strcmp(a, b)), sgn(mg_strncmp(a, b, k)),
            sgn(mg_strcasecmp(a, b)), mg_str_starts_with(a, b) != 0);
    free((char *) a.p);
    free((char *) b.p);
  } else if (strcmp(c, "zcmp") == 0) { /* a b n: NUL-terminated */
    struct mg_str a = decs(t[2]);
    char *az = dec(t[2], NULL, 1), *b = dec(t[3], NULL, 1);
    size_t k = strtoul(t[4], NULL, 10);
    fprintf(f, " %ld %ld", sgn(mg_vcmp(&a, b)), sgn(mg_vcasecmp(&a, b)));
    fprintf(f, " %ld %ld %ld", sgn(mg_casecmp(az, b)), sgn(mg_ncasecmp(az, b, k)),
            (long) c_strnlen(b, k));
    {
      struct mg_str x = mg_mk_str(b), y = mg_mk_str(NULL), z = mg_mk_str_n(b, k);
      fprintf(f, " %lu %d", (unsigned long) x.len,
              x.p == b && y.p == NULL && y.len == 0 && z.p == b && z.len == k);
    }
    free(az);
    free((char *) a.p);
    free(b);
  } else if (strcmp(c, "find") == 0) { /* hay needle chr */
    struct mg_str a = decs(t[2]), b = decs(t[3]), s;
    char *bz = dec(t[3], NULL, 1);
    put_off(f, mg_strstr(a, b), a.p, a.len);
    put_off(f, mg_strchr(a, atoi(t[4])), a.p, a.len);
    put_off(f, c_strnstr(a.p, bz, a.len), a.p, a.len);
    s = mg_strstrip(a);
    put_off(f, s.p, a.p, a.len);
    fprintf(f, " %lu", (unsigned long) s.len);
    free(bz);
    free((char *) a.p);
    free((char *) b.p);
  } else if (strcmp(c, "dup") == 0) {
    struct mg_str a = decs(t[2]), d = mg_strdup(a), e = mg_strdup_nul(a);
    if (d.len > 0) {
      char *w = (char *) d.p; /* ours, and independent */
      fprintf(f, " %d", w != a.p);
    } else
      fprintf(f, " -");
    put_hex(f, d.p, d.len);
    put_hex(f, e.p, e.len + (e.p != NULL));
    mg_strfree(&d);
    mg_strfree(&e);
    fprintf(f, " %d", d.p == NULL && d.len == 0 && e.p == NULL && e.len == 0);
    free((char *) a.p);
  } else if (strcmp(c, "hex") == 0) {
    size_t l;
    unsigned char *d = (unsigned char *) dec(t[2], &l, 0);
    char *to = malloc(2 * l + 1), *back = malloc(l + 1);
    cs_to_hex(to, d, l);
    put_hex(f, to, strlen(to));
    if (n > 3 && *t[3] == 'u') {
      size_t i;
      for (i = 0; i < 2 * l; i++)
        if (to[i] >= 'a' && i % 3) to[i] -= 32;
    }
    cs_from_hex(back, to, 2 * l);
    put_hex(f, back, l + 1);
    free(back);
    free(to);
    free(d);
  } else if (strcmp(c, "list") == 0) { /* list kind: z, n, e(no eq_val) */
    struct mg_str l = decs(t[2]), v = MG_NULL_STR, e = MG_NULL_STR, it = l;
    char *lz = dec(t[2], NULL, 1);
    const char *p = lz;
    int i;
    for (i = 0; i < 200; i++) {
      if (*t[3] == 'z') {
        p = mg_next_comma_list_entry(p, &v, &e);
        if (p == NULL) break;
      } else {
        it = mg_next_comma_list_entry_n(it, &v, *t[3] == 'n' ? &e : NULL);
        if (it.p == NULL) break;
      }
      put_hex(f, v.p, v.len);
      put_hex(f, e.p, e.len);
    }
    free(lz);
    free((char *) l.p);
  } else if (strcmp(c, "glob") == 0) { /* pattern str */
    struct mg_str p = decs(t[2]), s = decs(t[3]);
    char *sz = dec(t[3], NULL, 1);
    fprintf(f, " %lu", (unsigned long) mg_match_prefix_n(p, s));
    fprintf(f, " %lu", (unsigned long) mg_match_prefix(p.p, (int) p.len, sz));
    free(sz);
    free((char *) p.p);
    free((char *) s.p);
  } else if (strcmp(c, "read") == 0) { /* name */
    char *nm = dec(t[2], NULL, 1);
    size_t l = 12345;
    char *d = cs_read_file(nm, &l);
    if (d == NULL) {
      fprintf(f, " null");
    } else {
      fprintf(f, " %d", d[l] == 0);
      put_hex(f, d, l);
    }
    free(d);
    free(nm);
  } else {
    fprintf(f, " ?");
  }
  fprintf(f, "\n");
  return 1;
}
