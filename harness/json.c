/* Commands on the bundled JSON library (src/frozen): "j NAME args". */
#define _GNU_SOURCE
#include "hooks.h"
#include "frozen.h"

static int hv(int c) {
  return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}
static char *dec(const char *s, size_t *len, int term) {
  size_t n = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2, i;
  char *r;
  if (len != NULL) *len = 0;
  if (strcmp(s, "0") == 0) return NULL;
  r = malloc(n + (term ? 1 : 0) + (n == 0 && !term));
  for (i = 0; i < n; i++) r[i] = (char) (hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
  if (term) r[n] = 0;
  if (len != NULL) *len = n;
  return r;
}
static void put_hex(FILE *f, const void *p, size_t n) {
  const unsigned char *s = p;
  size_t i;
  fputc(' ', f);
  if (n == 0) fputc('-', f);
  for (i = 0; i < n; i++) fprintf(f, "%02x", s[i]);
}
struct wd {
  FILE *f;
  const char *doc;
  size_t len;
  int bad;
};
static void put_tok(struct wd *w, const struct json_token *t) {
  if (t->ptr == NULL)
    fprintf(w->f, " %d null", t->type);
  else if (t->ptr < w->doc || t->len < 0 || t->ptr + t->len > w->doc + w->len)
    fprintf(w->f, " %d outside", t->type);
  else
    fprintf(w->f, " %d %ld+%d", t->type, (long) (t->ptr - w->doc), t->len);
}
static void walk_cb(void *d, const char *name, size_t nlen, const char *path,
                    const struct json_token *t) {
  struct wd *w = d;
  fprintf(w->f, "W");
  if (name == NULL)
    fprintf(w->f, " null");
  else
    put_hex(w->f, name, nlen);
  put_hex(w->f, path, strlen(path));
  put_tok(w, t);
  fprintf(w->f, "\n");
}
static struct wd *scan_w;
static void scan_cb(const char *s, int len, void *user) {
  if (s < scan_w->doc || len < 0 || s + len > scan_w->doc + scan_w->len)
    fprintf((FILE *) user, "M outside\n");
  else
    fprintf((FILE *) user, "M %ld+%d\n", (long) (s - scan_w->doc), len);
}
static int sub_cb(struct json_out *out, va_list *ap) { /* consumes two ints */
  int a = va_arg(*ap, int), b = va_arg(*ap, int);
  return json_printf(out, "{x:%d,y:%d}", a, b);
}
static void put_out(FILE *f, char *b, size_t size) {
  if (size > 0) {
    size_t z = strnlen(b, size);
    if (z == size)
      fprintf(f, " unterminated");
    else
      put_hex(f, b, z);
  }
}

int json_cmd(FILE *f, char **t, int n) {
  const char *c = t[1];
  size_t len = 0;
  char *doc;
  struct wd w;
  if (n < 3) return 0;
  doc = dec(t[2], &len, 0);
  w.f = f;
  w.doc = doc;
  w.len = len;
  if (strcmp(c, "walk") == 0) {
    int r = json_walk(doc, (int) len, walk_cb, &w);
    fprintf(f, "J walk %d", r);
  } else if (strcmp(c, "check") == 0) { /* without a callback */
    fprintf(f, "J check %d", json_walk(doc, (int) len, NULL, NULL));
  } else if (strcmp(c, "scan") == 0) { /* doc fmt types */
    char *fmt = dec(t[3], NULL, 1);
    const char *ty = n > 4 ? t[4] : "";
    void *p[16] = {0};
    union {
      int i;
      unsigned u;
      long l;
      unsigned long ul;
      double d;
      char ch[16];
      char *s;
      struct json_token tok;
    } v[8];
    int lens[8], k = 0, i, r;
    scan_w = &w;
    memset(v, 0, sizeof(v));
    for (i = 0; ty[i] && i < 8; i++) {
      lens[i] = -7;
      if (strchr("dul", ty[i])) v[i].l = -77;
      if (ty[i] == 'L') v[i].ul = 77;
      if (ty[i] == 'f') v[i].d = -77;
      if (ty[i] == 'B') memset(&v[i], 7, sizeof(v[i]));
      if (ty[i] == 'H') {
        p[k++] = &lens[i];
        p[k++] = &v[i].s;
      } else if (ty[i] == 'V') {
        p[k++] = &v[i].s;
        p[k++] = &lens[i];
      } else if (ty[i] == 'M') {
        p[k++] = (void *) scan_cb;
        p[k++] = f;
      } else {
        p[k++] = &v[i];
      }
    }
    r = json_scanf(doc, (int) len, fmt, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7],
                   p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]);
    fprintf(f, "J scan %d", r);
    for (i = 0; ty[i] && i < 8; i++) {
      switch (ty[i]) {
        case 'd':
          fprintf(f, " %d", v[i].i);
          break;
        case 'u':
          fprintf(f, " %u", v[i].u);
          break;
        case 'l':
          fprintf(f, " %ld", v[i].l);
          break;
        case 'L':
          fprintf(f, " %lu", v[i].ul);
          break;
        case 'f':
          fprintf(f, " %.17g", v[i].d);
          break;
        case 'B':
          fprintf(f, " %d.%d", v[i].ch[0], v[i].ch[sizeof(bool)]);
          break;
        case 'Q':
          if (v[i].s == NULL)
            fprintf(f, " null");
          else
            put_hex(f, v[i].s, strlen(v[i].s));
          free(v[i].s);
          break;
        case 'H':
        case 'V':
          fprintf(f, " %d", lens[i]);
          if (v[i].s == NULL)
            fprintf(f, " null");
          else
            put_hex(f, v[i].s, (size_t) lens[i] + 1);
          free(v[i].s);
          break;
        case 'T':
          put_tok(&w, &v[i].tok);
          break;
      }
    }
    free(fmt);
  } else if (strcmp(c, "elem") == 0) { /* doc path idx */
    char *path = dec(t[3], NULL, 1);
    struct json_token tok;
    fprintf(f, "J elem %d", json_scanf_array_elem(doc, (int) len, path, atoi(t[4]), &tok));
    put_tok(&w, &tok);
    free(path);
  } else if (strcmp(c, "next") == 0) { /* doc path kind */
    char *path = dec(t[3], NULL, 1);
    struct json_token key, val;
    int idx, i;
    void *h = NULL;
    for (i = 0; i < 300; i++) {
      memset(&key, 0, sizeof(key));
      memset(&val, 0, sizeof(val));
      idx = -7;
      if (*t[4] == 'k')
        h = json_next_key(doc, (int) len, h, path, &key, &val);
      else if (*t[4] == 'e')
        h = json_next_elem(doc, (int) len, h, path, &idx, &val);
      else
        h = json_next_key(doc, (int) len, h, path, NULL, NULL);
      if (h == NULL) break;
      fprintf(f, "N");
      if (*t[4] == 'k') {
        if (key.ptr == NULL)
          fprintf(f, " null");
        else if (key.ptr < doc || key.len < 0 || key.ptr + key.len > doc + len)
          fprintf(f, " outside");
        else
          put_hex(f, key.ptr, key.len);
      } else {
        fprintf(f, " %d", idx);
      }
      if (*t[4] != 'n') put_tok(&w, &val);
      fprintf(f, "\n");
    }
    fprintf(f, "J next %d", i);
    free(path);
  } else if (strcmp(c, "unesc") == 0) { /* src dlen; dlen -1: in place */
    int dl = atoi(t[3]), r;
    if (dl < 0) {
      r = json_unescape(doc, (int) len, doc, (int) len);
      fprintf(f, "J unesc %d", r);
      put_hex(f, doc, r < 0 ? 0 : r);
    } else {
      char *d = dl ? malloc(dl) : NULL;
      if (dl) memset(d, 'Z', dl);
      r = json_unescape(doc, (int) len, d, dl);
      fprintf(f, "J unesc %d", r);
      if (r >= 0 && r <= dl) put_hex(f, d, r);
      free(d);
    }
  } else if (strcmp(c, "print") == 0) { /* fmt size how args: iN zHEX rHEX fX */
    size_t size = strtoul(t[3], NULL, 10);
    char *fmt = dec(t[2], NULL, 1), *b = size ? malloc(size) : NULL;
    char *keep[12] = {0};
    uint64_t a[12] = {0};
    double d[6] = {0};
    int i, k = 0, q = 0, r;
    struct json_out out = JSON_OUT_BUF(b, size);
    for (i = 5; i < n; i++) {
      if (*t[i] == 'z' || *t[i] == 'r') { /* terminated, or exactly sized */
        if (k >= 12) break;
        keep[k] = dec(t[i] + 1, NULL, *t[i] == 'z');
        a[k] = (uint64_t) (uintptr_t) keep[k];
        k++;
      } else if (*t[i] == 'A') {
        a[k++] = (uint64_t) (uintptr_t) json_printf_array;
      } else if (*t[i] == 'M') {
        a[k++] = (uint64_t) (uintptr_t) sub_cb;
      } else if (*t[i] == 'f') {
        d[q++] = strtod(t[i] + 1, NULL);
      } else {
        a[k++] = t[i][1] == '-' ? (uint64_t) strtoll(t[i] + 1, NULL, 10) : strtoull(t[i] + 1, NULL, 10);
      }
    }
    if (size) memset(b, 'Z', size), b[0] = 0;
#define ARGS                                                                   \
  a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11],    \
      d[0], d[1], d[2], d[3], d[4], d[5]
    if (*t[4] == 'a') {
      char *s = json_asprintf(fmt, ARGS);
      fprintf(f, "J print");
      if (s == NULL)
        fprintf(f, " null");
      else
        put_hex(f, s, strlen(s));
      free(s);
    } else if (*t[4] == 'f') {
      fprintf(f, "J print %d", json_fprintf("jp.tmp", fmt, ARGS));
      {
        char *s = json_fread("jp.tmp");
        if (s == NULL)
          fprintf(f, " null");
        else
          put_hex(f, s, strlen(s));
        free(s);
      }
      remove("jp.tmp");
    } else {
      r = json_printf(&out, fmt, ARGS);
      fprintf(f, "J print %d", r);
      put_out(f, b, size);
    }
    free(b);
    free(fmt);
    for (i = 0; i < 12; i++) free(keep[i]);
  } else if (strcmp(c, "setf") == 0) { /* doc size path fmt|0 intarg */
    size_t size = strtoul(t[3], NULL, 10);
    char *b = size ? malloc(size) : NULL, *path = dec(t[4], NULL, 1);
    char *fmt = dec(t[5], NULL, 1);
    struct json_out out = JSON_OUT_BUF(b, size);
    int r;
    if (size) memset(b, 'Z', size), b[0] = 0;
    r = json_setf(doc, (int) len, &out, path, fmt, atoi(t[6]));
    fprintf(f, "J setf %d", r);
    put_out(f, b, size);
    free(fmt);
    free(path);
    free(b);
  } else if (strcmp(c, "pretty") == 0) { /* doc size */
    size_t size = strtoul(t[3], NULL, 10);
    char *b = size ? malloc(size) : NULL;
    struct json_out out = JSON_OUT_BUF(b, size);
    int r;
    if (size) memset(b, 'Z', size), b[0] = 0;
    r = json_prettify(doc, (int) len, &out);
    fprintf(f, "J pretty %d", r);
    put_out(f, b, size);
    free(b);
  } else if (strcmp(c, "prettyfile") == 0) { /* doc */
    FILE *fp = fopen("jf.tmp", "wb");
    char *s;
    fwrite(doc, 1, len, fp);
    fclose(fp);
    fprintf(f, "J prettyfile %d", json_prettify_file("jf.tmp"));
    s = json_fread("jf.tmp");
    if (s == NULL)
      fprintf(f, " null");
    else
      put_hex(f, s, strlen(s));
    free(s);
    remove("jf.tmp");
    fprintf(f, " %d", json_prettify_file("no/such/file") < 0);
  } else {
    fprintf(f, "J ?");
  }
  fprintf(f, "\n");
  free(doc);
  return 1;
}
