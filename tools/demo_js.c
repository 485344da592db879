/* Runs demo.js; it must evaluate to true. */
#include <stdio.h>
#include "mjs_core_public.h"
#include "mjs_exec_public.h"
#include "mjs_primitive_public.h"

int main(void) {
  struct mjs *mjs = mjs_create();
  mjs_val_t res = 0;
  mjs_err_t err = mjs_exec_file(mjs, "demo.js", &res);
  int ok = err == MJS_OK && mjs_is_boolean(res) && mjs_get_bool(mjs, res);
  if (err != MJS_OK) mjs_print_error(mjs, stdout, NULL, 1);
  printf(ok ? "ok\n" : "WRONG\n");
  mjs_destroy(mjs);
  return ok ? 0 : 1;
}
