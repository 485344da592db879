/* Observation hooks shared by all harness programs (MJS_VERIF build). */
#ifndef VERIF_HOOKS_H
#define VERIF_HOOKS_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "common/mbuf.h"
#include "common/mg_str.h"
#include "mjs_core_public.h"
#include "mjs_exec_public.h"
#include "mjs_gc_public.h"
#include "mjs_object_public.h"
#include "mjs_array_public.h"
#include "mjs_string_public.h"
#include "mjs_primitive_public.h"
#include "mjs_util_public.h"
#include "mjs_ffi_public.h"

struct hook_state {
  int gc_mode;              /* 0 none, 1 every step, 2 every k-th, 3 random */
  unsigned long gc_k;       /* period for mode 2, 1/k probability for mode 3 */
  unsigned long gc_rng;
  unsigned long step_limit; /* 0 = unlimited */
  unsigned long steps;
  unsigned long gcs;
  unsigned long freed_cells;
  unsigned long cell_uses;
  int relocate;             /* relocate the strings buffer after each gc */
  int limit_hit;
  int fault_write;          /* 1: fwrite() is short, 2: fclose() fails */
  unsigned long faults;
  unsigned long mem_cap;    /* hostile mode: stop scripts growing beyond this */
  int track;                /* remember the peaks below */
  unsigned long peak_cells, peak_strings, peak_stacks, peak_bytes;
  int wild_pointer;         /* a script made a pointer to nowhere: stopped */
};
extern struct hook_state hs;
extern FILE *hooks_log;
void hooks_reset(void);       /* forget per-case state (keeps free set) */
void hooks_new_case(void);
void hooks_valid_ptr(void *p);  /* hostile mode: a pointer scripts may use */
extern int mjs_verif_top_ptr(struct mjs *mjs, void **p);
extern void mjs_verif_snapshot(struct mjs *mjs, unsigned long out[10]);
#endif
