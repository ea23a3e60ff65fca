/* drv module.wasm [opts] -- name type:val ... = type:val ... : calls an exported function and compares its results. 
   Calls are separated by ','. Frame contents above the arguments are filled with junk first. */
#include <pwart.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static void *put(void *sp, const char *a, int align) {
  char *v = strchr(a, ':') + 1;
  int sz = (!strncmp(a, "i32", 3) || !strncmp(a, "f32", 3)) ? 4 : 8;
  if (align && sz == 8 && ((uintptr_t)sp & 7)) sp = (char *)sp + 4;
  if (a[1] == '3' ) {
    uint32_t u; float f;
    if (a[0] == 'i') u = (uint32_t)strtoull(v, 0, 0);
    else if (!strncmp(v, "0b", 2)) u = strtoul(v + 2, 0, 16);
    else { f = strtof(v, 0); memcpy(&u, &f, 4); }
    memcpy(sp, &u, 4);
  } else {
    uint64_t u; double d;
    if (a[0] != 'f') u = strtoull(v, 0, 0);
    else if (!strncmp(v, "0b", 2)) u = strtoull(v + 2, 0, 16);
    else { d = strtod(v, 0); memcpy(&u, &d, 8); }
    memcpy(sp, &u, 8);
  }
  return (char *)sp + sz;
}
int main(int argc, char **argv) {
  static char buf[1 << 20];
  FILE *f = fopen(argv[1], "rb");
  int n = fread(buf, 1, sizeof buf, f), i = 2, bad = 0;
  char *err = 0;
  struct pwart_global_compile_config cfg;
  fclose(f);
  pwart_get_global_compile_config(&cfg);
  for (; i < argc && strcmp(argv[i], "--"); i++) {
    if (!strncmp(argv[i], "stack=", 6)) cfg.stack_flags = atoi(argv[i] + 6);
    if (!strncmp(argv[i], "misc=", 5)) cfg.misc_flags = atoi(argv[i] + 5);
  }
  pwart_set_global_compile_config(&cfg);
  int al = cfg.stack_flags & 1;
  pwart_module_state m = pwart_load_module(buf, n, &err);
  if (!m || err) { printf("load failed: %s\n", err ? err : "?"); return 3; }
  pwart_wasm_function st = pwart_get_start_function(m);
  char *stack = pwart_allocate_stack(256 * 1024), exp[256], got[256];
  if (st) pwart_call_wasm_function(st, stack);
  while (i < argc) {
    i++;
    if (i >= argc) break;
    char *name = argv[i++];
    pwart_wasm_function fn = pwart_get_export_function(m, name);
    if (!fn) { printf("no function %s\n", name); return 3; }
    memset(stack, 0xA5, 65536);
    void *sp = stack;
    for (; i < argc && strcmp(argv[i], "="); i++) sp = put(sp, argv[i], al);
    pwart_call_wasm_function(fn, stack);
    void *e = exp;
    memset(exp, 0, sizeof exp);
    memset(got, 0, sizeof got);
    if (i < argc && !strcmp(argv[i], "=")) {
      for (i++; i < argc && strcmp(argv[i], ","); i++) {
        char *o = e;
        int nan = !strcmp(argv[i] + 4, "nan");
        e = put(e, argv[i], al);
        if (nan) { /* any NaN */
          int sz = argv[i][1] == '3' ? 4 : 8;
          char *p = stack + ((char *)e - sz - exp);
          if (sz == 4) { float x; memcpy(&x, p, 4); if (!isnan(x)) bad = 1; } else { double x; memcpy(&x, p, 8); if (!isnan(x)) bad = 1; }
          memcpy((char *)e - sz, p, sz);
        }
      }
    }
    if (memcmp(exp, stack, (char *)e - exp)) {
      bad = 1;
      printf("%s: wrong result:", name);
      for (char *p = exp; p < (char *)e; p += 4) printf(" %08x(expected %08x)", *(uint32_t *)(stack + (p - exp)), *(uint32_t *)p);
      printf("\n");
    }
  }
  return bad;
}
