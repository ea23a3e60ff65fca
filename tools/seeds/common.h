#include <pwart.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char buf[1 << 20];
static int rd(const char *n) { FILE *f = fopen(n, "rb"); if (!f) exit(2); int k = fread(buf, 1, sizeof buf, f); fclose(f); return k; }
#define FAIL(x) do { printf("%s\n", x); return 1; } while (0)
