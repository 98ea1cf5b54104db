/* Shared by the drivers: reads "op int int ..." script lines from stdin, and
 * writes one JSON trace line per operation to stdout. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <ctype.h>
#define MAXA 4096
static char op[64];
static int na;
static long a[MAXA];
static char *rest;          /* text after the integers' first non-integer token */
static char *line_; static size_t line_cap_;
static FILE *out;
static int next_op(void) {
    for (;;) {
        ssize_t n = getline(&line_, &line_cap_, stdin);
        if (n < 0) return 0;
        while (n && (line_[n-1] == '\n' || line_[n-1] == '\r')) line_[--n] = 0;
        char *p = line_; while (*p == ' ') p++;
        if (!*p || *p == '#') continue;
        int k = 0; while (*p && *p != ' ' && k < 63) op[k++] = *p++;
        op[k] = 0; na = 0; rest = NULL;
        for (;;) {
            while (*p == ' ') p++;
            if (!*p) break;
            char *e; long v = strtol(p, &e, 10);
            if (e == p) { rest = p; break; }
            if (na < MAXA) a[na++] = v;
            p = e;
        }
        return 1;
    }
}
static void t_begin(void) {
    fprintf(out, "{\"op\":\"%s\",\"a\":[", op);
    for (int i = 0; i < na; i++) fprintf(out, i ? ",%ld" : "%ld", a[i]);
    fputc(']', out);
}
static void t_int(const char *k, long v) { fprintf(out, ",\"%s\":%ld", k, v); }
static void t_ints(const char *k, int n, const long *v) {
    fprintf(out, ",\"%s\":[", k);
    for (int i = 0; i < n; i++) fprintf(out, i ? ",%ld" : "%ld", v[i]);
    fputc(']', out);
}
static void t_end(void) { fputs("}\n", out); fflush(out); }
/* scaled integer of a float; non-finite and out-of-range values become
 * sentinels the specification never expects */
static long sc(double v, double k) {
    double r = v * k;
    if (isnan(r)) return 2000000001;
    if (r > 2e9) return 2000000000;
    if (r < -2e9) return -2000000000;
    return lrint(r);
}
/* announce the call before making it, so that a crash is attributable */
static void t_call(void) { }
#endif
