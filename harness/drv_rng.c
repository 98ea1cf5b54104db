/* Drives the random number generators. */
#include "drv.h"
#include "rng-double.h"
#include "helpers.h"
static RngDouble *R[4];
static void t_double(const char *k, double v) {
    int64_t l; memcpy(&l, &v, 8);
    fprintf(out, ",\"%s\":[%d,%d]", k, (int32_t)(l >> 32), (int32_t)l);
}
int main(void) {
    out = fdopen(3, "w"); if (!out) return 2;
    while (next_op()) {
        int k = na ? a[0] & 3 : 0;
        if (!strcmp(op, "reset")) { for (int i = 0; i < 4; i++) { if (R[i]) rng_double_free(R[i]); R[i] = NULL; } t_begin(); }
        else if (!strcmp(op, "new")) { if (R[k]) rng_double_free(R[k]); R[k] = rng_double_new(a[1]); t_begin(); }
        else if (!strcmp(op, "seed")) { rng_double_set_seed(R[k], a[1]); t_begin(); }
        else if (!strcmp(op, "next")) { double v = rng_double_next(R[k]); t_begin(); t_double("v", v); }
        else if (!strcmp(op, "gauss")) { double v = rand_gauss(R[k]); t_begin(); t_double("v", v); }
        else { fprintf(stderr, "unknown op %s\n", op); return 2; }
        t_end();
    }
    fclose(out);
    return 0;
}
