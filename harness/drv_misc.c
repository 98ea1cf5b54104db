/* Drives the parts that are plain functions: mappings, rectangles, transforms,
 * colour models.  Numbers are decimal in the script, bits of floats in the trace. */
#include "drv.h"
#include "mypaint-mapping.h"
#include "mypaint-rectangle.h"
#include "mypaint-matrix.h"
#include "helpers.h"
#undef MAX
static char *tk[512]; static int nt;
static struct { MyPaintMapping *m; int inputs; } M[4];
static MyPaintTransform T[4];
static MyPaintRectangle R[4];
static long bits(float f) { int32_t i; if (isnan(f)) return 2143289344; memcpy(&i, &f, 4); return i; }
static float fl(int i) { if (i >= nt) { fprintf(stderr, "short line\n"); exit(2); } return strtof(tk[i], NULL); }
static int in(int i) { if (i >= nt) { fprintf(stderr, "short line\n"); exit(2); } return atoi(tk[i]); }
static void fls(const char *key, int n, const float *f) {
    fprintf(out, ",\"%s\":[", key);
    for (int i = 0; i < n; i++) fprintf(out, i ? ",%ld" : "%ld", bits(f[i]));
    fputc(']', out);
}
static void args(void) {          /* all arguments after the register, as bits of floats */
    float f[512]; for (int i = 2; i < nt; i++) f[i - 2] = fl(i);
    fls("f", nt > 2 ? nt - 2 : 0, f);
}
static void iargs(void) { fputs(",\"a\":[", out); for (int i = 2; i < nt; i++) fprintf(out, i > 2 ? ",%d" : "%d", in(i)); fputc(']', out); }
static void open_(int k) { fprintf(out, "{\"op\":\"%s\",\"k\":%d", tk[0], k); }
static void logT(int k) { fls("t", 9, &T[k].rows[0][0]); }
static void logR(int k) { long v[4] = { R[k].x, R[k].y, R[k].width, R[k].height }; t_ints("r", 4, v); }
int main(void) {
    out = fdopen(3, "w"); if (!out) return 2;
    size_t cap = 0; char *ln = NULL; ssize_t n;
    while ((n = getline(&ln, &cap, stdin)) > 0) {
        while (n && (ln[n-1] == '\n' || ln[n-1] == '\r')) ln[--n] = 0;
        if (!n || *ln == '#') continue;
        nt = 0; for (char *p = strtok(ln, " "); p && nt < 512; p = strtok(NULL, " ")) tk[nt++] = p;
        const char *o = tk[0]; int k = nt > 1 ? atoi(tk[1]) & 3 : 0;
        open_(k);
        if (!strcmp(o, "reset")) {
            for (int i = 0; i < 4; i++) { if (M[i].m) mypaint_mapping_free(M[i].m); M[i].m = NULL; memset(&R[i], 0, sizeof R[i]); T[i] = mypaint_transform_unit(); }
        } else if (!strcmp(o, "mnew")) {
            if (M[k].m) mypaint_mapping_free(M[k].m);
            M[k].inputs = in(2); M[k].m = mypaint_mapping_new(in(2)); iargs();
        } else if (!strcmp(o, "mbase")) { mypaint_mapping_set_base_value(M[k].m, fl(2)); args();
        } else if (!strcmp(o, "mset")) {           /* mset k input x y x y ... */
            int c = (nt - 3) / 2, i = in(2);
            mypaint_mapping_set_n(M[k].m, i, c);
            float f[512]; for (int j = 0; j < 2 * c; j++) f[j] = fl(3 + j);
            for (int j = 0; j < c; j++) mypaint_mapping_set_point(M[k].m, i, j, f[2*j], f[2*j+1]);
            t_int("i", i); fls("f", 2 * c, f);
        } else if (!strcmp(o, "mcut")) { mypaint_mapping_set_n(M[k].m, in(2), in(3)); iargs();   /* fewer points */
        } else if (!strcmp(o, "mget")) {
            t_int("const", !!mypaint_mapping_is_constant(M[k].m)); t_int("used", mypaint_mapping_get_inputs_used_n(M[k].m));
            float b = mypaint_mapping_get_base_value(M[k].m); fls("b", 1, &b);
            fputs(",\"p\":[", out);
            for (int i = 0; i < M[k].inputs; i++) {
                int c = mypaint_mapping_get_n(M[k].m, i);
                fputs(i ? ",[" : "[", out);
                for (int j = 0; j < c; j++) { float x, y; mypaint_mapping_get_point(M[k].m, i, j, &x, &y); fprintf(out, j ? ",%ld,%ld" : "%ld,%ld", bits(x), bits(y)); }
                fputc(']', out);
            }
            fputc(']', out);
        } else if (!strcmp(o, "mcalc")) {
            float f[64]; for (int i = 0; i < M[k].inputs; i++) f[i] = fl(2 + i);
            float v = M[k].inputs == 1 && nt > 3 ? mypaint_mapping_calculate_single_input(M[k].m, f[0]) : mypaint_mapping_calculate(M[k].m, f);
            fls("f", M[k].inputs, f); fls("v", 1, &v);
        } else if (!strcmp(o, "rset")) { R[k].x = in(2); R[k].y = in(3); R[k].width = in(4); R[k].height = in(5); iargs(); logR(k);
        } else if (!strcmp(o, "rpt")) { mypaint_rectangle_expand_to_include_point(&R[k], in(2), in(3)); iargs(); logR(k);
        } else if (!strcmp(o, "rrect")) { int j = in(2) & 3; mypaint_rectangle_expand_to_include_rect(&R[k], &R[j]); iargs(); logR(k);
            long v[4] = { R[j].x, R[j].y, R[j].width, R[j].height }; t_ints("o", 4, v);
        } else if (!strcmp(o, "rcopy")) { int j = in(2) & 3; MyPaintRectangle *c = mypaint_rectangle_copy(&R[j]); R[k] = *c; free(c); iargs(); logR(k);
        } else if (!strcmp(o, "tunit")) { T[k] = mypaint_transform_unit(); logT(k);
        } else if (!strcmp(o, "tset")) { for (int i = 0; i < 9; i++) (&T[k].rows[0][0])[i] = fl(2 + i); args(); logT(k);
        } else if (!strcmp(o, "tcw")) { T[k] = mypaint_transform_rotate_cw(T[k], fl(2)); args(); logT(k);
        } else if (!strcmp(o, "tccw")) { T[k] = mypaint_transform_rotate_ccw(T[k], fl(2)); args(); logT(k);
        } else if (!strcmp(o, "trefl")) { T[k] = mypaint_transform_reflect(T[k], fl(2)); args(); logT(k);
        } else if (!strcmp(o, "tmove")) { T[k] = mypaint_transform_translate(T[k], fl(2), fl(3)); args(); logT(k);
        } else if (!strcmp(o, "tpt")) { float v[2]; mypaint_transform_point(&T[k], fl(2), fl(3), v, v + 1); args(); fls("v", 2, v);
        } else if (!strncmp(o, "c_", 2)) {
            float v[4] = { fl(2), fl(3), fl(4) };
            args();
            if (!strcmp(o, "c_rgbhsv")) rgb_to_hsv_float(v, v + 1, v + 2);
            else if (!strcmp(o, "c_hsvrgb")) hsv_to_rgb_float(v, v + 1, v + 2);
            else if (!strcmp(o, "c_rgbhsl")) rgb_to_hsl_float(v, v + 1, v + 2);
            else if (!strcmp(o, "c_hslrgb")) hsl_to_rgb_float(v, v + 1, v + 2);
            else if (!strcmp(o, "c_hcyrgb")) hcy_to_rgb_float(v, v + 1, v + 2);
            else if (!strcmp(o, "c_rgbhcy")) rgb_to_hcy_float(v, v + 1, v + 2);
            else if (!strcmp(o, "c_hsvback")) { rgb_to_hsv_float(v, v + 1, v + 2); hsv_to_rgb_float(v, v + 1, v + 2); }
            else if (!strcmp(o, "c_hslback")) { rgb_to_hsl_float(v, v + 1, v + 2); hsl_to_rgb_float(v, v + 1, v + 2); }
            else if (!strcmp(o, "c_spec")) { float s[10] = {0}; rgb_to_spectral(v[0], v[1], v[2], s); fls("s", 10, s); spectral_to_rgb(s, v); }
            else if (!strcmp(o, "c_mix")) {
                float a[4] = { fl(2), fl(3), fl(4), fl(5) }, b[4] = { fl(6), fl(7), fl(8), fl(9) };
                memcpy(v, mix_colors(a, b, fl(10), fl(11)), sizeof v);
            } else return 2;
            fls("v", 4, v);
        } else if (!strcmp(o, "angdiff")) { float v = smallest_angular_difference(fl(2), fl(3)); args(); fls("v", 1, &v);
        } else if (!strcmp(o, "mod")) { float v = mod_arith(fl(2), fl(3)); args(); fls("v", 1, &v);
        } else { fprintf(stderr, "unknown op %s\n", o); return 2; }
        t_end();
    }
    fclose(out);
    return 0;
}
