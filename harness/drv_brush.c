/* Drives MyPaintBrush through its public API onto a surface that records what
 * the brush asks for.  Numbers are logged as the bits of a float. */
#include "drv.h"
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#define NB 4
static char *tk[512]; static int nt;
static struct { MyPaintBrush *b; int buckets; } B[NB];
static struct { MyPaintSurface parent; float c[4]; int draws; } SF[NB];
static int cur; static long lines;
static long bits(float f) { int32_t i; if (isnan(f)) return 2143289344; memcpy(&i, &f, 4); return i; }
static float fl(const char *s) {
    if (!strcmp(s, "nan")) return NAN;
    if (!strcmp(s, "inf")) return INFINITY;
    if (!strcmp(s, "-inf")) return -INFINITY;
    return strtof(s, NULL);
}
static void split(char *s) {
    nt = 0;
    while (*s) {
        while (*s == ' ') *s++ = 0;
        if (!*s) break;
        if (nt < 512) tk[nt++] = s;
        while (*s && *s != ' ') s++;
    }
}
#define ST(N) { #N, MYPAINT_BRUSH_STATE_##N }
static struct { const char *n; MyPaintBrushState s; } states[] = {
    ST(X), ST(Y), ST(PRESSURE), ST(PARTIAL_DABS), ST(ACTUAL_RADIUS), ST(SMUDGE_RA), ST(SMUDGE_GA), ST(SMUDGE_BA), ST(SMUDGE_A),
    ST(LAST_GETCOLOR_R), ST(LAST_GETCOLOR_G), ST(LAST_GETCOLOR_B), ST(LAST_GETCOLOR_A), ST(LAST_GETCOLOR_RECENTNESS),
    ST(ACTUAL_X), ST(ACTUAL_Y), ST(NORM_DX_SLOW), ST(NORM_DY_SLOW), ST(NORM_SPEED1_SLOW), ST(NORM_SPEED2_SLOW), ST(STROKE),
    ST(STROKE_STARTED), ST(CUSTOM_INPUT), ST(ACTUAL_ELLIPTICAL_DAB_RATIO), ST(ACTUAL_ELLIPTICAL_DAB_ANGLE), ST(DIRECTION_DX),
    ST(DIRECTION_DY), ST(DECLINATION), ST(ASCENSION), ST(VIEWZOOM), ST(VIEWROTATION), ST(DIRECTION_ANGLE_DX), ST(DIRECTION_ANGLE_DY),
    ST(FLIP), ST(GRIDMAP_X), ST(GRIDMAP_Y), ST(DECLINATIONX), ST(DECLINATIONY), ST(DABS_PER_BASIC_RADIUS), ST(DABS_PER_ACTUAL_RADIUS),
    ST(DABS_PER_SECOND), ST(BARREL_ROTATION) };
#define NSTATES (sizeof states / sizeof *states)
static void low(const char *s) { for (; *s; s++) fputc(tolower(*s), out); }
static void t_open(const char *o, int k) { fprintf(out, "{\"op\":\"%s\",\"k\":%d", o, k); if (++lines > 400000) abort(); }
static void t_fl(const char *key, int n, const float *f) {
    fprintf(out, ",\"%s\":[", key);
    for (int i = 0; i < n; i++) fprintf(out, i ? ",%ld" : "%ld", bits(f[i]));
    fputc(']', out);
}
static void t_state(int k) {
    fputs(",\"st\":{", out);
    for (unsigned i = 0; i < NSTATES; i++) {
        fputs(i ? ",\"" : "\"", out); low(states[i].n); fprintf(out, "\":%ld", bits(mypaint_brush_get_state(B[k].b, states[i].s)));
    }
    fputs("},\"bk\":[", out);
    int n = B[k].buckets > 6 ? 6 : B[k].buckets;
    for (int i = 0; i < n; i++) {
        float f[9] = {0};
        mypaint_brush_get_smudge_bucket_state(B[k].b, i, f, f+1, f+2, f+3, f+4, f+5, f+6, f+7, f+8);
        fputs(i ? ",[" : "[", out);
        for (int j = 0; j < 9; j++) fprintf(out, j ? ",%ld" : "%ld", bits(f[j]));
        fputc(']', out);
    }
    fprintf(out, "],\"mn\":%d,\"mx\":%d", mypaint_brush_get_min_smudge_bucket_used(B[k].b), mypaint_brush_get_max_smudge_bucket_used(B[k].b));
}
static int draw_dab(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float op, float hard, float soft, float ea,
                    float asp, float ang, float la, float col, float pos, float pn, float paint) {
    float f[] = { x, y, radius, r, g, b, op, hard, soft, ea, asp, ang, la, col, pos, pn, paint };
    int k = cur, res = op > 0 && SF[k].draws;
    t_open("dab", k); t_fl("a", 17, f); t_int("r", res); t_state(k); t_end();
    return res;
}
static void get_color(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *al, float paint) {
    float f[] = { x, y, radius, paint };
    int k = cur;
    *r = SF[k].c[0]; *g = SF[k].c[1]; *b = SF[k].c[2]; *al = SF[k].c[3];
    t_open("pick", k); t_fl("a", 4, f); t_fl("c", 4, SF[k].c); t_state(k); t_end();
}
static void need(int n) { if (nt < n) { fprintf(stderr, "bad line: %s", op); exit(2); } }
static MyPaintBrushSetting sid(const char *s) {
    MyPaintBrushSetting id = mypaint_brush_setting_from_cname(s);
    return id;
}
int main(void) {
    out = fdopen(3, "w"); if (!out) return 2;
    if (!freopen("/dev/null", "w", stdout)) return 2;
    size_t cap = 0; char *ln = NULL; ssize_t n;
    while ((n = getline(&ln, &cap, stdin)) > 0) {
        while (n && (ln[n-1] == '\n' || ln[n-1] == '\r')) ln[--n] = 0;
        if (!n || *ln == '#') continue;
        char *raw = strdup(ln);
        split(ln);
        const char *o = tk[0];
        int k = nt > 1 ? atoi(tk[1]) : 0; if (k < 0 || k >= NB) return 2;
        MyPaintBrush *b = B[k].b;
        cur = k;
        if (!strcmp(o, "reset")) {
            for (int i = 0; i < NB; i++) { if (B[i].b) mypaint_brush_unref(B[i].b); memset(&B[i], 0, sizeof B[i]); memset(&SF[i], 0, sizeof SF[i]); }
            t_open(o, 0); t_end();
        } else if (!strcmp(o, "new")) {             /* new k buckets */
            need(3);
            B[k].buckets = atoi(tk[2]);
            B[k].b = B[k].buckets ? mypaint_brush_new_with_buckets(B[k].buckets) : mypaint_brush_new();
            mypaint_surface_init(&SF[k].parent);
            SF[k].parent.draw_dab = draw_dab; SF[k].parent.get_color = get_color; SF[k].draws = 1;
            t_open(o, k); t_int("n", B[k].buckets); t_state(k); t_end();
        } else if (!strcmp(o, "set")) {             /* set k setting value */
            need(4);
            float v = fl(tk[3]);
            mypaint_brush_set_base_value(b, sid(tk[2]), v);
            t_open(o, k); fprintf(out, ",\"s\":\"%s\",\"v\":%ld", tk[2], bits(v)); t_end();
        } else if (!strcmp(o, "map")) {             /* map k setting input x y x y ... */
            need(4);
            int np = (nt - 4) / 2; float f[256];
            MyPaintBrushSetting s = sid(tk[2]); MyPaintBrushInput i = mypaint_brush_input_from_cname(tk[3]);
            mypaint_brush_set_mapping_n(b, s, i, np);
            for (int j = 0; j < np; j++) { f[2*j] = fl(tk[4+2*j]); f[2*j+1] = fl(tk[5+2*j]); mypaint_brush_set_mapping_point(b, s, i, j, f[2*j], f[2*j+1]); }
            t_open(o, k); fprintf(out, ",\"s\":\"%s\",\"i\":\"%s\"", tk[2], tk[3]); t_fl("p", 2*np, f); t_end();
        } else if (!strcmp(o, "get")) {             /* get k setting [input] */
            need(3);
            MyPaintBrushSetting s = sid(tk[2]);
            float v = mypaint_brush_get_base_value(b, s);
            t_open(o, k); fprintf(out, ",\"s\":\"%s\",\"v\":%ld", tk[2], bits(v));
            t_int("const", mypaint_brush_is_constant(b, s)); t_int("used", mypaint_brush_get_inputs_used_n(b, s));
            if (nt > 3) {
                MyPaintBrushInput i = mypaint_brush_input_from_cname(tk[3]);
                int np = mypaint_brush_get_mapping_n(b, s, i); float f[128];
                for (int j = 0; j < np && j < 64; j++) mypaint_brush_get_mapping_point(b, s, i, j, f + 2*j, f + 2*j + 1);
                fprintf(out, ",\"i\":\"%s\"", tk[3]); t_fl("p", 2*np, f);
            } else fputs(",\"i\":\"\",\"p\":[]", out);
            t_end();
        } else if (!strcmp(o, "defaults")) { mypaint_brush_from_defaults(b); t_open(o, k); t_end();
        } else if (!strcmp(o, "load")) {            /* load k json... ; expected contents follow as "want" lines of the script */
            const char *j = strchr(raw, ' '); j = j ? strchr(j + 1, ' ') : NULL;
            int r = mypaint_brush_from_string(b, j ? j + 1 : NULL);
            t_open(o, k); t_int("r", !!r); t_end();
        } else if (!strcmp(o, "want")) {            /* what the last document means: passed through to the trace */
            const char *j = strchr(raw, ' '); j = strchr(j + 1, ' ');
            t_open(o, k); fprintf(out, ",\"w\":%s", j + 1); t_end();
        } else if (!strcmp(o, "resetb")) { mypaint_brush_reset(b); t_open(o, k); t_end();
        } else if (!strcmp(o, "stroke")) { mypaint_brush_new_stroke(b); t_open(o, k); t_end();
        } else if (!strcmp(o, "canvas")) {          /* canvas k r g b a draws */
            need(7);
            for (int i = 0; i < 4; i++) SF[k].c[i] = fl(tk[2+i]);
            SF[k].draws = atoi(tk[6]);
            t_open(o, k); t_end();
        } else if (!strcmp(o, "bucket")) {          /* bucket k index v*9 */
            need(12);
            float f[9]; for (int i = 0; i < 9; i++) f[i] = fl(tk[3+i]);
            int r = mypaint_brush_set_smudge_bucket_state(b, atoi(tk[2]), f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]);
            t_open(o, k); t_int("i", atoi(tk[2])); t_fl("v", 9, f); t_int("r", !!r); t_state(k); t_end();
        } else if (!strcmp(o, "getbucket")) {
            need(3);
            float f[9] = {0};
            int r = mypaint_brush_get_smudge_bucket_state(b, atoi(tk[2]), f, f+1, f+2, f+3, f+4, f+5, f+6, f+7, f+8);
            t_open(o, k); t_int("i", atoi(tk[2])); t_int("r", !!r); t_fl("v", 9, f);
            t_int("mn", mypaint_brush_get_min_smudge_bucket_used(b)); t_int("mx", mypaint_brush_get_max_smudge_bucket_used(b)); t_end();
        } else if (!strcmp(o, "setst")) {           /* setst k STATE value */
            need(4);
            float v = fl(tk[3]); unsigned i;
            for (i = 0; i < NSTATES && strcmp(states[i].n, tk[2]); i++);
            if (i == NSTATES) return 2;
            mypaint_brush_set_state(b, states[i].s, v);
            t_open(o, k); fputs(",\"s\":\"", out); low(tk[2]); fprintf(out, "\",\"v\":%ld", bits(v)); t_state(k); t_end();
        } else if (!strcmp(o, "to")) {              /* to k x y p xt yt dt zoom rot barrel linear */
            need(12);
            float f[9]; for (int i = 0; i < 9; i++) f[i] = fl(tk[2+i]);
            int lin = atoi(tk[11]);
            t_open(o, k); t_fl("a", 9, f); t_int("lin", lin); t_end();
            int r = mypaint_brush_stroke_to(b, &SF[k].parent, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], lin);
            float t = mypaint_brush_get_total_stroke_painting_time(b);
            t_open("ret", k); t_int("r", !!r); fprintf(out, ",\"t\":%ld", bits(t)); t_state(k); t_end();
        } else if (!strcmp(o, "mark") || !strcmp(o, "cut")) { t_open(o, k); t_end();
        } else if (!strcmp(o, "sinfo")) {           /* sinfo 0 id: what the library publishes about a setting */
            int id = atoi(tk[2]); const MyPaintBrushSettingInfo *i = mypaint_brush_setting_info(id);
            float f[3] = { i->min, i->def, i->max };
            t_open(o, k); t_int("i", id); fprintf(out, ",\"n\":\"%s\"", i->cname); t_int("const", !!i->constant); t_fl("f", 3, f);
            t_int("text", mypaint_brush_setting_info_get_name(i) && *mypaint_brush_setting_info_get_name(i) && mypaint_brush_setting_info_get_tooltip(i)); t_end();
        } else if (!strcmp(o, "iinfo")) {
            int id = atoi(tk[2]); const MyPaintBrushInputInfo *i = mypaint_brush_input_info(id);
            float f[5] = { i->hard_min, i->soft_min, i->normal, i->soft_max, i->hard_max };
            t_open(o, k); t_int("i", id); fprintf(out, ",\"n\":\"%s\"", i->cname); t_fl("f", 5, f);
            t_int("text", mypaint_brush_input_info_get_name(i) && *mypaint_brush_input_info_get_name(i) && mypaint_brush_input_info_get_tooltip(i)); t_end();
        } else if (!strcmp(o, "sname")) { const char *nm = nt > 2 ? tk[2] : ""; t_open(o, k); fprintf(out, ",\"n\":\"%s\"", nm); t_int("i", (int)mypaint_brush_setting_from_cname(nm)); t_end();
        } else if (!strcmp(o, "iname")) { const char *nm = nt > 2 ? tk[2] : ""; t_open(o, k); fprintf(out, ",\"n\":\"%s\"", nm); t_int("i", (int)mypaint_brush_input_from_cname(nm)); t_end();
        } else if (!strcmp(o, "counts")) {
            t_open(o, k); t_int("s", MYPAINT_BRUSH_SETTINGS_COUNT); t_int("i", MYPAINT_BRUSH_INPUTS_COUNT); t_int("t", MYPAINT_BRUSH_STATES_COUNT);
            fputs(",\"st\":{", out);
            for (unsigned i = 0; i < NSTATES; i++) { fputs(i ? ",\"" : "\"", out); low(states[i].n); fprintf(out, "\":%d", (int)states[i].s); }
            fputc('}', out); t_end();
        } else { fprintf(stderr, "unknown op %s\n", o); return 2; }
        free(raw);
    }
    fclose(out);
    return 0;
}
