/* Drives MyPaintTiledSurface implementations through the public API only. */
#include "drv.h"
#include <pthread.h>
#include <time.h>
#include "mypaint-tiled-surface.h"
#include "mypaint-fixed-tiled-surface.h"
#ifdef VARIANT_GEGL
#include <gegl.h>
#include "gegl/mypaint-gegl-surface.h"
#endif
#define TS MYPAINT_TILE_SIZE
#define TN (TS*TS*4)
#define NS 4

typedef struct Tile { int tx, ty; uint16_t *d, *ro, *snap; int snapped; struct Tile *next; } Tile;
typedef struct {
    MyPaintTiledSurface parent;     /* kind 0: the driver's own tile store */
    Tile *h[4096];
    int destroyed, id, slow;
    int nfail; int fx[64], fy[64], fm[64];   /* tiles whose requests fail; mode 1 rw, 2 ro, 3 both */
    long seq;
} Store;

static struct { int kind; Store *st; MyPaintFixedTiledSurface *fx; void *gg; MyPaintSurface *sf; int w, h; } S[NS];
static int cur;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static long *rq; static int nrq, caprq;
static unsigned rnd_state = 12345;

static void rlog(int ev, int tx, int ty, int s) {
    if (nrq + 4 > caprq) { caprq = caprq ? caprq*2 : 1024; rq = realloc(rq, caprq*sizeof(long)); }
    rq[nrq++] = ev; rq[nrq++] = tx; rq[nrq++] = ty; rq[nrq++] = s;
}
static void t_rq(void) {
    fputs(",\"rq\":[", out);
    for (int i = 0; i < nrq; i += 4) fprintf(out, "%s[%ld,%ld,%ld,%ld]", i ? "," : "", rq[i], rq[i+1], rq[i+2], rq[i+3]);
    fputs("]", out);
}
static unsigned hsh(int x, int y) { return ((unsigned)x*73856093u ^ (unsigned)y*19349663u) & 4095; }
static Tile *tile(Store *s, int tx, int ty, int create) {
    Tile **p = &s->h[hsh(tx,ty)];
    for (Tile *t = *p; t; t = t->next) if (t->tx == tx && t->ty == ty) return t;
    if (!create) return NULL;
    Tile *t = calloc(1, sizeof *t); t->tx = tx; t->ty = ty; t->d = calloc(TN, 2); t->next = *p; *p = t; return t;
}
static int failing(Store *s, int tx, int ty, int ro) {
    for (int i = 0; i < s->nfail; i++) if (s->fx[i] == tx && s->fy[i] == ty && (s->fm[i] & (ro ? 2 : 1))) return 1;
    return 0;
}
static void jitter(Store *s) {
    if (!s->slow) return;
    pthread_mutex_lock(&mx); rnd_state = rnd_state*1103515245u+12345u; unsigned v = rnd_state >> 16; pthread_mutex_unlock(&mx);
    if (v & 1) { struct timespec t = {0, (long)(v % 200) * 1000}; nanosleep(&t, NULL); }
}
static void st_start(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
    Store *s = (Store *)ts;
    jitter(s);
    pthread_mutex_lock(&mx);
    if (failing(s, r->tx, r->ty, r->readonly)) {
        rlog(r->readonly ? 5 : 4, r->tx, r->ty, s->id);
        r->buffer = NULL; r->context = NULL;
    } else {
        rlog(r->readonly ? 2 : 1, r->tx, r->ty, s->id);
        Tile *t = tile(s, r->tx, r->ty, 1);
        r->buffer = t->d; r->context = t;
        if (r->readonly) { if (!t->ro) t->ro = malloc(TN*2); memcpy(t->ro, t->d, TN*2); }
    }
    pthread_mutex_unlock(&mx);
    jitter(s);
}
static void st_end(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
    Store *s = (Store *)ts;
    pthread_mutex_lock(&mx);
    Tile *t = tile(s, r->tx, r->ty, 0);
    int bad = 0;
    if (r->context == NULL && r->buffer == NULL) rlog(6, r->tx, r->ty, s->id);     /* end of a failed request */
    else {
        if (!t || r->context != t || r->buffer != t->d) bad = 1;
        if (!bad && r->readonly && memcmp(t->ro, t->d, TN*2)) bad = 1;             /* wrote to a read-only tile */
        rlog(bad ? 9 : 3, r->tx, r->ty, s->id);
    }
    pthread_mutex_unlock(&mx);
}
static void st_destroy(MyPaintSurface *sf) {
    Store *s = (Store *)sf;
    s->destroyed++;
    mypaint_tiled_surface_destroy(&s->parent);
}
static void store_free(Store *s) {
    for (int i = 0; i < 4096; i++) for (Tile *t = s->h[i], *n; t; t = n) { n = t->next; free(t->d); free(t->ro); free(t->snap); free(t); }
    free(s);
}
static void get_px(int k, int x, int y, long *o) {
    int tx = (int)floor((double)x/TS), ty = (int)floor((double)y/TS); int off = ((y - ty*TS)*TS + (x - tx*TS))*4;
    if (S[k].kind == 0) {
        Tile *t = tile(S[k].st, tx, ty, 0);
        for (int i = 0; i < 4; i++) o[i] = t ? t->d[off+i] : 0;
        return;
    }
#ifdef VARIANT_GEGL
    if (S[k].kind == 2) {
        GeglBuffer *b = mypaint_gegl_tiled_surface_get_buffer(S[k].gg);
        const Babl *f = babl_format_new(babl_model("R'aG'aB'aA"), babl_type("u15"), babl_component("R'a"), babl_component("G'a"), babl_component("B'a"), babl_component("A"), NULL);
        GeglRectangle rr = {x, y, 1, 1}; uint16_t v[4];
        gegl_buffer_get(b, &rr, 1.0, f, v, GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE);
        for (int i = 0; i < 4; i++) o[i] = v[i];
        return;
    }
#endif
    MyPaintTileRequest r; mypaint_tile_request_init(&r, 0, tx, ty, TRUE);
    mypaint_tiled_surface_tile_request_start((MyPaintTiledSurface *)S[k].sf, &r);
    for (int i = 0; i < 4; i++) o[i] = r.buffer[off+i];
    mypaint_tiled_surface_tile_request_end((MyPaintTiledSurface *)S[k].sf, &r);
}
static void set_px(int k, int x, int y, const long *v) {
    int tx = (int)floor((double)x/TS), ty = (int)floor((double)y/TS); int off = ((y - ty*TS)*TS + (x - tx*TS))*4;
    if (S[k].kind == 0) { Tile *t = tile(S[k].st, tx, ty, 1); for (int i = 0; i < 4; i++) t->d[off+i] = v[i]; return; }
    MyPaintTileRequest r; mypaint_tile_request_init(&r, 0, tx, ty, FALSE);
    mypaint_tiled_surface_tile_request_start((MyPaintTiledSurface *)S[k].sf, &r);
    for (int i = 0; i < 4; i++) r.buffer[off+i] = v[i];
    mypaint_tiled_surface_tile_request_end((MyPaintTiledSurface *)S[k].sf, &r);
}
static void fill_tile(int k, int tx, int ty, const long *v) {
    if (S[k].kind == 0) { Tile *t = tile(S[k].st, tx, ty, 1); for (int i = 0; i < TN; i++) t->d[i] = v[i & 3]; return; }
    MyPaintTileRequest r; mypaint_tile_request_init(&r, 0, tx, ty, FALSE);
    mypaint_tiled_surface_tile_request_start((MyPaintTiledSurface *)S[k].sf, &r);
    for (int i = 0; i < TN; i++) r.buffer[i] = v[i & 3];
    mypaint_tiled_surface_tile_request_end((MyPaintTiledSurface *)S[k].sf, &r);
}
static void snapshot(int k) {
    if (S[k].kind) return;
    for (int i = 0; i < 4096; i++) for (Tile *t = S[k].st->h[i]; t; t = t->next) {
        if (!t->snap) t->snap = malloc(TN*2);
        memcpy(t->snap, t->d, TN*2); t->snapped = 1;
    }
}
/* pixels that differ from the snapshot, and how many of those no rectangle covers */
static void diff(int k, MyPaintRectangles *R, long o[6]) {
    long chg = 0, unc = 0, x0 = 1<<30, y0 = 1<<30, x1 = -(1<<30), y1 = -(1<<30);
    if (S[k].kind == 0)
    for (int i = 0; i < 4096; i++) for (Tile *t = S[k].st->h[i]; t; t = t->next)
        for (int p = 0; p < TS*TS; p++) {
            uint16_t z[4] = {0,0,0,0}, *b = t->snapped ? t->snap + p*4 : z, *d = t->d + p*4;
            if (!memcmp(b, d, 8)) continue;
            long x = (long)t->tx*TS + p % TS, y = (long)t->ty*TS + p / TS; int in = 0;
            chg++;
            for (int j = 0; R && j < R->num_rectangles && !in; j++) {
                MyPaintRectangle *r = R->rectangles + j;
                in = x >= r->x && y >= r->y && x < (long)r->x + r->width && y < (long)r->y + r->height;
            }
            if (!in) unc++;
            if (x < x0) x0 = x; if (x > x1) x1 = x; if (y < y0) y0 = y; if (y > y1) y1 = y;
        }
    o[0] = chg; o[1] = unc; o[2] = x0; o[3] = y0; o[4] = x1; o[5] = y1;
}
/* number of pixels of the whole store that break 0 <= r,g,b <= a <= 2^15 */
static long invalid(int k) {
    long n = 0;
    if (S[k].kind == 0)
    for (int i = 0; i < 4096; i++) for (Tile *t = S[k].st->h[i]; t; t = t->next)
        for (int p = 0; p < TS*TS; p++) { uint16_t *d = t->d + p*4; if (d[3] > 32768 || d[0] > d[3] || d[1] > d[3] || d[2] > d[3]) n++; }
    return n;
}
static void free_all(void) {
    for (int k = 0; k < NS; k++) if (S[k].sf) {
        mypaint_surface_unref(S[k].sf);
        if (S[k].kind == 0) store_free(S[k].st);
        memset(&S[k], 0, sizeof S[k]);
    }
}
#define F(i,k) ((float)((double)a[i]/(k)))
int main(int argc, char **argv) {
    /* the library writes warnings on stdout: keep the trace apart */
    out = fdopen(3, "w"); if (!out) { fprintf(stderr, "no fd 3\n"); return 2; }
    if (argc > 1) rnd_state = atoi(argv[1]);
#ifdef VARIANT_GEGL
    gegl_init(NULL, NULL);
#endif
    static long v[65536];
    while (next_op()) {
        nrq = 0;
        if (!strcmp(op, "reset")) { free_all(); cur = 0; t_begin(); t_end(); continue; }
        if (!strcmp(op, "new")) {           /* idx kind w h threadsafe slow */
            cur = a[0];
            S[cur].kind = a[1]; S[cur].w = a[2]; S[cur].h = a[3];
            if (a[1] == 0) {
                Store *s = calloc(1, sizeof *s); s->id = cur; s->slow = a[5];
                mypaint_tiled_surface_init(&s->parent, st_start, st_end);
                s->parent.parent.destroy = st_destroy;
                s->parent.threadsafe_tile_requests = a[4];
                S[cur].st = s; S[cur].sf = (MyPaintSurface *)s;
            } else if (a[1] == 1) {
                S[cur].fx = mypaint_fixed_tiled_surface_new(a[2], a[3]);
                S[cur].sf = mypaint_fixed_tiled_surface_interface(S[cur].fx);
            }
#ifdef VARIANT_GEGL
            else { S[cur].gg = mypaint_gegl_tiled_surface_new(); S[cur].sf = mypaint_gegl_tiled_surface_interface(S[cur].gg); }
#endif
            t_begin(); t_end(); continue;
        }
        /* every other operation names its surface first */
        cur = a[0];
        MyPaintSurface *sf = S[cur].sf;
        if (!strcmp(op, "fill")) { fill_tile(cur, a[1], a[2], a+3); t_begin(); t_end(); }
        else if (!strcmp(op, "clear")) {        /* fixed surface: the whole buffer */
            int nx = (S[cur].w + TS-1)/TS, ny = (S[cur].h + TS-1)/TS; long z[4] = {a[1],a[2],a[3],a[4]};
            for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) fill_tile(cur, x, y, z);
            t_begin(); t_end(); }
        else if (!strcmp(op, "set")) { set_px(cur, a[1], a[2], a+3); t_begin(); t_end(); }
        else if (!strcmp(op, "probes") || !strcmp(op, "discs")) { t_begin(); t_end(); }     /* pixels and discs the specification tracks */
        else if (!strcmp(op, "begin")) { snapshot(cur); mypaint_surface_begin_atomic(sf); t_begin(); t_rq(); t_end(); }
        else if (!strcmp(op, "dab")) {
            int r = mypaint_surface_draw_dab(sf, F(1,8), F(2,8), F(3,8), F(4,32768), F(5,32768), F(6,32768),
                F(8,32768), F(9,32768), F(10,32768), F(7,32768), F(11,16), F(12,8), F(13,32768), F(14,32768), F(15,32768), F(16,100), F(17,32768));
            t_begin(); t_int("r", !!r); t_rq(); t_end();
        }
        else if (!strcmp(op, "pick")) {     /* x8 y8 r8 paint32768 */
            float c[4] = {-1,-1,-1,-1};
            mypaint_surface_get_color(sf, F(1,8), F(2,8), F(3,8), c, c+1, c+2, c+3, F(4,32768));
            for (int i = 0; i < 4; i++) v[i] = sc(c[i], 32768);
            t_begin(); t_ints("c", 4, v); t_rq(); t_end();
        }
        else if (!strcmp(op, "alpha")) {
            float c = mypaint_surface_get_alpha(sf, F(1,8), F(2,8), F(3,8));
            t_begin(); t_int("c", sc(c, 32768)); t_rq(); t_end();
        }
        else if (!strcmp(op, "end")) {      /* idx cap  x y x y ... : capacity (-1: no rectangles wanted), then pixels to report */
            MyPaintRectangle rr[300]; MyPaintRectangles R = {a[1], rr};
            for (int i = 0; i < 300; i++) { rr[i].x = 7777; rr[i].y = -7777; rr[i].width = 3; rr[i].height = 5; }
            mypaint_surface_end_atomic(sf, a[1] >= 0 ? &R : NULL);
            int n = a[1] >= 0 ? R.num_rectangles : 0;
            long d[6]; diff(cur, a[1] >= 0 ? &R : NULL, d);
            if (n > 300) n = 300; if (n < 0) n = 0;
            int wrote = 0;      /* entries past the reported count must be untouched */
            for (int i = n; i < 300; i++) if (rr[i].x != 7777 || rr[i].y != -7777 || rr[i].width != 3 || rr[i].height != 5) wrote++;
            int np = (na-2)/2; long px[4]; 
            t_begin(); t_int("n", a[1] >= 0 ? R.num_rectangles : 0); t_int("wrote", wrote);
            fputs(",\"rects\":[", out);
            for (int i = 0; i < n; i++) fprintf(out, "%s[%d,%d,%d,%d]", i ? "," : "", rr[i].x, rr[i].y, rr[i].width, rr[i].height);
            fputs("],\"px\":[", out);
            for (int i = 0; i < np; i++) { get_px(cur, a[2+2*i], a[3+2*i], px); fprintf(out, "%s[%ld,%ld,%ld,%ld]", i ? "," : "", px[0], px[1], px[2], px[3]); }
            fputs("]", out); t_ints("diff", 6, d); t_int("inv", invalid(cur)); t_rq(); t_end();
        }
        else if (!strcmp(op, "peek")) {     /* idx x y x y ... */
            int np = (na-1)/2; long px[4];
            t_begin(); fputs(",\"px\":[", out);
            for (int i = 0; i < np; i++) { get_px(cur, a[1+2*i], a[2+2*i], px); fprintf(out, "%s[%ld,%ld,%ld,%ld]", i ? "," : "", px[0], px[1], px[2], px[3]); }
            fputs("]", out); t_end();
        }
        else if (!strcmp(op, "row")) {      /* idx x y n : alpha of n pixels in a row */
            long px[4]; for (int i = 0; i < a[3]; i++) { get_px(cur, a[1]+i, a[2], px); v[i] = px[3]; }
            t_begin(); t_ints("al", a[3], v); t_end();
        }
        else if (!strcmp(op, "sym")) {      /* idx active cx8 cy8 angle8 type lines */
            mypaint_tiled_surface_set_symmetry_state((MyPaintTiledSurface *)sf, a[1], F(2,8), F(3,8), F(4,8), a[5], a[6]);
            t_begin(); t_end();
        }
        else if (!strcmp(op, "fail")) {     /* idx tx ty mode (0 clears) */
            Store *s = S[cur].st; int i;
            for (i = 0; i < s->nfail; i++) if (s->fx[i] == a[1] && s->fy[i] == a[2]) break;
            if (i == s->nfail && i < 63) s->nfail++;
            s->fx[i] = a[1]; s->fy[i] = a[2]; s->fm[i] = a[3];
            t_begin(); t_end();
        }
        else if (!strcmp(op, "ref")) { mypaint_surface_ref(sf); t_begin(); t_int("d", S[cur].kind ? 0 : S[cur].st->destroyed); t_end(); }
        else if (!strcmp(op, "unref")) {    /* releases one reference; reports destructor calls */
            int kind = S[cur].kind; Store *s = S[cur].st; int gone = a[1];   /* a[1]: the script says it is the last one */
            mypaint_surface_unref(sf);
            t_begin(); t_int("d", kind ? 0 : s->destroyed); t_rq(); t_end();
            if (gone) { if (kind == 0) store_free(s); memset(&S[cur], 0, sizeof S[cur]); }
        }
        else { fprintf(stderr, "unknown op %s\n", op); return 2; }
    }
    free_all();
    fclose(out);
    return 0;
}
