// Compiled once with each copy of the program; talks to its public functions only.
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include "rayforce.h"
#include "runtime.h"
#include "symbols.h"
#include "heap.h"
#include "pool.h"
#include "eval.h"
#include "format.h"
#include "serde.h"
#include "error.h"
#include "env.h"
#include "poll.h"
#include "binary.h"
#include "items.h"
#include "shim.h"

i32_t main(i32_t argc, str_p argv[]);

// ---------------------------------------------------------------- heap observation
void simc_on_alloc(void *p, long long n, int where);
void simc_on_free(void *p);
void simc_on_realloc(void *p, void *q, long long n);
raw_p __real_heap_alloc(i64_t);
nil_t __real_heap_free(raw_p);
raw_p __real_heap_realloc(raw_p, i64_t);
raw_p __wrap_heap_alloc(i64_t n) {
    raw_p p = __real_heap_alloc(n);
    if (p) simc_on_alloc(p, n, 0);
    return p;
}
nil_t __wrap_heap_free(raw_p p) {
    if (p != NULL && p != (raw_p)NULL_OBJ) simc_on_free(p);
    __real_heap_free(p);
}
raw_p __wrap_heap_realloc(raw_p p, i64_t n) {
    raw_p q;
    simc_on_realloc(p, NULL, 0);
    q = __real_heap_realloc(p, n);
    simc_on_realloc(p, q, n);
    return q;
}
// ---------------------------------------------------------------- canonical text
typedef struct { char *b; long long n, cap, lim; unsigned long long h; } out_t;
static void o_put(out_t *o, const char *s, long long n) {
    for (long long i = 0; i < n; i++) o->h = (o->h ^ (unsigned char)s[i]) * 0x100000001B3ull;
    o->h ^= o->h >> 29;
    if (o->n >= o->lim) return;
    if (n > o->lim - o->n) n = o->lim - o->n;
    if (o->n + n + 1 > o->cap) { o->cap = (o->n + n + 1) * 2; o->b = (char *)realloc(o->b, o->cap); }
    memcpy(o->b + o->n, s, n);
    o->n += n;
    o->b[o->n] = 0;
}
static void o_fmt(out_t *o, const char *f, ...) __attribute__((format(printf, 2, 3)));
int simc_hvsnprintf(char *b, unsigned long n, const char *f, va_list ap);
static void o_fmt(out_t *o, const char *f, ...) {
    char b[200];
    va_list ap;
    va_start(ap, f);
    int n = simc_hvsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    o_put(o, b, n);
}
static void o_sym(out_t *o, i64_t id) {
    if (id == NULL_I64) { o_put(o, "0Ns", 3); return; }
    str_p s = str_from_symbol(id);
    if (!s) { o_put(o, "`<bad>", 6); return; }
    o_put(o, "`", 1);
    o_put(o, s, symbol_strlen(id));
}
static void o_f64(out_t *o, f64_t v) {
    if (v != v) { o_put(o, "0Nf", 3); return; }
    if (v == 0) v = 0;
    o_fmt(o, "%.12g", v);
}
static int canon_deep;
static void canon(out_t *o, obj_p x, int d) {
    i64_t i, n;
    if (d > 40) { o_put(o, "<deep>", 6); return; }
    if (x == NULL) { o_put(o, "<NULLPTR>", 9); return; }
    if (is_null(x)) { o_put(o, "null", 4); return; }
    i8_t t = x->type;
    switch (t) {
        case -TYPE_B8: o_fmt(o, "%db", x->b8); return;
        case -TYPE_U8: o_fmt(o, "%dx", x->u8); return;
        case -TYPE_I16: o_fmt(o, "%dh", x->i16); return;
        case -TYPE_I32: o_fmt(o, "%di", x->i32); return;
        case -TYPE_I64: o_fmt(o, "%lld", x->i64); return;
        case -TYPE_DATE: o_fmt(o, "%dd", x->i32); return;
        case -TYPE_TIME: o_fmt(o, "%dt", x->i32); return;
        case -TYPE_TIMESTAMP: o_fmt(o, "%lldp", x->i64); return;
        case -TYPE_F64: o_f64(o, x->f64); o_put(o, "f", 1); return;
        case -TYPE_C8: o_fmt(o, "'%c'", x->c8); return;
        case -TYPE_SYMBOL: o_sym(o, x->i64); return;
        case -TYPE_GUID: o_put(o, "g", 1); for (i = 0; i < 16; i++) o_fmt(o, "%02x", AS_U8(x)[i]); return;
        case TYPE_ERR: o_put(o, "ERR", 3); return;
    }
    if (t == TYPE_TABLE || t == TYPE_DICT) {
        o_put(o, t == TYPE_TABLE ? "T{" : "D{", 2);
        canon(o, AS_LIST(x)[0], d + 1);
        o_put(o, "!", 1);
        canon(o, AS_LIST(x)[1], d + 1);
        o_put(o, "}", 1);
        return;
    }
    if (t >= 0 && t <= TYPE_C8) {
        n = x->len;
        o_fmt(o, "%d#%lld[", t, n);
        for (i = 0; i < n; i++) {
            if (i && t != TYPE_C8) o_put(o, " ", 1);
            switch (t) {
                case TYPE_LIST: canon(o, AS_LIST(x)[i], d + 1); break;
                case TYPE_B8: o_put(o, AS_B8(x)[i] ? "1" : "0", 1); break;
                case TYPE_U8: o_fmt(o, "%d", AS_U8(x)[i]); break;
                case TYPE_I16: o_fmt(o, "%d", AS_I16(x)[i]); break;
                case TYPE_I32: case TYPE_DATE: case TYPE_TIME: o_fmt(o, "%d", AS_I32(x)[i]); break;
                case TYPE_I64: case TYPE_TIMESTAMP: o_fmt(o, "%lld", AS_I64(x)[i]); break;
                case TYPE_SYMBOL: o_sym(o, AS_I64(x)[i]); break;
                case TYPE_F64: o_f64(o, AS_F64(x)[i]); break;
                case TYPE_GUID: for (int k = 0; k < 16; k++) o_fmt(o, "%02x", AS_GUID(x)[i][k]); break;
                case TYPE_C8: o_put(o, AS_C8(x) + i, 1); break;
            }
        }
        o_put(o, "]", 1);
        return;
    }
    // columns kept elsewhere or in parts: what they stand for
    if (canon_deep && t == TYPE_MAPCOMMON) {
        obj_p v = AS_LIST(x)[0], c = AS_LIST(x)[1];
        long long j, k = 0;
        for (i = 0; i < c->len; i++) k += AS_I64(c)[i];
        o_fmt(o, "%d#%lld[", v->type, k);
        for (i = 0, k = 0; i < c->len; i++)
            for (j = 0; j < AS_I64(c)[i]; j++, k++) {
                if (k) o_put(o, " ", 1);
                if (v->type == TYPE_DATE || v->type == TYPE_I32 || v->type == TYPE_TIME) o_fmt(o, "%d", AS_I32(v)[i]);
                else o_fmt(o, "%lld", AS_I64(v)[i]);
            }
        o_put(o, "]", 1);
        return;
    }
    if (canon_deep && (t == TYPE_ENUM || t == TYPE_MAPLIST || (t >= TYPE_PARTEDLIST && t <= TYPE_PARTEDENUM))) {
        obj_p v = ray_value(x);
        if (v && v->type == t) o_fmt(o, "<%d>", t);
        else canon(o, v, d + 1);
        if (v) drop_obj(v);
        return;
    }
    // everything else (enums, parted and lazy columns, lambdas): the program's own rendering
    {
        obj_p f = obj_fmt(x, 2);
        o_fmt(o, "<%d ", t);
        if (f && f->type == TYPE_C8) o_put(o, AS_C8(f), f->len);
        o_put(o, ">", 1);
        drop_obj(f);
    }
}
static char *s_canon_raw(void *x, long long lim, unsigned long long *h) {
    out_t o = {NULL, 0, 0, lim, 0xcbf29ce484222325ull};
    o.b = (char *)malloc(64);
    o.b[0] = 0;
    o.cap = 64;
    canon(&o, (obj_p)x, 0);
    if (h) *h = o.h;
    return o.b;
}
static char *s_canon(void *x, long long lim, unsigned long long *h) { canon_deep = 0; return s_canon_raw(x, lim, h); }
static char *s_canon_deep(void *x, long long lim, unsigned long long *h) { canon_deep = 1; char *r = s_canon_raw(x, lim, h); canon_deep = 0; return r; }
// ---------------------------------------------------------------- table
static void *s_create(int argc, char **argv) { return runtime_create(argc, argv); }
static int s_run(void) { return runtime_run(); }
static void s_destroy(void) { runtime_destroy(); }
static void *s_eval(const char *s) {
    obj_p r, str = string_from_str(s, strlen(s));
    obj_p nm = string_from_str("sim", 4);
    r = ray_eval_str(str, nm);
    drop_obj(str);
    drop_obj(nm);
    return r;
}
static void s_drop(void *o) { drop_obj((obj_p)o); }
static void *s_clone(void *o) { return clone_obj((obj_p)o); }
static unsigned s_rc(void *o) { return rc_obj((obj_p)o); }
static int s_type(void *o) { return ((obj_p)o)->type; }
static long long s_len(void *o) { return ((obj_p)o)->len; }
static char *s_fmt(void *o) {
    obj_p f = obj_fmt((obj_p)o, 2);
    char *r = (char *)malloc(f->len + 1);
    memcpy(r, AS_C8(f), f->len);
    r[f->len] = 0;
    drop_obj(f);
    return r;
}
static void *s_ser(void *o) { return ser_obj((obj_p)o); }
static void *s_de(void *o) { return de_obj((obj_p)o); }
static void *s_bytes(const void *p, long long n) { obj_p v = U8(n); memcpy(AS_U8(v), p, n); return v; }
static void *s_i64v(const long long *p, long long n) { obj_p v = I64(n); memcpy(AS_I64(v), p, n * 8); return v; }
static const unsigned char *s_raw(void *o) { return AS_U8((obj_p)o); }
static long long s_intern(const char *s, long long n) { return symbols_intern(s, n); }
static const char *s_symstr(long long id) { return str_from_symbol(id); }
static long long s_symcount(void) { return symbols_count(runtime_get()->symbols); }
static void s_pool_prepare(void) { pool_prepare(pool_get()); }
static void s_pool_add(void *fn, void *a, void *b, void *c) { pool_add_task(pool_get(), fn, 3, a, b, c); }
static void *s_pool_run(void) { return pool_run(pool_get()); }
static void s_pool_map(long long n, void *fn, void *ctx) { pool_map(n, (pool_map_fn)fn, ctx); }
static long long s_pool_executors(void) { return pool_get_executors_count(pool_get()); }
static void *s_mk_i64(long long v) { return i64(v); }
static void *s_mk_err(void) { return err_domain(0, 0); }
static void *s_list_at(void *l, long long i) { return AS_LIST((obj_p)l)[i]; }
static long long s_atom(void *o) { return ((obj_p)o)->i64; }
static void *s_halloc(long long n) { return heap_alloc(n); }
static void s_hfree(void *p) { heap_free(p); }
static void *s_hrealloc(void *p, long long n) { return heap_realloc(p, n); }
static long long s_hgc(void) { return heap_gc(); }
static void s_memstat(long long *a, long long *b, long long *c) {
    memstat_t m = heap_memstat();
    *a = m.system; *b = m.heap; *c = m.free;
}
static int s_rc_sync(void) { return (int)rc_sync_get(); }
static long long s_split_by(long long n) { return pool_split_by(pool_get(), n, 0); }
static long long s_sel(void) {
    long long c = 0;
    poll_p p = runtime_get()->poll;
    if (!p) return 0;
    for (i64_t i = 0; i < p->selectors->data_pos; i++) if (p->selectors->data[i] != NULL_I64) c++;
    return c;
}
static void s_bind(const char *name, void *o) {
    obj_p s = symbol(name, strlen(name)), r = binary_set(s, (obj_p)o);
    drop_obj(r);
    drop_obj(s);
    drop_obj((obj_p)o);
}
static void s_nop(void) {}
static int s_main(int argc, char **argv) { return main(argc, argv); }
NodeApi shim_api = {s_create, s_run, s_destroy, s_eval, s_drop, s_clone, s_rc, s_type, s_len, s_fmt, s_canon, s_ser, s_de, s_bytes, s_i64v, s_raw,
    s_intern, s_symstr, s_symcount, s_pool_prepare, s_pool_add, s_pool_run, s_pool_map, s_pool_executors, s_mk_i64, s_mk_err, s_list_at, s_atom,
    s_halloc, s_hfree, s_hrealloc, s_hgc, s_memstat, s_rc_sync, s_split_by, s_sel, s_bind, s_nop, s_canon_deep, s_main};
