// The table through which the harness drives one copy of the program under test.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct NodeApi {
    void *(*create)(int argc, char **argv);
    int (*run)(void);
    void (*destroy)(void);
    void *(*eval)(const char *src);              // value or error
    void (*drop)(void *o);
    void *(*clone)(void *o);
    unsigned (*rc)(void *o);
    int (*type)(void *o);
    long long (*len)(void *o);
    char *(*fmt)(void *o);                       // malloc'd
    char *(*canon)(void *o, long long limit, unsigned long long *hash);  // malloc'd canonical text, hash over everything
    void *(*ser)(void *o);
    void *(*de)(void *bytes);
    void *(*bytes)(const void *p, long long n);  // byte vector
    void *(*i64v)(const long long *p, long long n);
    const unsigned char *(*raw)(void *o);
    long long (*intern)(const char *s, long long n);
    const char *(*symstr)(long long id);
    long long (*symcount)(void);
    void (*pool_prepare)(void);
    void (*pool_add)(void *fn, void *a, void *b, void *c);
    void *(*pool_run)(void);
    void (*pool_map)(long long n, void *fn, void *ctx);
    long long (*pool_executors)(void);
    void *(*mk_i64)(long long v);
    void *(*mk_err)(void);
    void *(*list_at)(void *l, long long i);      // borrowed
    long long (*atom_i64)(void *o);
    void *(*halloc)(long long n);
    void (*hfree)(void *p);
    void *(*hrealloc)(void *p, long long n);
    long long (*hgc)(void);
    void (*memstat)(long long *sys, long long *heap, long long *fre);
    int (*rc_sync)(void);
    long long (*split_by)(long long n);
    long long (*selectors_live)(void);           // registered poll selectors
    void (*bind)(const char *name, void *o);     // global name := value (takes ownership)
    void (*runtime_adopt)(void);                 // nothing; placeholder
    char *(*canon_deep)(void *o, long long limit, unsigned long long *hash);  // the same, of what mapped, enumerated and parted columns stand for
    int (*app_main)(int argc, char **argv);      // the whole program, front end included
} NodeApi;
#ifdef __cplusplus
}
#endif
