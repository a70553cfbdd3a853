/* Recording implementation of the part of the UCIS C API that pyucis binds, with the prototypes of the standard.
 * Every call is logged as one line "name|arg|arg..": handles as #<sequence number>, strings in hex ("-" for NULL). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

typedef struct { void *filehandle; int line; int token; } SrcInfo;
typedef union { uint64_t int64; uint32_t int32; unsigned char *bytevector; } DataValue;
typedef struct { uint64_t type; int flags; DataValue data; int goal, weight, limit, bitlen; } CoverData;
typedef struct { unsigned int teststatus; double simtime; char *timeunit; char *runcwd; double cputime; char *seed, *cmd, *args;
    int compulsory; char *date, *username; double cost; char *toolcategory; } TestData;

typedef enum { DB, SCOPE, HIST, FILEH, ITER } Kind;
typedef struct Obj {
    Kind kind; int id; struct Obj *db, *parent; char *name; uint64_t type; int hkind;
    SrcInfo src; TestData td; int ncovers;
    struct Obj **list; int n, pos, freed;
    char pad[64];
} Obj;

static Obj **objs; static int nobjs, nids;
static char *logb; static size_t logn, logcap;
static int errors, fail_next; static char errmsg[256];
static void (*errcb)(void *, void *);

static void put(const char *f, ...) {
    va_list a; va_start(a, f); int n = vsnprintf(NULL, 0, f, a); va_end(a);
    if (logn + n + 1 > logcap) { logcap = (logn + n + 1) * 2 + 4096; logb = realloc(logb, logcap); }
    va_start(a, f); vsnprintf(logb + logn, n + 1, f, a); va_end(a); logn += n;
}
static void err(const char *m) { if (!errors++) snprintf(errmsg, sizeof errmsg, "%s", m); }
static void puts_hex(const char *s) {
    if (!s) { put("|-"); return; }
    put("|x"); for (; *s; s++) put("%02x", (unsigned char)*s);
}
static Obj *known(void *p) { for (int i = 0; i < nobjs; i++) if (objs[i] == p) return objs[i]; return NULL; }
static Obj *H(void *p) {
    if (!p) { put("|0"); return NULL; }
    Obj *o = known(p);
    if (!o) { put("|BADHANDLE"); err("unknown handle"); return NULL; }
    put("|#%d", o->id); return o;
}
static Obj *mk(Kind k, Obj *db, Obj *parent, const char *name) {
    Obj *o = calloc(1, sizeof *o); o->kind = k; o->db = db; o->parent = parent; o->name = name ? strdup(name) : NULL;
    objs = realloc(objs, (nobjs + 1) * sizeof *objs); objs[nobjs++] = o; o->id = k == ITER ? -nobjs : ++nids; return o;
}
static void src(void *p, SrcInfo *keep) {
    SrcInfo *s = p;
    if (!s) { put("|-"); return; }
    put("|("); H(s->filehandle); put("|%d|%d)", s->line, s->token);
    if (keep) *keep = *s;
}
static char *dup0(const char *s) { return s ? strdup(s) : NULL; }

const char *mock_log(void) { put("%s", ""); return logb; }
int mock_errors(void) { return errors; }
const char *mock_errmsg(void) { return errmsg; }
void mock_fail_next(void) { fail_next = 1; }
int mock_has_handler(void) { return errcb != NULL; }
int mock_iters(int what) { /* 0 live and exhausted, 1 live, 2 all */
    int n = 0;
    for (int i = 0; i < nobjs; i++) if (objs[i]->kind == ITER) {
        if (what == 2 || (!objs[i]->freed && (what == 1 || objs[i]->pos > objs[i]->n))) n++;
    }
    return n;
}
static int failing(void) { if (fail_next) { fail_next = 0; return 1; } return 0; }

void *ucis_Open(const char *file) { put("Open"); puts_hex(file); put("\n"); return failing() ? NULL : mk(DB, NULL, NULL, file); }
int ucis_Write(void *db, const char *file, void *scope, int recurse, uint64_t covertype) {
    put("Write"); H(db); puts_hex(file); H(scope); put("|%d|%llx\n", recurse, (unsigned long long)covertype); return failing() ? -1 : 0; }
int ucis_Close(void *db) { put("Close"); H(db); put("\n"); return failing() ? -1 : 0; }
void *ucis_CreateHistoryNode(void *db, void *parent, char *l, char *p, int kind) {
    put("CreateHistoryNode"); Obj *d = H(db), *q = H(parent); puts_hex(l); puts_hex(p); put("|%d\n", kind);
    if (failing()) return NULL;
    Obj *o = mk(HIST, d, q, l); o->hkind = kind; return o; }
void *ucis_CreateScope(void *db, void *parent, const char *name, void *si, int weight, int source, uint64_t type, unsigned int flags) {
    put("CreateScope"); Obj *d = H(db), *q = H(parent); puts_hex(name); SrcInfo k = {0}; src(si, &k);
    put("|%d|%d|%llx|%x\n", weight, source, (unsigned long long)type, flags);
    if (failing()) return NULL;
    Obj *o = mk(SCOPE, d, q, name); o->type = type; o->src = k; return o; }
void *ucis_CreateInstance(void *db, void *parent, const char *name, void *si, int weight, int source, uint64_t type, void *du, int flags) {
    put("CreateInstance"); Obj *d = H(db), *q = H(parent); puts_hex(name); SrcInfo k = {0}; src(si, &k);
    put("|%d|%d|%llx", weight, source, (unsigned long long)type); H(du); put("|%x\n", (unsigned)flags);
    if (failing()) return NULL;
    Obj *o = mk(SCOPE, d, q, name); o->type = type; o->src = k; return o; }
void *ucis_CreateCross(void *db, void *parent, const char *name, void *si, int weight, int source, int n, void **pts) {
    put("CreateCross"); Obj *d = H(db), *q = H(parent); puts_hex(name); SrcInfo k = {0}; src(si, &k);
    put("|%d|%d|%d", weight, source, n); for (int i = 0; i < n; i++) H(pts[i]); put("\n");
    if (failing()) return NULL;
    Obj *o = mk(SCOPE, d, q, name); o->type = 0x8000; o->src = k; return o; }
void *ucis_CreateToggle(void *db, void *parent, const char *name, const char *canon, unsigned int flags, int metric, int type, int dir) {
    put("CreateToggle"); Obj *d = H(db), *q = H(parent); puts_hex(name); puts_hex(canon); put("|%x|%d|%d|%d\n", flags, metric, type, dir);
    if (failing()) return NULL;
    Obj *o = mk(SCOPE, d, q, name); o->type = 1; return o; }
int ucis_CreateNextCover(void *db, void *parent, const char *name, void *data, void *si) {
    put("CreateNextCover"); H(db); Obj *q = H(parent); puts_hex(name); CoverData *c = data;
    put("|%llx|%x", (unsigned long long)c->type, (unsigned)c->flags);
    if (c->flags & 1) put("|w%u", c->data.int32);
    else if (c->flags & 2) put("|d%llu", (unsigned long long)c->data.int64);
    else { put("|v"); for (int i = 0; i * 8 < c->bitlen; i++) put("%02x", c->data.bytevector[i]); }
    put("|%d|%d|%d|%d", c->goal, c->weight, c->limit, c->bitlen); src(si, NULL); put("\n");
    return q && !failing() ? q->ncovers++ : -1; }
void ucis_SetIntProperty(void *db, void *obj, int ix, int prop, int v) {
    put("SetIntProperty"); H(db); H(obj); put("|%d|%d|%d\n", ix, prop, v); }
void ucis_SetStringProperty(void *db, void *obj, int ix, int prop, const char *v) {
    put("SetStringProperty"); H(db); H(obj); put("|%d|%d", ix, prop); puts_hex(v); put("\n"); }
void *ucis_CreateFileHandle(void *db, const char *f, const char *wd) {
    put("CreateFileHandle"); Obj *d = H(db); puts_hex(f); puts_hex(wd); put("\n"); return failing() ? NULL : mk(FILEH, d, NULL, f); }
void ucis_RegisterErrorHandler(void (*cb)(void *, void *), void *ud) { errcb = cb; }
int ucis_SetTestData(void *db, void *h, void *p) {
    TestData *t = p; put("SetTestData"); H(db); Obj *o = H(h);
    put("|%u|%a", t->teststatus, t->simtime); puts_hex(t->timeunit); puts_hex(t->runcwd); put("|%a", t->cputime);
    puts_hex(t->seed); puts_hex(t->cmd); puts_hex(t->args); put("|%d", t->compulsory); puts_hex(t->date); puts_hex(t->username);
    put("|%a", t->cost); puts_hex(t->toolcategory); put("\n");
    if (failing()) return -1;
    if (o) { o->td = *t; TestData *k = &o->td;
        char **f[] = {&k->timeunit, &k->runcwd, &k->seed, &k->cmd, &k->args, &k->date, &k->username, &k->toolcategory};
        for (int i = 0; i < 8; i++) *f[i] = dup0(*f[i]); }
    return 0; }
int ucis_GetTestData(void *db, void *h, void *p) {
    Obj *o = known(h); if (!o || o->kind != HIST || o->db != db) { err("GetTestData on a foreign handle"); return -1; }
    if (failing()) return -1;
    *(TestData *)p = o->td; return 0; }
static void *iterate(void *db, void *of, Kind k, uint64_t mask) {
    Obj *d = known(db), *q = of ? known(of) : NULL;
    if (!d || d->kind != DB || (of && (!q || q->kind != k || q->db != d))) { err("iteration over a foreign handle"); return NULL; }
    Obj *it = mk(ITER, d, q, NULL);
    for (int i = 0; i < nobjs; i++) { Obj *o = objs[i];
        if (o->kind != k || o->db != d) continue;
        if (k == SCOPE && (o->parent != q || !(o->type & mask))) continue;
        if (k == HIST && ((q && o->parent != q) || ((int32_t)mask != 0 && o->hkind != (int32_t)mask))) continue;
        it->list = realloc(it->list, (it->n + 1) * sizeof(Obj *)); it->list[it->n++] = o; }
    it->hkind = k; return it; }
static void *scan(void *db, void *iter, Kind k) {
    Obj *it = known(iter);
    if (!it || it->kind != ITER || it->hkind != (int)k || it->db != db) { err("scan with a foreign handle"); return NULL; }
    if (it->freed) { err("scan of a released iterator"); return NULL; }
    if (it->pos > it->n) { err("scan of an exhausted iterator"); return NULL; }
    if (it->pos == it->n) { it->pos++; return NULL; }
    return it->list[it->pos++]; }
void *ucis_HistoryIterate(void *db, void *h, int32_t kind) { return iterate(db, h, HIST, (uint64_t)(int64_t)kind); }
void *ucis_HistoryScan(void *db, void *it) { return scan(db, it, HIST); }
void *ucis_ScopeIterate(void *db, void *s, uint64_t mask) { return iterate(db, s, SCOPE, mask); }
void *ucis_ScopeScan(void *db, void *it) { return scan(db, it, SCOPE); }
void ucis_FreeIterator(void *db, void *iter) {
    Obj *it = known(iter);
    if (!it || it->kind != ITER || it->db != db) { err("release of a foreign handle"); return; }
    if (it->freed) err("iterator released twice");
    it->freed = 1; }
int ucis_GetScopeSourceInfo(void *db, void *s, void *p) {
    Obj *o = known(s); if (!o || o->kind != SCOPE || o->db != db) { err("GetScopeSourceInfo on a foreign handle"); return -1; }
    *(SrcInfo *)p = o->src; return 0; }
const char *ucis_GetFileName(void *db, void *fh) {
    Obj *o = known(fh); if (!fh) return NULL; if (!o || o->kind != FILEH || o->db != db) { err("GetFileName on a foreign handle"); return NULL; }
    return o->name; }
int mock_id(void *p) { Obj *o = known(p); return o ? o->id : -1; }
