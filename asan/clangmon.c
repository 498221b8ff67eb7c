/* LD_PRELOAD monitor of the libclang interface: every index, translation unit, diagnostic, token array and owned
   string handed out is given back exactly once, and nothing is used after it was given back. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <clang-c/Index.h>

enum { INDEX, TU, DIAG, TOKENS, STRING, KINDS };
static const char *kind_name[KINDS] = { "index", "translation unit", "diagnostic", "token array", "string" };

typedef struct { const void *p; int kind; const void *owner; } Slot;
static Slot *slots;
static size_t cap, used;
static long made[KINDS], gone[KINDS], uses;
static char errors[16][160];
static int n_errors;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static void *real(const char *name) {
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "clangmon: no %s\n", name); abort(); }
    return p;
}
#define REAL(name) static __typeof__(&name) r; if (!r) r = (__typeof__(&name))real(#name)

static void complain(const char *what, int kind) {
    if (n_errors < 16) snprintf(errors[n_errors], sizeof errors[0], "%s %s", kind_name[kind], what);
    n_errors++;
}
static Slot *find(const void *p, int kind) {
    for (size_t i = used; i-- > 0;) if (slots[i].p == p && slots[i].kind == kind) return &slots[i];
    return NULL;
}
static void born(const void *p, int kind, const void *owner) {
    if (!p) return;
    pthread_mutex_lock(&mu);
    made[kind]++;
    if (used == cap) { cap = cap ? cap * 2 : 1024; slots = realloc(slots, cap * sizeof *slots); }
    slots[used++] = (Slot){ p, kind, owner };
    pthread_mutex_unlock(&mu);
}
static void died(const void *p, int kind) {
    if (!p) return;
    pthread_mutex_lock(&mu);
    Slot *s = find(p, kind);
    if (!s) complain("given back that is not held (twice, or never handed out)", kind);
    else { gone[kind]++; *s = slots[--used]; }
    if (kind == INDEX) for (size_t i = 0; i < used; i++) if (slots[i].kind == TU && slots[i].owner == p) complain("outlives its index", TU);
    if (kind == TU) for (size_t i = 0; i < used; i++) if (slots[i].owner == p && slots[i].kind == TOKENS) complain("outlives its translation unit", TOKENS);
    pthread_mutex_unlock(&mu);
}
static void touch(const void *p, int kind) {
    if (!p) return;
    pthread_mutex_lock(&mu);
    uses++;
    if (!find(p, kind)) complain("used after it was given back", kind);
    pthread_mutex_unlock(&mu);
}

/* for the harness */
int clangmon_live(long out[KINDS]) {
    pthread_mutex_lock(&mu);
    for (int k = 0; k < KINDS; k++) out[k] = made[k] - gone[k];
    int n = n_errors;
    pthread_mutex_unlock(&mu);
    return n;
}
void clangmon_totals(long out[KINDS + 1]) { for (int k = 0; k < KINDS; k++) out[k] = made[k]; out[KINDS] = uses; }
const char *clangmon_error(int i) { return i < 16 ? errors[i] : "more"; }
const char *clangmon_kind(int k) { return kind_name[k]; }
void clangmon_forget(void) { pthread_mutex_lock(&mu); used = 0; n_errors = 0; for (int k = 0; k < KINDS; k++) gone[k] = made[k]; pthread_mutex_unlock(&mu); }

CXIndex clang_createIndex(int a, int b) { REAL(clang_createIndex); CXIndex i = r(a, b); born(i, INDEX, NULL); return i; }
void clang_disposeIndex(CXIndex i) { REAL(clang_disposeIndex); died(i, INDEX); r(i); }

enum CXErrorCode clang_parseTranslationUnit2(CXIndex ix, const char *f, const char *const *a, int n, struct CXUnsavedFile *u, unsigned nu, unsigned o, CXTranslationUnit *out) {
    REAL(clang_parseTranslationUnit2);
    touch(ix, INDEX);
    enum CXErrorCode c = r(ix, f, a, n, u, nu, o, out);
    if (out && *out) born(*out, TU, ix);
    return c;
}
CXTranslationUnit clang_parseTranslationUnit(CXIndex ix, const char *f, const char *const *a, int n, struct CXUnsavedFile *u, unsigned nu, unsigned o) {
    REAL(clang_parseTranslationUnit);
    touch(ix, INDEX);
    CXTranslationUnit t = r(ix, f, a, n, u, nu, o);
    born(t, TU, ix);
    return t;
}
void clang_disposeTranslationUnit(CXTranslationUnit t) { REAL(clang_disposeTranslationUnit); died(t, TU); r(t); }
CXCursor clang_getTranslationUnitCursor(CXTranslationUnit t) { REAL(clang_getTranslationUnitCursor); touch(t, TU); return r(t); }

unsigned clang_visitChildren(CXCursor c, CXCursorVisitor v, CXClientData d) { REAL(clang_visitChildren); if (!clang_Cursor_isNull(c) && !clang_isInvalid(clang_getCursorKind(c))) touch(c.data[2], TU); return r(c, v, d); }

unsigned clang_getNumDiagnostics(CXTranslationUnit t) { REAL(clang_getNumDiagnostics); touch(t, TU); return r(t); }
CXDiagnostic clang_getDiagnostic(CXTranslationUnit t, unsigned i) { REAL(clang_getDiagnostic); touch(t, TU); CXDiagnostic d = r(t, i); born(d, DIAG, t); return d; }
void clang_disposeDiagnostic(CXDiagnostic d) { REAL(clang_disposeDiagnostic); died(d, DIAG); r(d); }

void clang_tokenize(CXTranslationUnit t, CXSourceRange g, CXToken **out, unsigned *n) {
    REAL(clang_tokenize);
    touch(t, TU);
    r(t, g, out, n);
    if (out && *out) born(*out, TOKENS, t);
}
void clang_disposeTokens(CXTranslationUnit t, CXToken *k, unsigned n) { REAL(clang_disposeTokens); touch(t, TU); died(k, TOKENS); r(t, k, n); }

/* CXString: bits 1 of private_flags says the characters belong to the caller */
static CXString owned(CXString s) { if (s.private_flags == 1) born(s.data, STRING, NULL); return s; }
void clang_disposeString(CXString s) { REAL(clang_disposeString); if (s.private_flags == 1) died(s.data, STRING); r(s); }
const char *clang_getCString(CXString s) { REAL(clang_getCString); if (s.private_flags == 1) touch(s.data, STRING); return r(s); }
#define STR1(name, T) CXString name(T a) { REAL(name); return owned(r(a)); }
CXString clang_getCursorSpelling(CXCursor c) { REAL(clang_getCursorSpelling); if (!clang_Cursor_isNull(c) && !clang_isInvalid(clang_getCursorKind(c))) touch(c.data[2], TU); return owned(r(c)); }
CXString clang_getTokenSpelling(CXTranslationUnit t, CXToken k) { REAL(clang_getTokenSpelling); touch(t, TU); return owned(r(t, k)); }
STR1(clang_getTypeSpelling, CXType)
STR1(clang_getCursorDisplayName, CXCursor)
STR1(clang_getCursorUSR, CXCursor)
STR1(clang_getFileName, CXFile)
STR1(clang_getDiagnosticSpelling, CXDiagnostic)
STR1(clang_getDiagnosticCategoryText, CXDiagnostic)
STR1(clang_getCursorKindSpelling, enum CXCursorKind)
STR1(clang_getTypeKindSpelling, enum CXTypeKind)
CXString clang_getDiagnosticFixIt(CXDiagnostic d, unsigned i, CXSourceRange *g) { REAL(clang_getDiagnosticFixIt); touch(d, DIAG); return owned(r(d, i, g)); }
CXString clang_formatDiagnostic(CXDiagnostic d, unsigned o) { REAL(clang_formatDiagnostic); touch(d, DIAG); return owned(r(d, o)); }
