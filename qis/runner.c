// Runs compiled programs: a stand-in for the QIS runtime with an exact state vector.
//
// Reads requests `run <bytes> <max paths> <tags>\n<bitcode>` from stdin; for each, loads the module with LLVM's JIT and
// calls its `qmain` once per sequence of measurement outcomes, reporting for every path its probability, how it ended
// and the calls of the runtime that a user sees.
#include <complex.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Core.h>
#include <llvm-c/ExecutionEngine.h>
#include <llvm-c/Target.h>

typedef double complex C;
#define MAXQ 16
static C *st, *tmp;
static int nq, ids[MAXQ];
static int64_t next_q;
static jmp_buf out;
static char why[256];
static int why_code;
enum { DONE = 1, PANIC, BAD, UNSUP, ZERO };

// measurement outcomes
#define MAXM 4096
static unsigned char script[MAXM], taken[MAXM], alt[MAXM];
static int script_len, pos;

// text of this path
static char *ev;
static size_t ev_len, ev_cap;
static void put(const char *f, ...) {
    va_list a;
    for (;;) {
        va_start(a, f);
        size_t n = vsnprintf(ev + ev_len, ev_cap - ev_len, f, a);
        va_end(a);
        if (ev_len + n + 1 < ev_cap) {
            ev_len += n;
            return;
        }
        ev_cap = ev_cap * 2 + n + 64;
        ev = realloc(ev, ev_cap);
    }
}
static void __attribute__((noreturn)) stop(int kind, const char *f, ...) {
    va_list a;
    va_start(a, f);
    vsnprintf(why, sizeof why, f, a);
    va_end(a);
    longjmp(out, kind);
}
static long steps;
static void tick(void) {
    if (++steps > 2000000) stop(UNSUP, "too many steps");
}

// --- state vector ---
static int find(int64_t q, const char *what) {
    tick();
    for (int i = 0; i < nq; i++)
        if (ids[i] == q) return i;
    stop(BAD, "%s of a qubit that is not allocated (%lld)", what, (long long)q);
}
static size_t dim(void) { return (size_t)1 << nq; }
static void apply1(int k, C a, C b, C c, C d) {
    size_t m = (size_t)1 << k;
    for (size_t i = 0; i < dim(); i++)
        if (!(i & m)) {
            C x = st[i], y = st[i | m];
            st[i] = a * x + b * y;
            st[i | m] = c * x + d * y;
        }
}
static double weight(int k, int v) {
    double s = 0;
    size_t m = (size_t)1 << k;
    for (size_t i = 0; i < dim(); i++)
        if (!!(i & m) == v) s += creal(st[i] * conj(st[i]));
    return s;
}
static int measure(int k) {
    double w[2] = {weight(k, 0), weight(k, 1)};
    const double eps = 1e-12;
    if (pos >= MAXM) stop(UNSUP, "too many measurements");
    int v = pos < script_len ? script[pos] : w[0] > eps ? 0 : 1;
    taken[pos] = v;
    alt[pos] = w[!v] > eps;
    pos++;
    if (w[v] <= eps) stop(ZERO, "impossible outcome");
    size_t m = (size_t)1 << k;
    for (size_t i = 0; i < dim(); i++)
        if (!!(i & m) != v) st[i] = 0;
    return v;
}
static void drop(int k, int v) {
    size_t m = (size_t)1 << k, n = 0;
    for (size_t i = 0; i < dim(); i++)
        if (!!(i & m) == v) tmp[n++] = st[i];
    memcpy(st, tmp, n * sizeof(C));
    for (int i = k; i + 1 < nq; i++) ids[i] = ids[i + 1];
    nq--;
}

// --- the runtime's functions ---
void setup(int64_t t) { (void)t; }
int64_t teardown(void) { return 0; }
int64_t ___qalloc(void) {
    tick();
    if (nq >= MAXQ) stop(UNSUP, "too many qubits");
    // a fresh qubit is in no particular state until it is reset: here |1>
    size_t n = dim();
    memcpy(st + n, st, n * sizeof(C));
    memset(st, 0, n * sizeof(C));
    ids[nq++] = next_q;
    return next_q++;
}
void ___qfree(int64_t q) {
    int k = find(q, "free");
    drop(k, measure(k));
}
void ___reset(int64_t q) {
    int k = find(q, "reset");
    if (measure(k)) apply1(k, 0, 1, 1, 0);
}
_Bool ___measure(int64_t q) { return measure(find(q, "measure")); }
void ___rz(int64_t q, double a) { apply1(find(q, "rz"), cexp(-I * a / 2), 0, 0, cexp(I * a / 2)); }
void ___rxy(int64_t q, double a, double b) {
    C c = cos(a / 2), s = -I * sin(a / 2);
    apply1(find(q, "rxy"), c, s * cexp(-I * b), s * cexp(I * b), c);
}
void ___rzz(int64_t p, int64_t q, double a) {
    int i = find(p, "rzz"), j = find(q, "rzz");
    if (i == j) stop(BAD, "rzz of one qubit");
    for (size_t x = 0; x < dim(); x++) st[x] *= cexp((((x >> i) ^ (x >> j)) & 1) ? I * a / 2 : -I * a / 2);
}
#define MAXF 65536
static int64_t fval[MAXF];
static int fref[MAXF], nf;
static int64_t future(int64_t v) {
    if (nf >= MAXF) stop(UNSUP, "too many futures");
    fval[nf] = v;
    fref[nf] = 1;
    return 1000 + nf++;
}
static int fut(int64_t f, const char *what) {
    tick();
    f -= 1000;
    if (f < 0 || f >= nf) stop(BAD, "%s of something that is not a future", what);
    if (fref[f] <= 0) stop(BAD, "%s of a future that was released", what);
    return f;
}
int64_t ___lazy_measure(int64_t q) { return future(measure(find(q, "lazy measure"))); }
int64_t ___lazy_measure_leaked(int64_t q) { return future(measure(find(q, "lazy measure"))); }
_Bool ___read_future_bool(int64_t f) { return fval[fut(f, "read")]; }
int64_t ___read_future_uint(int64_t f) { return fval[fut(f, "read")]; }
void ___inc_future_refcount(int64_t f) { fref[fut(f, "dup")]++; }
void ___dec_future_refcount(int64_t f) { fref[fut(f, "release")]--; }

#define MAXA 100000
static void *mem[MAXA];
static size_t msize[MAXA];
static char mfree[MAXA];
static int na;
void *heap_alloc(int64_t n) {
    tick();
    if (na >= MAXA || n < 0 || n > (1 << 24)) stop(UNSUP, "allocation of %lld bytes", (long long)n);
    // a red zone behind every block
    unsigned char *p = malloc(n + 64);
    memset(p, 0xA5, n + 64);
    mem[na] = p;
    msize[na] = n;
    mfree[na] = 0;
    na++;
    return p;
}
void heap_free(void *p) {
    tick();
    for (int i = na - 1; i >= 0; i--)
        if (mem[i] == p) {
            if (mfree[i]) stop(BAD, "block freed twice");
            mfree[i] = 1;
            memset(p, 0x5A, msize[i]);
            return;
        }
    stop(BAD, "free of something that is not a block");
}
static int heap_end(const char **msg) {
    int live = 0;
    *msg = 0;
    for (int i = 0; i < na; i++) {
        unsigned char *p = mem[i];
        live += !mfree[i];
        for (int j = 0; j < 64; j++)
            if (p[msize[i] + j] != 0xA5) *msg = "write behind a block";
        if (mfree[i])
            for (size_t j = 0; j < msize[i]; j++)
                if (p[j] != 0x5A) *msg = "write to a freed block";
        free(p);
    }
    na = 0;
    return live;
}

static void tag(const unsigned char *t, int64_t len, const char *fn) {
    tick();
    if (t[0] != len) stop(BAD, "tag length %d given as %lld", t[0], (long long)len);
    put("E %s %d ", fn, (int)len);
    for (int i = 0; i < len; i++) put("%02x", t[1 + i]);
}
void print_bool(unsigned char *t, int64_t l, unsigned char v) { tag(t, l, "bool"); put(" %d\n", v & 1); } // an i1: the other bits mean nothing
void print_int(unsigned char *t, int64_t l, int64_t v) { tag(t, l, "int"); put(" %lld\n", (long long)v); }
void print_uint(unsigned char *t, int64_t l, uint64_t v) { tag(t, l, "uint"); put(" %llu\n", (unsigned long long)v); }
void print_float(unsigned char *t, int64_t l, double v) { tag(t, l, "float"); uint64_t b; memcpy(&b, &v, 8); put(" %llu\n", (unsigned long long)b); }
struct arr { int32_t x, y; void *data; unsigned char *mask; } __attribute__((packed));
static void mask(struct arr *a) {
    if (a->y != 1) stop(BAD, "second dimension %d", a->y);
    if (a->x < 0 || a->x > 4096) stop(BAD, "first dimension %d", a->x);
    for (int i = 0; i < a->x; i++) if (a->mask[i]) stop(BAD, "masked element");
}
void print_bool_arr(unsigned char *t, int64_t l, struct arr *a) {
    mask(a); tag(t, l, "boolarr");
    for (int i = 0; i < a->x; i++) {
        unsigned char b = ((unsigned char *)a->data)[i];
        if (b > 1) stop(BAD, "boolean array element %d", b);
        put(" %d", b);
    }
    put("\n");
}
void print_int_arr(unsigned char *t, int64_t l, struct arr *a) { mask(a); tag(t, l, "intarr"); for (int i = 0; i < a->x; i++) put(" %lld", (long long)((int64_t *)a->data)[i]); put("\n"); }
void print_uint_arr(unsigned char *t, int64_t l, struct arr *a) { mask(a); tag(t, l, "uintarr"); for (int i = 0; i < a->x; i++) put(" %llu", (unsigned long long)((int64_t *)a->data)[i]); put("\n"); }
void print_float_arr(unsigned char *t, int64_t l, struct arr *a) { mask(a); tag(t, l, "floatarr"); for (int i = 0; i < a->x; i++) put(" %llu", (unsigned long long)((uint64_t *)a->data)[i]); put("\n"); }
// The state of the listed qubits; their order shows through the probabilities of the basis states.
void print_state_result(unsigned char *t, int64_t l, struct arr *a) {
    mask(a); tag(t, l, "state");
    int k[MAXQ];
    put(" %d", a->x);
    if (a->x > MAXQ) stop(BAD, "state of %d qubits", a->x);
    for (int i = 0; i < a->x; i++) {
        k[i] = find(((int64_t *)a->data)[i], "state");
        for (int j = 0; j < i; j++) if (k[j] == k[i]) stop(BAD, "state of one qubit twice");
    }
    put("\n");
}
void __attribute__((noreturn)) panic(int32_t code, unsigned char *m) {
    why_code = code;
    int n = m[0];
    char b[260];
    memcpy(b, m + 1, n);
    b[n] = 0;
    for (int i = 0; i < n; i++) if (b[i] == '\n') b[i] = ' ';
    stop(PANIC, "%s", b);
}
void __attribute__((noreturn)) panic_str(int32_t code, const char *m) { why_code = code; stop(PANIC, "%s", m); }

// The GPU library: functions return a digest of what they are given.
static long gpu_ops, gpu_fail;
static int64_t gpu_ctx;
#define MAXG 4096
static struct { int64_t ctx; uint64_t v; int live; } gres[MAXG];
static int ng;
static uint64_t fnv(uint64_t h, const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 0x100000001b3u;
    return h;
}
static void hex(const void *p, size_t n) {
    put(" x");
    for (size_t i = 0; i < n; i++) put("%02x", ((const unsigned char *)p)[i]);
}
static unsigned char gpu_ok(void) { tick(); return ++gpu_ops != gpu_fail; }
#define BASIS 0xcbf29ce484222325u
unsigned char gpu_validate_api(uint64_t a, uint64_t b, uint64_t c) { put("G validate %llu %llu %llu\n", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); return gpu_ok(); }
unsigned char gpu_init(uint64_t i, int64_t *o) {
    put("G init %llu\n", (unsigned long long)i);
    if (!gpu_ok()) return 0;
    gpu_ctx++;
    *o = 7000 + i;
    return 1;
}
unsigned char gpu_discard(int64_t c) { put("G discard %lld\n", (long long)c); return gpu_ok(); }
unsigned char gpu_get_function_id(const char *n, uint64_t *o) {
    put("G lookup");
    hex(n, strlen(n));
    put("\n");
    if (!gpu_ok()) return 0;
    *o = fnv(BASIS, n, strlen(n));
    return 1;
}
unsigned char gpu_call(int64_t c, uint64_t f, uint64_t n, const char *b, const char *s) {
    if (n > 100000) stop(BAD, "gpu_call with a blob of %llu bytes", (unsigned long long)n);
    put("G call %lld %llu", (long long)c, (unsigned long long)f);
    hex(b, n);
    hex(s, strlen(s));
    put("\n");
    if (!gpu_ok()) return 0;
    if (ng < MAXG) {
        uint64_t h = fnv(fnv(fnv(BASIS, &f, 8), b, n), s, strlen(s));
        if (s[0] && s[strlen(s) - 1] == 'f') {
            double d = (double)(h % 4096) / 8 - 256;
            memcpy(&h, &d, 8);
        }
        gres[ng].ctx = c; gres[ng].v = h; gres[ng++].live = !s[0] || s[strlen(s) - 1] != 'v';
    }
    return 1;
}
unsigned char gpu_get_result(int64_t c, uint64_t n, void *o) {
    put("G get %lld %llu\n", (long long)c, (unsigned long long)n);
    if (!gpu_ok()) return 0;
    for (int i = 0; i < ng; i++) {
        if (gres[i].ctx == c && gres[i].live) {
            gres[i].live = 0;
            memcpy(o, &gres[i].v, 8);
            return 1;
        }
    }
    stop(BAD, "gpu_get_result without a result");
}
const char *gpu_get_error(void) {
    put("G error\n");
    return gpu_fail % 3 == 0 ? 0 : "the library says no";
}

static uint64_t rs, rc;
static uint32_t rnd(void) {
    uint64_t x = rs * 0x9E3779B97F4A7C15u + rc * 0xD1B54A32D192ED03u + 0x632BE59BD9B4E019u;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9u;
    x ^= x >> 27; x *= 0x94D049BB133111EBu;
    x ^= x >> 31;
    rc++;
    return (uint32_t)x;
}
void random_seed(uint64_t s) { tick(); rs = s; rc = 0; }
uint32_t random_int(void) { tick(); return rnd(); }
double random_float(void) { tick(); return rnd() / 4294967296.0; }
uint32_t random_rng(uint32_t b) { tick(); uint32_t x = rnd(); return b ? x % b : 0; }
void random_advance(uint64_t d) { tick(); rc += d; }
uint64_t get_current_shot(void) { tick(); return 42; }

static void on_alarm(int s) {
    (void)s;
    static const char m[] = "TIMEOUT\nEND\n";
    if (write(1, m, sizeof m - 1)) {}
    _exit(3);
}
struct sym { const char *name; void *f; };
#define S(f) {#f, (void *)f}
static struct sym syms[] = {S(setup), S(teardown), S(___qalloc), S(___qfree), S(___reset), S(___measure), S(___rz), S(___rxy), S(___rzz), S(___lazy_measure), S(___lazy_measure_leaked), S(___read_future_bool), S(___read_future_uint), S(___inc_future_refcount), S(___dec_future_refcount), S(heap_alloc), S(heap_free), S(print_bool), S(print_int), S(print_uint), S(print_float), S(print_bool_arr), S(print_int_arr), S(print_uint_arr), S(print_float_arr), S(print_state_result), S(panic), S(panic_str), S(random_seed), S(random_int), S(random_float), S(random_rng), S(random_advance), S(get_current_shot), S(gpu_validate_api), S(gpu_init), S(gpu_discard), S(gpu_get_function_id), S(gpu_call), S(gpu_get_result), S(gpu_get_error)};

int main(void) {
    st = malloc(sizeof(C) << (MAXQ + 1));
    tmp = malloc(sizeof(C) << (MAXQ + 1));
    ev_cap = 1 << 16;
    ev = malloc(ev_cap);
    LLVMLinkInMCJIT();
    LLVMInitializeNativeTarget();
    LLVMInitializeNativeAsmPrinter();
    signal(SIGALRM, on_alarm);
    long n, max_paths;
    while (scanf("run %ld %ld %ld", &n, &max_paths, &gpu_fail) == 3) {
        getchar();
        char *b = malloc(n);
        if (fread(b, 1, n, stdin) != (size_t)n) return 2;
        LLVMContextRef ctx = LLVMContextCreate();
        LLVMMemoryBufferRef buf = LLVMCreateMemoryBufferWithMemoryRangeCopy(b, n, "m");
        LLVMModuleRef m = 0;
        LLVMExecutionEngineRef ee = 0;
        char *err = 0;
        alarm(20);
        if (LLVMParseBitcodeInContext2(ctx, buf, &m)) {
            printf("LOAD cannot parse the bitcode\n");
            goto end;
        }
        struct LLVMMCJITCompilerOptions o;
        LLVMInitializeMCJITCompilerOptions(&o, sizeof o);
        o.OptLevel = 0;
        // a symbol that the runtime does not have would end this process
        for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) {
            size_t l;
            const char *nm = LLVMGetValueName2(f, &l);
            if (!LLVMIsDeclaration(f) || !strncmp(nm, "llvm.", 5)) continue;
            int ok = !strcmp(nm, "pow") || !strcmp(nm, "malloc") || !strcmp(nm, "free") || !strcmp(nm, "memcpy") || !strcmp(nm, "memset");
            for (size_t i = 0; i < sizeof syms / sizeof *syms; i++) ok |= !strcmp(nm, syms[i].name);
            if (!ok) {
                printf("LOAD unknown function %s\n", nm);
                goto end;
            }
        }
        // MCJIT knows no thread-local variables; there is one thread
        for (LLVMValueRef g = LLVMGetFirstGlobal(m); g; g = LLVMGetNextGlobal(g)) LLVMSetThreadLocal(g, 0);
        if (LLVMCreateMCJITCompilerForModule(&ee, m, &o, sizeof o, &err)) {
            printf("LOAD %s\n", err);
            goto end;
        }
        for (size_t i = 0; i < sizeof syms / sizeof *syms; i++) {
            LLVMValueRef f = LLVMGetNamedFunction(m, syms[i].name);
            if (f) LLVMAddGlobalMapping(ee, f, syms[i].f);
        }
        uint64_t addr = LLVMGetFunctionAddress(ee, "qmain");
        if (!addr) {
            printf("LOAD no qmain\n");
            goto end;
        }
        script_len = 0;
        volatile long paths = 0;
        for (;;) {
            nq = 0; next_q = 100; st[0] = 1; pos = 0; ev_len = 0; ev[0] = 0; steps = 0; nf = 0; na = 0; rs = rc = 0; gpu_ops = gpu_ctx = ng = 0; why[0] = 0; why_code = 0;
            int k = setjmp(out);
            if (!k) {
                int64_t r = ((int64_t (*)(int64_t))addr)(7);
                (void)r;
                k = DONE;
            }
            double w = 0;
            for (size_t i = 0; i < dim(); i++) w += creal(st[i] * conj(st[i]));
            int lostq = nq, lostf = 0;
            for (int i = 0; i < nf; i++) lostf += fref[i] != 0;
            const char *hm;
            int lostm = heap_end(&hm);
            if (hm && k != UNSUP) {
                k = BAD;
                snprintf(why, sizeof why, "%s", hm);
            }
            if (k != ZERO) printf("P %.17g %d %d %d %d %d %s\n%s", w, k, why_code, lostq, lostf, lostm, why, ev);
            if (k == UNSUP || k == BAD) break;
            if (++paths > max_paths) {
                printf("P 0 %d 0 0 0 0 too many paths\n", UNSUP);
                break;
            }
            int i = pos - 1;
            while (i >= 0 && !(taken[i] == 0 && alt[i])) i--;
            if (i < 0) break;
            memcpy(script, taken, i);
            script[i] = 1;
            script_len = i + 1;
        }
    end:
        alarm(0);
        if (ee) LLVMDisposeExecutionEngine(ee);
        else if (m) LLVMDisposeModule(m);
        LLVMContextDispose(ctx);
        free(b);
        printf("END\n");
        fflush(stdout);
    }
    return 0;
}
