// Native replay of one recorded input: no symbolic machinery involved.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <csignal>
#include <unistd.h>
#include <typeinfo>
#include <string>
#include <vector>
#include <gmp.h>
static std::vector<uint64_t> vals;
static size_t pos = 0;
static uint64_t nextv(const char* name)
{
    uint64_t v = pos < vals.size() ? vals[pos] : 0;
    ++pos;
    (void) name;
    return v;
}
static double tod(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
extern "C" {
int64_t sym_int(const char* n, int64_t lo, int64_t hi)
{
    int64_t v = (int64_t) nextv(n);
    if (v < lo || v > hi) v = lo <= 0 && hi >= 0 ? 0 : lo;
    printf("  input %s = %lld\n", n, (long long) v);
    return v;
}
double sym_grid(const char* n, double lo, double hi, int k)
{
    double s = 1;
    for (int i = 0; i < k; ++i) s *= 2;
    int64_t l = (int64_t) (lo * s), h = (int64_t) (hi * s);
    int64_t v = (int64_t) nextv(n);
    if (v < l || v > h) v = l <= 0 && h >= 0 ? 0 : l;
    double d = v / s;
    printf("  input %s = %.17g\n", n, d);
    return d;
}
double sym_double(const char* n)
{
    double d = tod(nextv(n));
    printf("  input %s = %.17g (%a)\n", n, d, d);
    return d;
}
float sym_float(const char* n)
{
    uint32_t u = (uint32_t) nextv(n);
    float f;
    memcpy(&f, &u, 4);
    printf("  input %s = %.9g (%a)\n", n, f, f);
    return f;
}
bool sym_bool(const char* n)
{
    bool v = nextv(n) & 1;
    printf("  input %s = %d\n", n, v);
    return v;
}
int64_t sym_choice(const char* n, int64_t lo, int64_t hi) { return sym_int(n, lo, hi); }
void sym_assume(bool c)
{
    if (!c) {
        printf("REPLAY assumption-not-met\n");
        fflush(stdout);
        _exit(0);
    }
}
void sym_assert(bool c, const char* l)
{
    if (!c) {
        printf("REPLAY assertion-failed %s\n", l);
        fflush(stdout);
        _exit(1);
    }
}
void sym_assert_kf(bool c, const char* l, bool in, const char* kf)
{
    if (!c) {
        printf("REPLAY assertion-failed %s%s%s\n", l, in ? " KF:" : "", in ? kf : "");
        fflush(stdout);
        _exit(in ? 4 : 1);
    }
}
void sym_reach(const char*) {}
void symq_policy(int, int, int) {}
void symq_var(mpq_ptr out, const char* name, int nonzero)
{
    size_t i = pos;
    uint64_t v = nextv(name);
    if (!(v & 0xffffffffu)) {
        static const int pr[] = {101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 313, 317, 331, 337, 347, 349, 353, 359, 367, 373, 379, 383, 389, 397, 401, 409, 419, 421, 431, 433, 439, 443, 449, 457, 461, 463, 467, 479, 487, 491, 499, 503, 509, 521, 523, 541, 547, 557, 563, 569, 571};
        size_t n = sizeof pr / sizeof *pr;
        long x = pr[(i * 37 + 11) % n] + (long) (i / n) * 600;
        mpq_set_si(out, i % 3 == 1 ? -x : x, i % 5 == 3 ? 2 : 1);
    } else {
        mpq_set_si(out, (int32_t) (v >> 32), (uint32_t) v);
    }
    mpq_canonicalize(out);
    if (nonzero && mpq_sgn(out) == 0) sym_assume(false);
    gmp_printf("  input %s = %Qd\n", name, out);
}
void symq_assert_eq_kf(mpq_srcptr a, mpq_srcptr b, const char* label, bool in, const char* kf)
{
    if (mpq_equal(a, b)) return;
    gmp_printf("REPLAY %Qd != %Qd\n", a, b);
    sym_assert_kf(false, label, in, kf);
}
void symq_assert_eq(mpq_srcptr a, mpq_srcptr b, const char* label) { symq_assert_eq_kf(a, b, label, false, ""); }
int64_t sym_concrete(int64_t v) { return v; }
double sym_concrete_d(double v) { return v; }
void sym_stop() {}
int sym_tier() { const char* e = getenv("SYM_TIER"); return e ? atoi(e) : 0; }
}
static void onsig(int s)
{
    char b[64];
    int n = snprintf(b, sizeof b, "REPLAY crash signal %d\n", s);
    (void) !write(1, b, n);
    _exit(1);
}
int main(int argc, char** argv)
{
    if (argc < 2) return 3;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 3;
    char line[512];
    while (fgets(line, sizeof line, f)) {
        unsigned long long v;
        if (line[0] == '#') continue;
        if (sscanf(line, "%llx", &v) == 1) vals.push_back(v);
    }
    fclose(f);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onsig);
    signal(SIGALRM, [](int) {
        (void) !write(1, "REPLAY hang\n", 12);
        _exit(1);
    });
    sym_setup();
    alarm(20);
    try {
        sym_main();
    } catch (std::exception& e) {
        printf("REPLAY uncaught %s: %s\n", typeid(e).name(), e.what());
        return 1;
    } catch (...) {
        printf("REPLAY uncaught exception\n");
        return 1;
    }
    printf("REPLAY ok\n");
    return 0;
}
