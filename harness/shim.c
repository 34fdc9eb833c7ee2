/* Native side of the harness intrinsics: inputs come from a value file, checks
 * and observations are reported on stdout.  Used to replay solver models against
 * the compiled code. */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct ent { char k; uint32_t tag; uint64_t v; int used; };
static struct ent *tab;
static int ntab = -1;

static void load(void) {
    const char *p = getenv("V_VALUES");
    ntab = 0;
    if (!p) return;
    FILE *f = fopen(p, "r");
    if (!f) { printf("NOVALUES\n"); fflush(stdout); _Exit(45); }
    int cap = 0;
    char k; unsigned tag; unsigned long long v;
    while (fscanf(f, " %c %u %llx", &k, &tag, &v) == 3) {
        if (ntab == cap) { cap = cap ? 2 * cap : 64; tab = realloc(tab, cap * sizeof *tab); }
        tab[ntab++] = (struct ent){k, tag, v, 0};
    }
    fclose(f);
}

static int next(char k, uint32_t tag, uint64_t *v) {
    if (ntab < 0) load();
    for (int i = 0; i < ntab; i++)
        if (!tab[i].used && tab[i].k == k && tab[i].tag == tag) {
            tab[i].used = 1;
            *v = tab[i].v;
            return 1;
        }
    return 0;
}

double v_f64(uint32_t tag, double lo, double hi) {
    uint64_t b;
    if (next('f', tag, &b)) { double d; memcpy(&d, &b, 8); return d; }
    if (lo <= 0.5 && 0.5 <= hi) return 0.5;
    if (lo > -1e300 && hi < 1e300) return (lo + hi) / 2;
    return lo > -1e300 ? lo : hi;
}
uint64_t v_u64(uint32_t tag, uint64_t lo, uint64_t hi) {
    uint64_t b;
    (void)hi;
    return next('u', tag, &b) ? b : lo;
}
uint32_t v_choice(uint32_t tag, uint32_t n) {
    uint64_t b;
    (void)n;
    return next('c', tag, &b) ? (uint32_t)b : 0;
}
void v_assume(_Bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(43); } }
/* V_TAGS=",1,5,": only these checks count */
static int counts(uint32_t tag) {
    const char *p = getenv("V_TAGS");
    char b[24];
    if (!p) return 1;
    snprintf(b, sizeof b, ",%u,", tag);
    return strstr(p, b) != 0;
}
void v_check(uint32_t tag, _Bool c) { if (!c && counts(tag)) { printf("FAIL %u\n", tag); fflush(stdout); _Exit(42); } }
void v_close(uint32_t tag, double a, double b, double tol, double scale) {
    if (!(fabs(a - b) <= tol * scale) && counts(tag)) {
        printf("FAIL %u %.17g %.17g %.17g\n", tag, a, b, tol * scale);
        fflush(stdout);
        _Exit(42);
    }
}
void v_obs(uint32_t tag, double x) {
    uint64_t b;
    memcpy(&b, &x, 8);
    printf("O %u f %016llx\n", tag, (unsigned long long)b);
}
void v_obsi(uint32_t tag, uint64_t x) { printf("O %u i %016llx\n", tag, (unsigned long long)x); }
void v_reach(uint32_t tag) { printf("R %u\n", tag); }
void v_stop(void) { printf("STOP\n"); fflush(stdout); _Exit(44); }
