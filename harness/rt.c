/* Native implementation of the harness intrinsics: replays concrete inputs.
 * The symbolic executor intercepts these symbols; this file is only linked into the native binary,
 * which replays counterexamples (and sampled paths) against the really compiled code.
 * Replay file: first line = parameters, second line = inputs (decimal, space separated). */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
static uint64_t P[64], X[4096];
static int np, nx, cur, loaded;
static uint64_t notes = 0xcbf29ce484222325ULL;
static void load(void) {
    if (loaded) return;
    loaded = 1;
    const char *f = getenv("SX_REPLAY");
    if (!f) return;
    FILE *h = fopen(f, "r");
    if (!h) { fprintf(stderr, "sx: cannot open %s\n", f); exit(3); }
    static char buf[1 << 20];
    for (int line = 0; line < 2; line++) {
        if (!fgets(buf, sizeof buf, h)) break;
        char *s = buf, *e;
        for (;;) {
            unsigned long long v = strtoull(s, &e, 10);
            if (e == s) break;
            if (line == 0) P[np++] = v; else X[nx++] = v;
            s = e;
        }
    }
    fclose(h);
}
static uint64_t next(void) { load(); return cur < nx ? X[cur++] : (cur++, 0); }
uint64_t sx_u(uint32_t bits) { uint64_t v = next(); return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
uint64_t sx_range(uint64_t n) { if (n <= 1) return 0; uint64_t v = next(); if (v >= n) { printf("SX-OUT-OF-RANGE\n"); fflush(stdout); _Exit(4); } return v; }
void sx_assume(uint32_t c) { if (!c) { printf("SX-ASSUME-FALSE\n"); fflush(stdout); _Exit(4); } }
void sx_fail(uint32_t code) { printf("SX-FAIL check %u\n", code); fflush(stdout); _Exit(1); }
void sx_check(uint32_t c, uint32_t code) { if (!c) sx_fail(code); }
void sx_cover(uint32_t c, uint32_t id) { (void)c; (void)id; }
void sx_note(uint64_t v) { notes = (notes ^ v) * 0x100000001b3ULL; }
uint64_t sx_param(uint32_t i) { load(); return i < (uint32_t)np ? P[i] : 0; }
uint64_t sx_conc(uint64_t v) { return v; }
uint64_t sx_ite(uint32_t c, uint64_t a, uint64_t b) { return c ? a : b; }
uint32_t sx_is_sym(uint64_t v) { (void)v; return 0; }
void sx_end(void) { printf("SX-OK notes=%llu\n", (unsigned long long)notes); fflush(stdout); }
