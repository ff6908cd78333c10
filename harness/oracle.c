/* Executable oracles for the properties (-DPROP=<number>): decodes a byte string into a call (or a
 * history of calls) of the real library, compares the outcome with an independent reference and aborts
 * with a description when they differ.  Memory outside the objects handed over is poisoned (ASan). */
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef BIG
#include <sanitizer/asan_interface.h>
#endif

#include "base64.h"
#include "bit_manipulation.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "utils.h"
#include "crypto/caesar_cipher.h"
#include "crypto/chacha20.h"
#include "crypto/vernam_cipher.h"
#include "sort/bubble_sort.h"
#include "sort/heap_sort.h"
#include "sort/insertion_sort.h"
#include "sort/selection_sort.h"
#include "crc_all.inc"

static char story[1 << 16];
static size_t story_n;

static void tell(const char *f, ...) {
    va_list a;
    va_start(a, f);
    if (story_n + 400 < sizeof story) {
        int n = vsnprintf(story + story_n, 390, f, a);
        story_n += n < 390 ? (size_t)n : 389;
    }
    va_end(a);
}

static void hexs(const char *what, const void *p, size_t n) {
    tell("%s[%zu]=", what, n);
    for (size_t i = 0; i < n && i < 100; ++i) {
        tell("%02x", ((const unsigned char *)p)[i]);
    }
    tell("%s ", n > 100 ? "..." : "");
}

#define FAIL(...) do { fprintf(stderr, "FAILING INPUT: %s\n", story); fprintf(stderr, "WRONG OUTCOME: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(stderr); abort(); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

/* ---- input */
static const uint8_t *in_p;
static size_t in_n;
static uint64_t rng;

static uint32_t in_used, in_flip = ~0u;
static uint8_t in_mask;

static uint8_t nx(void) {
    uint8_t m = in_used++ == in_flip ? in_mask : 0;
    if (in_n) {
        --in_n;
        return *in_p++ ^ m;
    }
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;   /* the input is continued by a generator seeded by it */
    return (uint8_t)(rng >> 56) ^ m;
}

static uint32_t n32(void) { uint32_t a = nx(); a |= (uint32_t)nx() << 8; a |= (uint32_t)nx() << 16; return a | (uint32_t)nx() << 24; }
static uint32_t below(uint32_t n) { return n <= 256 ? nx() % n : n32() % n; }

/* base - dn .. base + up, not below 0 */
static size_t around(size_t base, int dn, int up) { size_t r = base + nx() % (dn + up + 1); return r > (size_t)dn ? r - (size_t)dn : 0; }

static uint32_t special32(void) {
    static const uint32_t v[] = {0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 255, 256, 65535, 65536, 0xffff0000u, 0x55555555, 0xaaaaaaaau};
    uint8_t k = nx();
    if (k < 140) return n32();
    if (k < 200) return v[nx() % (sizeof v / sizeof *v)];
    if (k < 230) return 1u << (nx() & 31);
    return nx();
}

static uint32_t length(void) {
    uint8_t k = nx();
    if (k < 150) return nx() % 20;
    if (k < 220) return nx() % 80;
    if (k < 245) return 120 + n32() % 300;
    if (k < 252) return n32() % 5000;
    return (nx() & 1 ? 65530 : 32760) + nx() % 20;
}

/* ---- memory */
#define MAXA 4000
static struct { unsigned char *base; size_t n, off; } objs[MAXA], pool[MAXA];
static int nobj, npool;   /* pool: objects of earlier rounds, handed out again for the same size */

static void *galloc(size_t n) {
    size_t off = 16;
    unsigned char *b = NULL;
    for (int i = 0; i < npool && b == NULL; ++i) {
        if (pool[i].base && pool[i].n == n) {
            b = pool[i].base;
            pool[i].base = NULL;
#ifndef BIG
            ASAN_UNPOISON_MEMORY_REGION(b, off + n + 16);
#endif
        }
    }
    if (b == NULL) b = malloc(off + n + 16);
    if (b == NULL || nobj >= MAXA) {
        exit(0);
    }
    memset(b, 0xA5, off + n + 16);
    objs[nobj].base = b;
    objs[nobj].n = n;
    objs[nobj++].off = off;
#ifndef BIG
    ASAN_POISON_MEMORY_REGION(b, off);
    ASAN_POISON_MEMORY_REGION(b + off + n, 16);
#endif
    return b + off;
}

/* same, at an odd alignment (front guarded by its contents) */
static void *galloc_at(size_t n, size_t mis) {
    unsigned char *p = galloc(n + mis);
    return p + mis;
}

static void release(void) {
    for (int i = 0; i < npool; ++i) {
        if (pool[i].base == NULL) continue;
#ifndef BIG
        ASAN_UNPOISON_MEMORY_REGION(pool[i].base, pool[i].off + pool[i].n + 16);
#endif
        free(pool[i].base);
    }
    npool = 0;
    for (int i = 0; i < nobj; ++i) {
#ifndef BIG
        ASAN_UNPOISON_MEMORY_REGION(objs[i].base, objs[i].off + objs[i].n + 16);
#endif
        free(objs[i].base);
    }
    nobj = 0;
}

static void *bytes(size_t n) {
    unsigned char *p = galloc(n);
    uint8_t mode = nx() % 4;
    for (size_t i = 0; i < n; ++i) {
        p[i] = mode == 0 ? (unsigned char)(nx() & 1) : mode == 1 && i > 0 ? (nx() < 200 ? p[i - 1] : nx()) : nx();
    }
    return p;
}

static void *dup(const void *s, size_t n) {
    void *p = galloc(n);
    if (n) memcpy(p, s, n);
    return p;
}

/* a null-terminated string of length n */
static char *text(size_t n, int kind) {
    static const char odd[] = "azAZ@[`{mMnN\"},:\\ \t/+=09\x01\x7f\x80\xff\xc1\xe1\xda\xfa";
    char *p = galloc(n + 1);
    for (size_t i = 0; i < n; ++i) {
        uint8_t c = nx();
        switch (kind) {
            case 0: c = c ? c : 1; break;
            case 1: c = (uint8_t)odd[c % (sizeof odd - 1)]; break;
            case 2: c = (uint8_t)((c & 1 ? 'a' : 'A') + (c >> 1) % 26); break;
            default: c = (uint8_t)("ab\" :,}{"[c % 8]); break;
        }
        p[i] = (char)c;
    }
    p[n] = 0;
    return p;
}

/* ==================================================================== Base64 */
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static size_t ref_b64(const uint8_t *d, size_t n, char *o) {
    size_t k = 0;
    for (size_t i = 0; i < n; i += 3) {
        uint32_t v = (uint32_t)d[i] << 16 | (i + 1 < n ? (uint32_t)d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
        o[k++] = B64[v >> 18];
        o[k++] = B64[v >> 12 & 63];
        o[k++] = i + 1 < n ? B64[v >> 6 & 63] : '=';
        o[k++] = i + 2 < n ? B64[v & 63] : '=';
    }
    o[k] = 0;
    return k;
}

#if PROP == 1
static void run(void) {
    size_t n = length();
    uint8_t *d = bytes(n);
    size_t L = 4 * ((n + 2) / 3), cap;
    uint8_t k = nx();
    cap = k < 100 ? L + 1 : k < 200 ? around(L, 6, 6) : below((uint32_t)L + 8);
    char *r = galloc(cap);
    char *e = malloc(L + 1);
    ref_b64(d, n, e);
    uint8_t *d0 = dup(d, n);
    hexs("Base64_encode data", d, n);
    tell("capacity %zu ", cap);
    int32_t s = Base64_encode((const char *)d, n, r, cap);
    CHECK((s == 0) == (cap >= L + 1), "status %d, %zu bytes needed", s, L + 1);
    if (s == 0) CHECK(memcmp(r, e, L + 1) == 0, "text is %.*s, expected %s", (int)L + 1, r, e);
    CHECK(memcmp(d, d0, n) == 0, "input changed");
    free(e);
}
#elif PROP == 2
static void run(void) {
    size_t n = length();
    uint8_t *d = bytes(n);
    size_t L = 4 * ((n + 2) / 3);
    char *e = malloc(L + 1);
    ref_b64(d, n, e);
    size_t tl = L;
    uint8_t k = nx();
    if (k & 1) while (tl > 0 && e[tl - 1] == '=') --tl;
    char *t = dup(e, tl);
    free(e);
    size_t cap = k < 140 ? n : k < 200 ? n + nx() % 4 : around(n, 3, 0);
    uint8_t *o = galloc(cap);
    hexs("Base64_decode text", t, tl);
    tell("= \"%.*s\" capacity %zu ", tl > 90 ? 90 : (int)tl, t, cap);
    int32_t s = Base64_decode(t, tl, o, cap);
    if (n == 0) {
        CHECK(s != 0, "empty input accepted");
    } else if (cap < n) {
        CHECK(s != 0, "status 0 although %zu bytes are needed", n);
    } else {
        CHECK(s == 0, "status %d", s);
        for (size_t i = 0; i < n; ++i) CHECK(o[i] == d[i], "byte %zu is %02x, expected %02x", i, o[i], d[i]);
    }
}
#elif PROP == 3
static void run(void) {
    size_t n = length();
    char *t = bytes(n);
    uint8_t k = nx();
    if (k & 1) for (size_t i = 0; i < n; ++i) t[i] = B64[(uint8_t)t[i] & 63];
    for (size_t i = 0; i < (k >> 1 & 3) && i < n; ++i) t[n - 1 - i] = '=';
    size_t cap = k & 8 ? around(n * 3 / 4, 2, 2) : below((uint32_t)n + 5);
    if (cap > n + 5) cap = n;
    uint8_t *o = galloc(cap);
    hexs("Base64_decode text", t, n);
    tell("capacity %zu ", cap);
    char *t0 = dup(t, n);
    (void)Base64_decode(t, n, o, cap);
    CHECK(memcmp(t, t0, n) == 0, "input changed");
}
/* ==================================================================== bits */
#elif PROP == 4
static void run(void) {
    uint32_t d = special32();
    uint8_t n = nx();
    if (nx() & 1) n &= 31;
    uint32_t *o = galloc(4), old = n32();
    bool *b = galloc(1);
    for (int op = 0; op < 4; ++op) {
        bool s;
        *o = old;
        memset(b, old & 1, 1);
        story_n = 0;
        tell("BitManipulation op %s value 0x%x position %u ", op == 0 ? "setBit" : op == 1 ? "clearBit" : op == 2 ? "toggleBit" : "bitSet", d, n);
        if (op == 0) s = BitManipulation_setBit(d, n, o);
        else if (op == 1) s = BitManipulation_clearBit(d, n, o);
        else if (op == 2) s = BitManipulation_toggleBit(d, n, o);
        else s = BitManipulation_bitSet(d, n, b);
        CHECK(s == (n <= 31), "status %d", s);
        uint32_t e = old;
        bool eb = old & 1;
        if (n <= 31) {
            uint32_t m = (uint32_t)1 << n;
            if (op == 0) e = d | m;
            if (op == 1) e = d & ~m;
            if (op == 2) e = d ^ m;
            if (op == 3) eb = (d & m) != 0;
        }
        CHECK(op == 3 || *o == e, "output 0x%x expected 0x%x", *o, e);
        CHECK(*(uint8_t *)b == (uint8_t)eb, "state %u expected %u", *(uint8_t *)b, eb);
    }
}
#elif PROP == 5
static void run(void) {
    uint32_t d = special32(), e = 0;
    uint8_t n = nx() % 33;
    for (int i = 0; i < n; ++i) e |= (d >> (n - 1 - i) & 1u) << i;
    tell("BitManipulation_reflect(0x%x, %u) ", d, n);
    uint32_t r = BitManipulation_reflect(d, n);
    CHECK(r == e, "result 0x%x expected 0x%x", r, e);
    uint32_t k = nx() < 100 ? nx() % 70 : special32();
    e = 0;
    for (uint32_t i = 0; i < 32; ++i) e |= (d >> i & 1u) << ((i + (uint64_t)k) % 32);
    story_n = 0;
    tell("BitManipulation_rotl32(0x%x, %u) ", d, k);
    r = BitManipulation_rotl32(d, k);
    CHECK(r == e, "result 0x%x expected 0x%x", r, e);
}
/* ==================================================================== CRC */
#elif PROP >= 6 && PROP <= 10
static uint32_t rev(uint32_t x, int w) {
    uint32_t r = 0;
    for (int i = 0; i < w; ++i) r |= (x >> i & 1u) << (w - 1 - i);
    return r;
}
static uint32_t div8(uint32_t r, uint32_t poly, int w) {
    uint32_t m = w == 32 ? 0xffffffffu : (1u << w) - 1;
    for (int i = 0; i < 8; ++i) r = r >> (w - 1) & 1 ? (r << 1 ^ poly) & m : r << 1 & m;
    return r;
}
static uint32_t ref_reg(uint32_t reg, const uint8_t *d, size_t n, uint32_t poly, int w, bool refin) {
    for (size_t i = 0; i < n; ++i) {
        uint32_t b = refin ? rev(d[i], 8) : d[i];
        reg = div8(reg ^ b << (w - 8), poly, w);
    }
    return reg;
}
#if PROP <= 9
static void run(void) {
    int lo = PROP == 6 ? 0 : PROP == 7 ? 13 : PROP == 8 ? 36 : 0, hi = PROP == 6 ? 13 : PROP == 7 ? 36 : 45;
    const struct variant *v = &VARIANT[lo + nx() % (hi - lo)];
    size_t n = length();
    uint8_t *d = bytes(n);
    uint32_t m = v->w == 32 ? 0xffffffffu : (1u << v->w) - 1;
    uint32_t *last = galloc(4), keep;
    bool null = nx() & 1;
    *last = special32();
    put(last, *last & m, v->w);
    keep = *last;
    uint32_t start = null ? v->init : get(last, v->w);
    uint32_t reg = ref_reg(start, d, n, v->poly, v->w, v->refl);
    uint32_t e = (v->refl ? rev(reg, v->w) : reg) ^ v->xor;
    hexs(v->name, d, n);
    if (!null) tell("initial 0x%x ", start);
#if PROP == 9
    /* any cutting into chunks */
    uint32_t *st = galloc(4);
    size_t at = 0;
    int parts = 1 + nx() % 5;
    void *lp = null ? NULL : last;
    uint32_t r = 0;
    if (v->fin == 0 && (v->refl || v->xor)) FAIL("variant without finalisation flag");
    for (int i = 0; i < parts; ++i) {
        size_t c = i == parts - 1 ? n - at : below((uint32_t)(n - at) + 1);
        tell("chunk %zu ", c);
        uint8_t *p = dup(d + at, c);
        r = v->call(p, (uint32_t)c, i == parts - 1, lp);
        put(st, r, v->w);
        lp = st;
        at += c;
    }
#else
    uint32_t r = v->call(d, (uint32_t)n, true, null ? NULL : last);
    CHECK(*last == keep, "initial value changed");
#endif
    CHECK(r == e, "checksum 0x%x expected 0x%x", r, e);
    (void)keep;
}
#else
static void run(void) {
    int w = nx() % 3;
    w = w == 0 ? 8 : w == 1 ? 16 : 32;
    uint32_t m = w == 32 ? 0xffffffffu : (1u << w) - 1;
    uint32_t poly = special32() & m, init = special32() & m, x = special32() & m;
    uint8_t fl = nx();
    bool ro = fl & 1, ri = fl & 2, fx = fl & 4;
    size_t n = length();
    uint8_t *d = bytes(n);
    void *t = galloc(256 * w / 8);
    tell("Crc%dBase polynomial 0x%x initial 0x%x xor 0x%x reflect out/in %d/%d final xor %d ", w, poly, init, x, ro, ri, fx);
    hexs("data", d, n);
    uint32_t r;
    if (w == 8) {
        Crc8Base_tableCalculator((uint8_t)poly, t);
        for (uint32_t i = 0; i < 256; ++i) CHECK(((uint8_t *)t)[i] == div8(i, poly, w), "table entry %u", i);
        r = Crc8Base(t, d, (uint32_t)n, (uint8_t)init, (uint8_t)x, ro, ri, fx);
    } else if (w == 16) {
        Crc16Base_tableCalculator((uint16_t)poly, t);
        for (uint32_t i = 0; i < 256; ++i) CHECK(((uint16_t *)t)[i] == div8(i << 8, poly, w), "table entry %u", i);
        r = Crc16Base(t, d, (uint32_t)n, (uint16_t)init, (uint16_t)x, ro, ri, fx);
    } else {
        Crc32Base_tableCalculator(poly, t);
        for (uint32_t i = 0; i < 256; ++i) CHECK(((uint32_t *)t)[i] == div8(i << 24, poly, w), "table entry %u", i);
        r = Crc32Base(t, d, (uint32_t)n, init, x, ro, ri, fx);
    }
    uint32_t e = ref_reg(init, d, n, poly, w, ri);
    if (ro) e = rev(e, w);
    if (fx) e ^= x;
    CHECK(r == e, "checksum 0x%x expected 0x%x", r, e);
}
#endif
/* ==================================================================== ciphers */
#elif PROP == 11 || PROP == 12
#define ROT(x, n) ((x) << (n) | (x) >> (32 - (n)))
#define QR(a, b, c, d) a += b, d ^= a, d = ROT(d, 16), c += d, b ^= c, b = ROT(b, 12), a += b, d ^= a, d = ROT(d, 8), c += d, b ^= c, b = ROT(b, 7)
static uint32_t le(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void ref_block(const uint8_t *k, uint32_t ctr, const uint8_t *nc, uint8_t *o) {
    uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, x[16];
    for (int i = 0; i < 8; ++i) s[4 + i] = le(k + 4 * i);
    s[12] = ctr;
    for (int i = 0; i < 3; ++i) s[13 + i] = le(nc + 4 * i);
    memcpy(x, s, 64);
    for (int i = 0; i < 10; ++i) {
        QR(x[0], x[4], x[8], x[12]); QR(x[1], x[5], x[9], x[13]); QR(x[2], x[6], x[10], x[14]); QR(x[3], x[7], x[11], x[15]);
        QR(x[0], x[5], x[10], x[15]); QR(x[1], x[6], x[11], x[12]); QR(x[2], x[7], x[8], x[13]); QR(x[3], x[4], x[9], x[14]);
    }
    for (int i = 0; i < 16; ++i) {
        uint32_t v = x[i] + s[i];
        for (int j = 0; j < 4; ++j) o[4 * i + j] = (uint8_t)(v >> (8 * j));
    }
}
static void run(void) {
    size_t n = length();
    if (nx() == 255 && nx() < 24) n = ((size_t)(nx() % 5) << 20 | n32() & 0xfffff) + 1;
    uint8_t *key = bytes(32), *nonce = bytes(12);
    uint32_t ctr = nx() & 1 ? special32() : 0u - nx() % 8;
    uint8_t *d = bytes(n), *d0 = dup(d, n), *k0 = dup(key, 32), *n0 = dup(nonce, 12);
    bool same = nx() & 1;
    uint8_t *o = same ? d : galloc(n);
    hexs("Chacha20_crypt key", key, 32);
    hexs("nonce", nonce, 12);
    hexs("data", d, n);
    tell("counter 0x%x %s ", ctr, same ? "in place" : "separate output");
    Chacha20_crypt(d, (uint32_t)n, key, nonce, ctr, o);
#if PROP == 11
    for (size_t i = 0; i < n; i += 64) {
        uint8_t b[64];
        ref_block(key, (uint32_t)(ctr + i / 64), nonce, b);
        for (size_t j = i; j < n && j < i + 64; ++j) CHECK(o[j] == (d0[j] ^ b[j - i]), "output byte %zu is %02x expected %02x", j, o[j], d0[j] ^ b[j - i]);
    }
#else
    CHECK(memcmp(key, k0, 32) == 0 && memcmp(nonce, n0, 12) == 0, "key or nonce changed");
    CHECK(same || memcmp(d, d0, n) == 0, "separate input changed");
    uint8_t *p = dup(d0, n), *q = same ? galloc(n) : p;
    Chacha20_crypt(p, (uint32_t)n, key, nonce, ctr, q);
    CHECK(memcmp(q, o, n) == 0, "in place and separate output differ");
    Chacha20_crypt(o, (uint32_t)n, key, nonce, ctr, o);
    CHECK(memcmp(o, d0, n) == 0, "applying twice does not restore the message");
    (void)ref_block;
#endif
    (void)k0, (void)n0;
}
#elif PROP == 13
static int isl(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static void run(void) {
    size_t n = length();
    char *m = text(n, nx() % 3), *m0 = dup(m, n + 1);
    uint8_t s = nx();
    bool dec = nx() & 1;
    hexs(dec ? "CaesarCipher_decrypt" : "CaesarCipher_encrypt", m, n);
    tell("shift %u ", s);
    if (dec) CaesarCipher_decrypt(m, s); else CaesarCipher_encrypt(m, s);
    for (size_t i = 0; i <= n; ++i) {
        int c = m0[i];
        if (isl(c)) {
            int b = c >= 'a' ? 'a' : 'A';
            c = b + (c - b + (dec ? 26 * 10 - s : s)) % 26;
        }
        CHECK(m[i] == (char)c, "character %zu is %02x expected %02x", i, (uint8_t)m[i], (uint8_t)c);
    }
    if (dec) CaesarCipher_encrypt(m, s); else CaesarCipher_decrypt(m, s);
    CHECK(memcmp(m, m0, n + 1) == 0, "message not restored");
}
#elif PROP == 14
static int isl(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static void run(void) {
    size_t n = length();
    char *m = text(n, nx() % 3), *m0 = dup(m, n + 1);
    char *kt = text(n, nx() % 3);
    uint8_t w = nx();
    int32_t kl = (int32_t)n;
    if (w < 60) {
        static const int32_t off[] = {1, -1, 2, 256, -256, 65536, -65536};
        kl = w < 30 ? kl + off[nx() % 7] : w < 40 ? (int32_t)special32() : w < 50 ? -kl : (int32_t)nx();
    }
    size_t ks = kl < 0 ? 0 : kl > 200000 ? 200000 : (size_t)kl;
    char *k = galloc(ks);
    for (size_t i = 0; i < ks; ++i) k[i] = i < n ? kt[i] : 'k';
    bool dec = nx() & 1;
    hexs(dec ? "VernamCipher_decrypt message" : "VernamCipher_encrypt message", m, n);
    hexs("key", k, ks);
    tell("key length %d ", kl);
    bool s = dec ? VernamCipher_decrypt(m, k, kl) : VernamCipher_encrypt(m, k, kl);
    CHECK(s == (kl >= 0 && (size_t)kl == n), "status %d", s);
    if (!s) {
        CHECK(memcmp(m, m0, n + 1) == 0, "message changed on failure");
        return;
    }
    for (size_t i = 0; i <= n; ++i) {
        int c = m0[i];
        if (isl(c)) {
            int b = c >= 'a' ? 'a' : 'A', kc = (signed char)k[i], o = kc - (kc >= 'a' && kc <= 'z' ? 'a' : 'A');
            c = b + (((c - b + (dec ? -o : o)) % 26) + 26) % 26;
        }
        CHECK(m[i] == (char)c, "character %zu is %02x expected %02x", i, (uint8_t)m[i], (uint8_t)c);
    }
    s = dec ? VernamCipher_encrypt(m, k, kl) : VernamCipher_decrypt(m, k, kl);
    CHECK(s && memcmp(m, m0, n + 1) == 0, "message not restored");
}
/* ==================================================================== JSON */
#elif PROP == 15
static void run(void) {
    size_t tl = length() % 300;
    char *t = text(tl, nx() % 4);
    if (tl && (nx() & 1)) t[tl - 1] = "\"{,"[nx() % 3];
    int op = nx() % 3;
    size_t kl = length() % 700, vl = length() % 700;
    char *k = text(kl, nx() % 4), *v = text(vl, nx() % 4);
    bool sep = tl && t[tl - 1] == '"';
    size_t need = op == 0 ? 2 : op == 1 ? tl + sep + 5 + kl + vl + 1 : tl + 2;
    uint8_t c = nx();
    size_t cap = c < 100 ? need : c < 130 ? need - 1 : c < 160 ? need + 1 : c < 200 ? around(need, 4, 4) : below((uint32_t)need + 5);
    if (op && cap < tl + 1) cap = tl + 1;
    if (cap > 1u << 20) cap = op ? tl + 1 : 0;
    char *b = galloc(cap);
    if (cap) memset(b, nx(), cap);
    if (op || (cap > tl)) memcpy(b, t, tl + 1);
    char *b0 = dup(b, cap), *e = malloc(need + 16);
    hexs(op == 0 ? "Json_startString" : op == 1 ? "Json_addData text" : "Json_endString text", t, tl);
    if (op == 1) hexs("key", k, kl), hexs("value", v, vl);
    tell("capacity %zu ", cap);
    bool s;
    if (op == 0) {
        s = Json_startString(b, cap);
        strcpy(e, "{");
    } else if (op == 1) {
        s = Json_addData(b, cap, k, v);
        sprintf(e, "%s%s\"%s\":\"%s\"", t, sep ? "," : "", k, v);
    } else {
        s = Json_endString(b, cap);
        sprintf(e, "%s}", t);
    }
    CHECK(s == (need <= cap), "status %d, %zu bytes needed", s, need);
    if (s) CHECK(strcmp(b, e) == 0, "text \"%s\" expected \"%s\"", b, e);
    else if (op) CHECK(strcmp(b, b0) == 0, "text changed on failure");
    else CHECK(memcmp(b, b0, cap) == 0, "buffer changed on failure");
    free(e);
}
#elif PROP == 16
static char W[400000];
static size_t wn;
static void blanks(void) { while (nx() < 40) W[wn++] = " \t\n\r"[nx() & 3]; }
static void str(const char *s, size_t n) { W[wn++] = '"'; memcpy(W + wn, s, n); wn += n; W[wn++] = '"'; }
static size_t word(char *o, int max) {
    static const char abc[] = "aabbk:,{} 1_\\\xe9";
    size_t n = nx() < 30 ? 0 : 1 + nx() % (nx() < 200 ? 3 : max);
    uint8_t m = nx();
    for (size_t i = 0; i < n; ++i) {
        uint8_t c = nx();
        o[i] = m < 80 ? "ab"[c & 1] : m < 160 ? abc[c % (sizeof abc - 1)] : (char)(c == 0 || c == '"' ? 'x' : c);
        if (o[i] == '\\') o[i] = '/';
    }
    return n;
}
static void run(void) {
    static char ks[64][64], vs[64][64];
    size_t kn[64], vn[64];
    wn = 0;
    int np = nx() % 6;
    blanks();
    W[wn++] = '{';
    for (int i = 0; i < np; ++i) {
        kn[i] = word(ks[i], 40);
        vn[i] = word(vs[i], 40);
        if (i && nx() < 40) { memcpy(vs[i], ks[i - 1], 64); vn[i] = kn[i - 1]; }
        if (i && nx() < 40) { memcpy(ks[i], ks[nx() % i], 64); int q = nx() % i; memcpy(ks[i], ks[q], 64); kn[i] = kn[q]; }
        blanks(); str(ks[i], kn[i]); blanks(); W[wn++] = ':'; blanks(); str(vs[i], vn[i]); blanks();
        if (i < np - 1) W[wn++] = ',';
    }
    if (nx() < 200) W[wn++] = '}';
    else if (np == 0) W[wn++] = '}';
    char key[80];
    size_t kl;
    uint8_t c = nx();
    if (np && c < 150) { int q = nx() % np; kl = kn[q]; memcpy(key, ks[q], 64); }
    else if (np && c < 190) { int q = nx() % np; kl = vn[q]; memcpy(key, vs[q], 64); }
    else kl = word(key, 40);
    if (c & 1 && nx() < 30 && kl) --kl;
    else if (nx() < 20) key[kl++] = 'a';
    key[kl] = 0;
    size_t L = wn, size = L;
    W[wn++] = 0;
    uint8_t g = nx();
    if (g >= 60) {
        size = L + 1;
        if (g >= 120) {
            /* stale bytes behind the terminator */
            wn = L + 1;
            if (nx() & 1) { str(key, kl); W[wn++] = ':'; str("stale", 5); }
            for (int i = nx() % 9; i > 0; --i) W[wn++] = "\":a,}"[nx() % 5];
            size = wn;
        }
    }
    char *b = dup(W, size), *k = dup(key, kl + 1);
    int hit = -1;
    for (int i = 0; i < np && hit < 0; ++i) if (kn[i] == kl && memcmp(ks[i], key, kl) == 0) hit = i;
    size_t want = hit >= 0 ? vn[hit] + 1 : 0;
    size_t vcap = nx() < 180 ? want + nx() % 5 : below((uint32_t)want + 3);
    if (nx() < 20 && want) vcap = want - 1;
    char *v = galloc(vcap);
    tell("Json_findByKey text %.*s", (int)L, W);
    tell(" buffer size %zu (text %zu) key \"%s\" value capacity %zu ", size, L, key, vcap);
    bool s = Json_findByKey(b, size, k, v, vcap);
    if (hit < 0) CHECK(!s, "success for a missing key");
    else {
        CHECK(s == (want <= vcap), "status %d, value needs %zu", s, want);
        if (s) CHECK(memcmp(v, vs[hit], vn[hit]) == 0 && v[vn[hit]] == 0, "value %.*s", (int)vcap, v);
    }
}
#elif PROP == 17
static void run(void) {
    size_t n = length() % 3000;
    char *b = bytes(n);
    uint8_t m = nx();
    if (m < 200) for (size_t i = 0; i < n; ++i) b[i] = "\"\":a,} {b"[(uint8_t)b[i] % 9];
    if (n && m < 20) b[nx() % n] = 0;
    char *k = text(nx() % (m & 1 ? 3 : 12), 3);
    for (char *p = k; *p; ++p) if (m & 2) *p = 'a';
    size_t vc = nx() % 12;
    char *v = galloc(vc), *b0 = dup(b, n);
    hexs("Json_findByKey buffer", b, n);
    hexs("key", k, strlen(k));
    tell("value capacity %zu ", vc);
    bool s = Json_findByKey(b, n, k, v, vc);
    if (s) CHECK(memchr(v, 0, vc) != NULL, "value not terminated");
    CHECK(memcmp(b, b0, n) == 0, "buffer changed");
}
/* ==================================================================== containers */
#elif PROP == 18
/* more keys than a narrow counter holds: the earlier insertions, which never fail, are laid down as such */
static void large(void) {
    int32_t n = (nx() & 1 ? 65534 : 32766) + nx() % 8, cap = n + nx() % 4;
    byte_t *k = galloc(4 * (size_t)cap), *v = galloc((size_t)cap), *key = galloc(4), *val = galloc(1);
    Map_t *m = galloc(sizeof *m);
    tell("Map key size 4 value size 1 capacity %d holding the keys 0..%d: ", cap, n - 1);
    CHECK(Map_init(m, k, v, 4, 1, cap), "init failed");
    for (int32_t i = 0; i < n; ++i) memcpy(k + 4 * (size_t)i, &i, 4), v[i] = (byte_t)(i * 7);
    m->current_size = n;
    int32_t changed = -1;
    byte_t cv = 0;
    for (int o = 0; o < 8; ++o) {
        int32_t id = nx() & 1 ? m->current_size - 1 + (nx() & 1) : (int32_t)(n32() % (uint32_t)n), have = id < m->current_size;
        memcpy(key, &id, 4);
        *val = 0x5c;
        if (nx() & 1) {
            tell("get(%d) ", id);
            CHECK(Map_getValue(m, key, val) == have, "look-up status");
            if (have) CHECK(*val == (id == changed ? cv : (byte_t)(id * 7)), "wrong value");
        } else if (changed < 0 || !have) {
            tell("insert(%d) ", id);
            if (have) changed = id, *val = cv = nx(); else *val = (byte_t)(id * 7);
            CHECK(Map_insert(m, key, val) == (have || id < cap), "insert status");
            CHECK(m->current_size == n + (!have && id < cap), "%d keys", m->current_size);
            n = m->current_size;
        }
    }
    for (int32_t i = 0; i < n; ++i) CHECK(memcmp(k + 4 * (size_t)i, &i, 4) == 0 && v[i] == (i == changed ? cv : (byte_t)(i * 7)), "entry %d is disturbed", i);
}
static void run(void) {
    if (nx() < 2) { large(); return; }
    int ks = 1 + nx() % (nx() < 230 ? 4 : 255), vs = 1 + nx() % (nx() < 230 ? 5 : 255), cap = 1 + nx() % (nx() < 200 ? 6 : 90);
    if (nx() < 3) vs = 70000;
    if (nx() < 3) ks = 66000;
    if (nx() < 2) cap = 300;
    byte_t *k = galloc((size_t)ks * cap), *v = galloc((size_t)vs * cap);
    Map_t *m = galloc(sizeof *m);
    static const int32_t bad[] = {0, -1, INT32_MIN, -5};
    int i = nx() % 7;
    if (i < 5) {
        Map_t m0 = *m;
        int32_t x = bad[nx() % 4];
        tell("Map_init with argument %d bad (%d) ", i, x);
        bool s = Map_init(m, i == 0 ? NULL : k, i == 1 ? NULL : v, i == 2 ? x : ks, i == 3 ? x : vs, i == 4 ? x : cap);
        CHECK(!s, "accepted");
        CHECK(memcmp(m, &m0, sizeof m0) == 0, "map changed by a failing initialisation");
        story_n = 0;
    }
    tell("Map key size %d value size %d capacity %d: ", ks, vs, cap);
    CHECK(Map_init(m, k, v, ks, vs, cap), "init failed");
    byte_t *mk = malloc((size_t)ks * cap), *mv = malloc((size_t)vs * cap), *key = galloc(ks), *val = galloc(vs), *keep = malloc(vs), *keyk = malloc(ks);
    int n = 0, univ = 1 + nx() % (cap + 3), ops = nx() % (cap > 20 ? 250 : 40);
    for (int o = 0; o < ops; ++o) {
        int id = nx() % univ, mode = ks > 1 ? nx() % 3 : 0;
        memset(key, 0, ks);
        if (mode == 0) key[0] = (byte_t)id; else if (mode == 1) key[ks - 1] = (byte_t)id; else memset(key, id, ks);
        if (mode == 2 && id > 255) key[0] = 1;
        memcpy(keyk, key, ks);
        int at = -1;
        for (int j = 0; j < n; ++j) if (memcmp(mk + (size_t)j * ks, key, ks) == 0) at = j;
        if (nx() & 1) {
            for (int j = 0; j < vs; ++j) val[j] = (byte_t)(j < 8 || nx() < 2 ? nx() : o);
            memcpy(keep, val, vs);
            tell("insert(%d/%d) ", id, mode);
            bool s = Map_insert(m, key, val);
            CHECK(s == (at >= 0 || n < cap), "insert status %d with %d of %d keys", s, n, cap);
            CHECK(memcmp(val, keep, vs) == 0, "argument changed");
            if (s) {
                if (at < 0) { at = n++; memcpy(mk + (size_t)at * ks, key, ks); }
                memcpy(mv + (size_t)at * vs, val, vs);
            }
        } else {
            memset(val, 0x5c, vs);
            tell("get(%d/%d) ", id, mode);
            bool s = Map_getValue(m, key, val);
            CHECK(s == (at >= 0), "look-up status %d", s);
            if (s) CHECK(memcmp(val, mv + (size_t)at * vs, vs) == 0, "wrong value");
        }
        CHECK(memcmp(key, keyk, ks) == 0, "key argument changed");
        if ((nx() & 3) == 0 || o == ops - 1) {
            for (int j = 0; j < n; ++j) {
                CHECK(Map_getValue(m, mk + (size_t)j * ks, val), "an inserted key is lost");
                CHECK(memcmp(val, mv + (size_t)j * vs, vs) == 0, "another key's value is disturbed");
            }
        }
    }
    free(mk), free(mv), free(keep), free(keyk);
}
#elif PROP == 19
static void large(void) {
    uint32_t cap = (nx() & 1 ? 65534 : 32766) + nx() % 8, es = 1 + nx() % 3, head = 0, tail = 0;
    if (nx() < 60) es = 40000 / cap + 2 + nx() % 4;
    Queue_t *q = galloc(sizeof *q);
    uint8_t *buf = galloc((size_t)es * cap), *e = galloc(es), x[16];
    tell("Queue capacity %u element size %u, filled and emptied in turns: ", cap, es);
    CHECK(Queue_init(q, cap, es, buf), "init failed");
    for (int turn = 0; turn < 4; ++turn) {
        uint32_t k = turn & 1 ? n32() % (tail - head + 2) : cap;
        for (uint32_t i = 0; i < k; ++i) {
            uint32_t n = tail - head;
            for (uint32_t j = 0; j < es; ++j) x[j] = (uint8_t)((turn & 1 ? head : tail) * 2654435761u >> (8 * (j & 3)));
            if (turn & 1) {
                CHECK(Queue_dequeue(q, e) == (n > 0), "dequeue status with %u", n);
                if (n) { CHECK(memcmp(e, x, es) == 0, "wrong element number %u", head); ++head; }
            } else {
                memcpy(e, x, es);
                CHECK(Queue_enqueue(q, e) == (n < cap), "enqueue status with %u", n);
                if (n < cap) ++tail;
                CHECK(Queue_rear(q, e), "rear with %u", n);
                if (n < cap) CHECK(memcmp(e, x, es) == 0, "rear after element number %u", tail - 1);
            }
            CHECK(Queue_full(q) == (tail - head == cap) && Queue_empty(q) == (tail == head), "full or empty query with %u", tail - head);
        }
    }
}
static void run(void) {
    if (nx() < 2) { large(); return; }
    uint32_t es = 1 + nx() % (nx() < 230 ? 6 : 255), cap = 1 + nx() % (nx() < 200 ? 5 : 60);
    if (nx() < 3) es = 70000;
    if (nx() < 2) cap = 300, es = es > 300 ? 3 : es;
    Queue_t *q = galloc(sizeof *q);
    uint8_t *buf = galloc((size_t)es * cap), *e = galloc(es), *k = malloc(es);
    int i = nx() % 6;
    if (i < 3) {
        tell("Queue_init bad argument %d ", i);
        CHECK(!Queue_init(q, i == 0 ? 0 : cap, i == 1 ? 0 : es, i == 2 ? NULL : buf), "accepted");
        story_n = 0;
    }
    tell("Queue capacity %u element size %u: ", cap, es);
    CHECK(Queue_init(q, cap, es, buf), "init failed");
    uint8_t *ref = malloc((size_t)es * (cap + 1));
    uint32_t n = 0;
    int ops = nx() % (cap > 20 ? 250 : 70), bias = nx() % 8;
    if (cap == 300) ops = 700;
    for (int o = 0; o < ops; ++o) {
        int op = nx() % 8;
        if (op < 6) op = nx() % 8 < bias ? 0 : 1;
        CHECK(Queue_full(q) == (n == cap), "full query with %u of %u", n, cap);
        CHECK(Queue_empty(q) == (n == 0), "empty query with %u", n);
        if (op == 0) {
            for (uint32_t j = 0; j < es; ++j) e[j] = (uint8_t)(j < 8 || j + 1 == es ? nx() : o);
            memcpy(k, e, es);
            tell("enqueue ");
            bool s = Queue_enqueue(q, e);
            CHECK(s == (n < cap), "enqueue status %d with %u", s, n);
            CHECK(memcmp(k, e, es) == 0, "argument changed");
            if (s) memcpy(ref + (size_t)es * n++, e, es);
        } else {
            memset(e, 0x5c, es);
            memcpy(k, e, es);
            tell(op == 1 ? "dequeue " : op == 6 ? "front " : "rear ");
            bool s = op == 1 ? Queue_dequeue(q, e) : op == 6 ? Queue_front(q, e) : Queue_rear(q, e);
            CHECK(s == (n > 0), "status %d with %u", s, n);
            if (s) memcpy(k, ref + (op == 7 ? (size_t)es * (n - 1) : 0), es);
            CHECK(memcmp(k, e, es) == 0, "wrong element");
            if (s && op == 1) memmove(ref, ref + es, (size_t)es * --n);
        }
    }
    if (nx() & 1) {
        CHECK(!Queue_enqueue(NULL, e) && !Queue_enqueue(q, NULL) && !Queue_dequeue(q, NULL) && !Queue_dequeue(NULL, e), "null argument accepted");
    }
    while (n) {
        tell("dequeue ");
        CHECK(Queue_dequeue(q, e), "an element is lost");
        CHECK(memcmp(e, ref, es) == 0, "wrong element");
        memmove(ref, ref + es, (size_t)es * --n);
    }
    CHECK(!Queue_dequeue(q, e) && Queue_empty(q), "the queue is not empty in the end");
    free(ref), free(k);
}
#elif PROP == 20
static void large(void) {
    uint32_t cap = (nx() & 1 ? 65534 : 32766) + nx() % 8, es = 4, n = cap - nx() % 2;
    PriorityQueue_t *q = galloc(sizeof *q);
    uint32_t *pa = galloc(4 * (size_t)cap), *pr = malloc(4 * (size_t)cap + 4), *id = malloc(4 * (size_t)cap + 4), *p = galloc(4);
    uint8_t *buf = galloc((size_t)es * cap), *e = galloc(es);
    PriorityQueueItem_t *it = galloc(sizeof *it);
    it->priority = pa;
    it->element = buf;
    tell("PriorityQueue capacity %u element size %u, %u elements enqueued: ", cap, es, n);
    CHECK(PriorityQueue_init(q, cap, es, it), "init failed");
    it->priority = p;
    it->element = e;
    uint32_t pm = nx() % 3, next = n;
    for (uint32_t i = 0; i < n; ++i) {
        *p = pm == 0 ? 1000000 + i : pm == 1 ? 1000000 - i : 5;
        pr[i] = *p, id[i] = i;
        memcpy(e, &i, 4);
        CHECK(PriorityQueue_enqueue(q, it), "enqueue number %u", i);
    }
    for (int o = 0; o < 4; ++o) {
        uint32_t at = 0;
        bool s, in = nx() & 1;
        if (in) {
            *p = nx() & 1 ? 2000000 : nx() % 12;
            memcpy(e, &next, 4);
            tell("enqueue(%u) ", *p);
            s = PriorityQueue_enqueue(q, it);
            for (uint32_t j = 1; j < n; ++j) if (pr[j] < pr[at]) at = j;
            CHECK(s == (n < cap || pr[at] < *p), "enqueue status");
        } else {
            tell("dequeue ");
            s = PriorityQueue_dequeue(q, e);
            for (uint32_t j = 1; j < n; ++j) if (pr[j] > pr[at]) at = j;
            CHECK(s && memcmp(e, id + at, 4) == 0, "wrong element");
        }
        if (s && (!in || n == cap)) {
            memmove(pr + at, pr + at + 1, 4 * (size_t)(n - at - 1));
            memmove(id + at, id + at + 1, 4 * (size_t)(n - at - 1));
            --n;
        }
        if (s && in) pr[n] = *p, id[n++] = next++;
        CHECK(q->size == n, "size %u, expected %u", q->size, n);
        CHECK(memcmp(pa, pr, 4 * (size_t)n) == 0 && memcmp(buf, id, 4 * (size_t)n) == 0, "order or contents");
    }
    free(pr), free(id);
}
static void run(void) {
    if (nx() < 2) { large(); return; }
    uint32_t es = 1 + nx() % (nx() < 230 ? 6 : 255), cap = 1 + nx() % (nx() < 200 ? 5 : 60);
    if (nx() < 3) es = 70000;
    if (nx() < 2) cap = 300, es = es > 300 ? 3 : es;
    PriorityQueue_t *q = galloc(sizeof *q);
    uint32_t *pa = galloc(4 * (size_t)cap), *pr = malloc(4 * (size_t)cap + 4);
    uint8_t *buf = galloc((size_t)es * cap), *e = galloc(es), *k = malloc(es), *ref = malloc((size_t)es * (cap + 1));
    PriorityQueueItem_t *it = galloc(sizeof *it);
    it->priority = pa;
    it->element = buf;
    int i = nx() % 8;
    if (i < 4) {
        tell("PriorityQueue_init bad argument %d ", i);
        CHECK(!PriorityQueue_init(i == 0 ? NULL : q, i == 1 ? 0 : cap, i == 2 ? 0 : es, i == 3 ? NULL : it), "accepted");
        story_n = 0;
    }
    tell("PriorityQueue capacity %u element size %u: ", cap, es);
    CHECK(PriorityQueue_init(q, cap, es, it), "init failed");
    uint32_t n = 0, *p = galloc(4);
    PriorityQueueItem_t *ni = galloc(sizeof *ni);
    ni->priority = p;
    ni->element = e;
    int ops = nx() % (cap > 20 ? 250 : 60), bias = 2 + nx() % 6, pm = nx() % 3;
    if (cap == 300) ops = 700;
    for (int o = 0; o < ops; ++o) {
        CHECK(PriorityQueue_empty(q) == (n == 0), "empty query with %u", n);
        if (nx() % 8 < bias) {
            for (uint32_t j = 0; j < es; ++j) e[j] = (uint8_t)(j < 8 || j + 1 == es ? nx() : o);
            *p = pm == 0 ? nx() % 4 : pm == 1 ? special32() : nx();
            uint32_t pk = *p;
            memcpy(k, e, es);
            tell("enqueue(%u) ", pk);
            bool s = PriorityQueue_enqueue(q, ni), es_ = true;
            if (n == cap) {
                uint32_t lo = 0;
                for (uint32_t j = 1; j < n; ++j) if (pr[j] < pr[lo]) lo = j;
                es_ = pr[lo] < pk;
                if (es_) {
                    memmove(ref + (size_t)es * lo, ref + (size_t)es * (lo + 1), (size_t)es * (n - lo - 1));
                    memmove(pr + lo, pr + lo + 1, 4 * (size_t)(n - lo - 1));
                    --n;
                }
            }
            CHECK(s == es_, "enqueue status %d", s);
            CHECK(memcmp(k, e, es) == 0 && *p == pk, "argument changed");
            if (s) { memcpy(ref + (size_t)es * n, e, es); pr[n++] = pk; }
        } else {
            tell("dequeue ");
            bool s = PriorityQueue_dequeue(q, e);
            CHECK(s == (n > 0), "dequeue status %d with %u", s, n);
            if (s) {
                uint32_t h = 0;
                for (uint32_t j = 1; j < n; ++j) if (pr[j] > pr[h]) h = j;
                CHECK(memcmp(e, ref + (size_t)es * h, es) == 0, "wrong element");
                memmove(ref + (size_t)es * h, ref + (size_t)es * (h + 1), (size_t)es * (n - h - 1));
                memmove(pr + h, pr + h + 1, 4 * (size_t)(n - h - 1));
                --n;
            }
        }
    }
    while (n) {
        tell("dequeue ");
        CHECK(PriorityQueue_dequeue(q, e), "an element is lost");
        uint32_t h = 0;
        for (uint32_t j = 1; j < n; ++j) if (pr[j] > pr[h]) h = j;
        CHECK(memcmp(e, ref + (size_t)es * h, es) == 0, "wrong element");
        memmove(ref + (size_t)es * h, ref + (size_t)es * (h + 1), (size_t)es * (n - h - 1));
        memmove(pr + h, pr + h + 1, 4 * (size_t)(n - h - 1));
        --n;
    }
    CHECK(!PriorityQueue_dequeue(q, e) && PriorityQueue_empty(q), "the queue is not empty in the end");
    free(pr), free(k), free(ref);
}
#elif PROP == 21
static int calls[5000];
static int ncalls;
#define T(n) static void t##n(void) { if (ncalls < 5000) calls[ncalls++] = n; }
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7)
static void (*const F[8])(void) = {t0, t1, t2, t3, t4, t5, t6, t7};
/* more slots than a narrow counter holds */
static uint32_t sum, many;
#define S(n) static void s##n(void) { ++many; sum = sum * 31 + n; }
S(1) S(2) S(3)
static void (*const G[3])(void) = {s1, s2, s3};
static void large(void) {
    uint32_t n = (nx() & 1 ? 65534 : 32766) + nx() % 8, used = n - nx() % 4, e = 0, h = 0;
    SchedulerTask_t *t = galloc(n * sizeof *t), *nt = galloc(sizeof *nt);
    tell("Scheduler slots %u, %u used, add twice, run ", n, used);
    Scheduler_init(t, n);
    for (uint32_t i = 0; i < n; ++i) CHECK(t[i].function == NULL, "slot %u is not free", i);
    for (uint32_t i = 0; i < used; ++i) t[i].function = G[(i * 7 + i / 256) % 3], t[i].active = i % 5 != 0;
    for (int o = 0; o < 2; ++o) {
        memset(nt, 0, sizeof *nt);
        nt->function = G[nx() % 3];
        nt->active = nx() & 1;
        bool s = Scheduler_addTask(t, n, nt);
        CHECK(s == (used < n), "add status %d with %u used", s, used);
        if (s) { CHECK(t[used].function == nt->function && t[used].active == nt->active, "slot %u", used); ++used; }
    }
    sum = many = 0;
    for (uint32_t i = 0; i < used; ++i) if (t[i].active) { ++e; h = h * 31 + (t[i].function == s1 ? 1 : t[i].function == s2 ? 2 : 3); }
    Scheduler_run(t, n);
    CHECK(many == e && sum == h, "%u calls, expected %u", many, e);
}
static void run(void) {
    if (nx() < 2) { large(); return; }
    uint32_t n = nx() % (nx() < 220 ? 7 : 70), used = 0;
    if (nx() < 4) n = 250 + nx() % 60;
    SchedulerTask_t *t = galloc(n * sizeof *t), *nt = galloc(sizeof *nt);
    int *f = malloc((n + 1) * sizeof *f);
    bool *a = malloc(n + 1);
    tell("Scheduler slots %u: ", n);
    Scheduler_init(t, n);
    for (uint32_t i = 0; i < n; ++i) CHECK(t[i].function == NULL, "slot %u is not free", i);
    int ops = nx() % 12;
    if (n > 60 || nx() < 40) ops += n;
    for (int o = 0; o < ops; ++o) {
        if (nx() < 200) {
            int id = nx() % 8;
            memset(nt, 0, sizeof *nt);
            nt->function = F[id];
            nt->active = nx() & 1;
            tell("add(%d,%d) ", id, nt->active);
            bool s = Scheduler_addTask(t, n, nt);
            CHECK(s == (used < n), "add status %d with %u used", s, used);
            CHECK(nt->function == F[id], "argument changed");
            if (s) { f[used] = id; a[used++] = nt->active; }
            for (uint32_t i = 0; i < n; ++i) {
                CHECK(t[i].function == (i < used ? F[f[i]] : NULL), "slot %u", i);
                if (i < used) CHECK(t[i].active == a[i], "slot %u active", i);
            }
        } else {
            tell("run ");
            ncalls = 0;
            Scheduler_run(t, n);
            int e = 0;
            for (uint32_t i = 0; i < used; ++i) if (a[i]) { CHECK(e < ncalls && calls[e] == f[i], "call %d", e); ++e; }
            CHECK(e == ncalls, "%d calls, expected %d", ncalls, e);
        }
    }
    ncalls = 0;
    tell("run ");
    Scheduler_run(t, n);
    int e = 0;
    for (uint32_t i = 0; i < used; ++i) if (a[i]) { CHECK(e < ncalls && calls[e] == f[i], "call %d", e); ++e; }
    CHECK(e == ncalls, "%d calls, expected %d", ncalls, e);
    free(f), free(a);
}
/* ==================================================================== sorts */
#elif PROP >= 22 && PROP <= 25
static uint8_t *buf, *orig;
static int32_t cnt, esz;
static int rank_mode;
static long rank(const uint8_t *e) {
    switch (rank_mode) {
        case 0: return e[0];
        case 1: return -(long)e[0];
        case 2: return e[esz - 1];
        case 3: return e[0] & 1;
        case 4: return 0;
        default: { long h = 7; for (int32_t i = 0; i < esz && i < 16; ++i) h = (h * 31 + e[i]) & 0xffffff; return h; }
    }
}
static void given(const uint8_t *e, const char *what) {
    if (e >= buf && e < buf + (size_t)cnt * esz) {
        CHECK((size_t)(e - buf) % esz == 0, "%s is inside an element", what);
        return;
    }
    if (cnt > 20000) return;
    for (int32_t i = 0; i < cnt; ++i) if (memcmp(orig + (size_t)i * esz, e, esz) == 0) return;
    FAIL("%s is not an element", what);
}
static bool cmp(void *x, void *y) {
    given(x, "first argument of compareFun");
    given(y, "second argument of compareFun");
    return rank(x) > rank(y);
}
static int bytecmp(const void *x, const void *y) { return memcmp(x, y, esz); }
static void run(void) {
    uint8_t k = nx();
    cnt = k < 180 ? nx() % 8 : k < 240 ? nx() % 30 : k < 252 ? nx() : 260 + nx();
    esz = k & 1 ? 1 + nx() % 5 : 1 + nx() % 64;
#if PROP != 24
    if (nx() < 10) esz = 60 + n32() % 300;
    if (nx() < 2) esz = 66000, cnt %= 6;
#endif
    rank_mode = nx() % 6;
    bool large = k >= 254 && nx() < 8;
#if PROP == 23
    large = false;   /* always quadratic */
#endif
    if (large) {
        cnt = (nx() & 1 ? 65500 : 32700) + n32() % 700;
        esz = 1 + nx() % 2;
        rank_mode = PROP == 25 ? rank_mode : 0;
    }
    size_t tot = (size_t)cnt * esz;
    buf = galloc(tot);
    orig = galloc(tot);
    uint8_t spread = nx();
    for (int32_t i = 0; i < cnt; ++i) for (int32_t j = 0; j < esz; ++j)
        buf[(size_t)i * esz + j] = (uint8_t)(spread < 80 ? nx() % 4 : spread < 110 ? i : spread < 140 ? cnt - i : j < 4 || j + 2 > esz ? nx() : i + j);
    if (large && PROP != 25) {
        /* nearly sorted, so that the quadratic sorts take linear time */
        for (int32_t i = 0; i < cnt; ++i) buf[(size_t)i * esz] = (uint8_t)((long)i * 250 / cnt);
        uint8_t x = buf[(size_t)(cnt - 2) * esz];
        buf[(size_t)(cnt - 2) * esz] = 255;
        buf[(size_t)(cnt / 2) * esz] = PROP == 24 ? x == 0 : 255;
    }
    if (tot) memcpy(orig, buf, tot);
    tell("sort of %d elements of %d bytes, rank %d ", cnt, esz, rank_mode);
    hexs("contents", buf, tot);
#if PROP == 22
    BubbleSort_sort(buf, cnt, esz, cmp);
#elif PROP == 23
    SelectionSort_sort(buf, cnt, esz, cmp);
#elif PROP == 24
    InsertionSort_sort(buf, cnt, esz, cmp);
#else
    HeapSort_sort(buf, cnt, esz, cmp);
#endif
    for (int32_t i = 1; i < cnt; ++i) CHECK(rank(buf + (size_t)(i - 1) * esz) <= rank(buf + (size_t)i * esz), "elements %d and %d are out of order", i - 1, i);
    uint8_t *a = malloc(tot + 1), *b = malloc(tot + 1);
    if (tot) {
        memcpy(a, buf, tot), memcpy(b, orig, tot);
        qsort(a, cnt, esz, bytecmp), qsort(b, cnt, esz, bytecmp);
        CHECK(memcmp(a, b, tot) == 0, "the elements are not a permutation of the given ones");
    }
    free(a), free(b);
}
/* ==================================================================== utilities */
#elif PROP == 26
static void run(void) {
    uint32_t v = special32();
    int w = nx() % 4;
    bool be = nx() & 1;
    w = w + 1;
    uint8_t *b = (uint8_t *)galloc_at((size_t)w, nx() % 8) ;
    uint32_t m = w == 4 ? 0xffffffffu : (1u << 8 * w) - 1;
    tell("serialize %d bits %s value 0x%x ", 8 * w, be ? "BE" : "LE", v);
    if (w == 1) Utils_serialize8(b, (uint8_t)v);
    else if (w == 2) be ? Utils_serialize16BE(b, (uint16_t)v) : Utils_serialize16LE(b, (uint16_t)v);
    else if (w == 3) be ? Utils_serialize24BE(b, v) : Utils_serialize24LE(b, v);
    else be ? Utils_serialize32BE(b, v) : Utils_serialize32LE(b, v);
    for (int i = 0; i < w; ++i) {
        uint8_t e = (uint8_t)(v >> 8 * (be ? w - 1 - i : i));
        CHECK(b[i] == e, "byte %d is %02x expected %02x", i, b[i], e);
    }
    for (int i = 1; i <= 4 && b - i >= objs[0].base + 16; ++i) CHECK(b[-i] == 0xA5, "byte %d in front changed", i);
    uint32_t e = 0, r;
    for (int i = 0; i < w; ++i) b[i] = nx();
    for (int i = 0; i < w; ++i) e |= (uint32_t)b[i] << 8 * (be ? w - 1 - i : i);
    story_n = 0;
    tell("deserialize %d bits %s ", 8 * w, be ? "BE" : "LE");
    hexs("bytes", b, w);
    if (w == 1) r = Utils_deserialize8(b);
    else if (w == 2) r = be ? Utils_deserialize16BE(b) : Utils_deserialize16LE(b);
    else if (w == 3) r = be ? Utils_deserialize24BE(b) : Utils_deserialize24LE(b);
    else r = be ? Utils_deserialize32BE(b) : Utils_deserialize32LE(b);
    CHECK(r == e, "number 0x%x expected 0x%x", r, e);
    (void)m;
}
#elif PROP == 27
static void run(void) {
    size_t n = length();
    uint8_t *s = bytes(n), *d = galloc(n), *s0 = dup(s, n);
    int op = nx() % 4;
    tell("%s%s size %zu ", op & 1 ? "Utils_serializeBlob" : "Utils_deserializeBlob", op & 2 ? "BE" : "LE", n);
    hexs("source", s, n);
    if (op == 0) Utils_deserializeBlobLE(s, d, (uint32_t)n);
    if (op == 1) Utils_serializeBlobLE(d, s, (uint32_t)n);
    if (op == 2) Utils_deserializeBlobBE(s, d, (uint32_t)n);
    if (op == 3) Utils_serializeBlobBE(d, s, (uint32_t)n);
    for (size_t i = 0; i < n; ++i) CHECK(d[i] == s0[op & 2 ? i : n - 1 - i], "byte %zu", i);
    CHECK(memcmp(s, s0, n) == 0, "source changed");
}
#elif PROP == 28
static void run(void) {
    uint8_t k = nx();
    char t[260];
    int n;
    if (k < 60) {
        n = sprintf(t, "%llu", (unsigned long long)special32() * (k < 10 ? 10 : 1) + nx() % 7);
    } else if (k < 100) {
        n = sprintf(t, "%010llu", 4294967295ull + nx() % 40 - 20 + (nx() < 40 ? (unsigned long long)n32() : 0));
    } else if (k < 130) {
        n = sprintf(t, "%0*u", 1 + nx() % 12, special32());
    } else {
        n = 1 + nx() % (k < 230 ? 12 : 255);
        for (int i = 0; i < n; ++i) t[i] = (char)('0' + nx() % 10);
    }
    if (nx() < 60) t[nx() % n] = "/:\0 a-+."[nx() % 8];
    if (nx() < 20) t[nx() % n] = (char)nx();
    char *s = dup(t, (size_t)n);
    uint32_t *o = galloc(4);
    *o = n32();
    hexs("Utils_stringToUint32", t, (size_t)n);
    bool e = n <= 10;
    uint64_t v = 0;
    for (int i = 0; i < n && e; ++i) {
        if (t[i] < '0' || t[i] > '9') e = false;
        else v = v * 10 + (uint64_t)(t[i] - '0');
    }
    if (v > 0xffffffffull) e = false;
    bool r = Utils_stringToUint32(s, (uint8_t)n, o);
    CHECK(r == e, "status %d", r);
    if (r) CHECK(*o == v, "number %u expected %llu", *o, (unsigned long long)v);
}
#elif PROP == 29
static void run(void) {
    size_t n = length();
    uint8_t *a = bytes(n), *b = bytes(n), *a0 = dup(a, n), *b0 = dup(b, n);
    hexs("Utils_swapElements first", a, n);
    if (nx() < 60) {
        tell("same range ");
        Utils_swapElements(a, a, (uint32_t)n);
        CHECK(memcmp(a, a0, n) == 0, "range changed");
    } else {
        hexs("second", b, n);
        Utils_swapElements(a, b, (uint32_t)n);
        for (size_t i = 0; i < n; ++i) CHECK(a[i] == b0[i] && b[i] == a0[i], "byte %zu", i);
    }
}
#elif PROP == 30
static void run(void) {
    uint8_t c = nx();
    uint32_t *o = galloc(4), old = n32(), e = 1;
    *o = old;
    tell("Utils_quickUint32Pow10(%u) ", c);
    bool s = Utils_quickUint32Pow10(c, o);
    for (int i = 0; i < c && i < 10; ++i) e *= 10;
    CHECK(s == (c <= 9), "status %d", s);
    CHECK(*o == (c <= 9 ? e : old), "result %u", *o);
    story_n = 0;
    tell("character %02x ", c);
    bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z';
    CHECK(Utils_isUpperChar((char)c) == u, "isUpperChar");
    CHECK(Utils_isLowerChar((char)c) == l, "isLowerChar");
    CHECK(Utils_isAlpha((char)c) == (u || l), "isAlpha");
}
#endif

#ifndef BIG
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    in_p = data;
    in_n = size;
    rng = size;
    for (size_t i = 0; i < size && i < 64; ++i) rng = (rng ^ data[i]) * 0x100000001b3ull + 12345;
    story_n = 0;
    story[0] = 0;
    in_used = 0;
    in_flip = ~0u;
    /* several rounds at the same addresses: what one call left behind must not show in the next one */
    uint8_t mode = nx();
    int rounds = mode < 192 ? 1 : mode < 240 ? 2 : 3;
    for (int r = 0; r < rounds; ++r) {
        const uint8_t *p0 = in_p;
        size_t n0 = in_n;
        uint64_t g0 = rng;
        if (r) {
            for (int i = 0; i < npool; ++i) {   /* not asked for again: the next round's objects need the space */
                if (pool[i].base) {
                    ASAN_UNPOISON_MEMORY_REGION(pool[i].base, pool[i].off + pool[i].n + 16);
                    free(pool[i].base);
                }
            }
            npool = nobj;
            for (int i = 0; i < nobj; ++i) pool[i] = objs[i];
            nobj = 0;
            story_n = 0;
            tell("(round %d) ", r + 1);
        }
        run();
        if ((mode & 3) != 0) {   /* the same again but for one input byte */
            in_p = p0;
            in_n = n0;
            rng = g0;
            in_used = 0;
            in_flip = (mode >> 2 & 15) == 0 ? ~0u : (rng >> 20) % 48u;
            in_mask = (uint8_t)(1u << (rng >> 40) % 8u);
        }
    }
    release();
    return 0;
}
#ifdef MAIN
/* replays one input; prints the decoded call when a sanitizer stops it */
void __sanitizer_set_death_callback(void (*)(void));
static void dying(void) { fprintf(stderr, "FAILING INPUT: %s\n", story); }
int main(int argc, char **argv) {
    static uint8_t d[1 << 20];
    FILE *f = fopen(argv[argc - 1], "rb");
    size_t n = f ? fread(d, 1, sizeof d, f) : 0;
    uint8_t *p = malloc(n + 1);
    memcpy(p, d, n);
    __sanitizer_set_death_callback(dying);
    return LLVMFuzzerTestOneInput(p, n);
}
#endif
#endif
