// Adapter process for the C bindings. Speaks the framing of /verif/harness/wire; linked with libpolyglot and built with
// AddressSanitizer, so that ownership errors end the process with a report the harness reads as a violation.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "polyglot.h"

#ifdef __cplusplus
extern "C"
#else
extern
#endif
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t),
                                                     void (*f)(const volatile void *));

static volatile long long live_blocks, total_bytes;
static void on_malloc(const volatile void *p, size_t n) {
    if (!p) return;
    __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&total_bytes, (long long)n, __ATOMIC_RELAXED);
}
static void on_free(const volatile void *p) {
    if (!p) return;
    __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
}

// ---- protocol ----
typedef struct { const uint8_t *b; size_t n, p; } R;
typedef struct { uint8_t *b; size_t n, cap; } W;

static const uint8_t *take(R *r, size_t n) {
    if (r->p + n > r->n) { fprintf(stderr, "adapter: malformed request\n"); exit(3); }
    const uint8_t *s = r->b + r->p;
    r->p += n;
    return s;
}
static uint64_t be(const uint8_t *s, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | s[i]; return v; }
static uint8_t r8(R *r) { return *take(r, 1); }
static uint16_t r16(R *r) { return (uint16_t)be(take(r, 2), 2); }
static uint32_t r32(R *r) { return (uint32_t)be(take(r, 4), 4); }
static uint64_t r64(R *r) { return be(take(r, 8), 8); }
static const uint8_t *rbytes(R *r, uint32_t *n) { *n = r32(r); return take(r, *n); }
static void need(W *w, size_t n) {
    if (w->n + n > w->cap) { w->cap = (w->n + n) * 2; w->b = realloc(w->b, w->cap); }
}
static void wn(W *w, uint64_t v, int n) { need(w, n); for (int i = n - 1; i >= 0; i--) w->b[w->n++] = (uint8_t)(v >> (8 * i)); }
static void wraw(W *w, const void *p, size_t n) { need(w, n); if (n) memcpy(w->b + w->n, p, n); w->n += n; }
static void wbytes(W *w, const void *p, uint32_t n) { wn(w, n, 4); wraw(w, p, n); }
static void wstr(W *w, const char *s) { wbytes(w, s, (uint32_t)strlen(s)); }

// ---- values ----
typedef struct { uint8_t kind, kk, vk; uint64_t num; const uint8_t *data; uint32_t len; } Val;
static Val get_val(R *r) {
    Val v = {0};
    v.kind = r8(r);
    switch (v.kind) {
    case 0: case 3: break;
    case 1: v.vk = r8(r); v.num = r32(r); break;
    case 2: v.kk = r8(r); v.vk = r8(r); v.num = r32(r); break;
    case 4: case 5: case 6: v.data = rbytes(r, &v.len); break;
    case 7: case 8: v.num = r8(r); break;
    case 9: v.num = r16(r); break;
    case 10: case 12: case 14: v.num = r32(r); break;
    default: v.num = r64(r); break;
    }
    return v;
}

// The header's names are part of the API: kinds are passed, and statuses read, by name only.
static polyglot_kind_t kind_of(uint8_t k) {
    const polyglot_kind_t names[] = {POLYGLOT_KIND_NONE, POLYGLOT_KIND_ARRAY, POLYGLOT_KIND_MAP, POLYGLOT_KIND_ANY, POLYGLOT_KIND_BYTES, POLYGLOT_KIND_STRING,
        POLYGLOT_KIND_ERROR, POLYGLOT_KIND_BOOL, POLYGLOT_KIND_U8, POLYGLOT_KIND_U16, POLYGLOT_KIND_U32, POLYGLOT_KIND_U64, POLYGLOT_KIND_I32,
        POLYGLOT_KIND_I64, POLYGLOT_KIND_F32, POLYGLOT_KIND_F64};
    return k < 16 ? names[k] : POLYGLOT_KIND_UNKNOWN;
}
static uint8_t status_number(polyglot_status_t st) {
    return st == POLYGLOT_STATUS_PASS ? 0 : st == POLYGLOT_STATUS_FAILURE ? 1 : st == POLYGLOT_STATUS_NULL_PTR ? 2 : (uint8_t)st < 0x40 ? 0x60 : (uint8_t)st;
}

static int inputs_changed;

// nullarg: pass a null payload pointer
static polyglot_status_t enc(polyglot_encoder_t *e, Val v, int nullarg) {
    polyglot_status_t st = 0x77;
    switch (v.kind) {
    case 0: polyglot_encode_none(&st, e); break;
    case 1: polyglot_encode_array(&st, e, (uint32_t)v.num, kind_of(v.vk)); break;
    case 2: polyglot_encode_map(&st, e, (uint32_t)v.num, kind_of(v.kk), kind_of(v.vk)); break;
    case 4: {
        uint8_t *p = malloc(v.len ? v.len : 1);
        memcpy(p, v.data, v.len);
        polyglot_encode_bytes(&st, e, nullarg ? NULL : p, v.len);
        if (memcmp(p, v.data, v.len)) inputs_changed = 1;
        memset(p, 0xA5, v.len);
        free(p);
        break;
    }
    case 5: case 6: {
        char *p = malloc(v.len + 1);
        memcpy(p, v.data, v.len);
        p[v.len] = 0;
        if (v.kind == 5) polyglot_encode_string(&st, e, nullarg ? NULL : p);
        else polyglot_encode_error(&st, e, nullarg ? NULL : p);
        if (memcmp(p, v.data, v.len) || p[v.len]) inputs_changed = 1;
        memset(p, 'Z', v.len);
        free(p);
        break;
    }
    case 7: polyglot_encode_bool(&st, e, v.num != 0); break;
    case 8: polyglot_encode_u8(&st, e, (uint8_t)v.num); break;
    case 9: polyglot_encode_u16(&st, e, (uint16_t)v.num); break;
    case 10: polyglot_encode_u32(&st, e, (uint32_t)v.num); break;
    case 11: polyglot_encode_u64(&st, e, v.num); break;
    case 12: polyglot_encode_i32(&st, e, (int32_t)(uint32_t)v.num); break;
    case 13: polyglot_encode_i64(&st, e, (int64_t)v.num); break;
    case 14: { float f; uint32_t x = (uint32_t)v.num; memcpy(&f, &x, 4); polyglot_encode_f32(&st, e, f); break; }
    case 15: { double f; memcpy(&f, &v.num, 8); polyglot_encode_f64(&st, e, f); break; }
    }
    return st;
}

// copy out of an encoder into a buffer of exactly cap bytes, with canaries on both sides
static polyglot_status_t copy_out(polyglot_encoder_t *e, uint32_t cap, uint8_t **out, int *canary_ok) {
    uint8_t *raw = malloc((size_t)cap + 32);
    memset(raw, 0xDD, (size_t)cap + 32);
    polyglot_status_t st = 0x77;
    polyglot_encoder_buffer(&st, e, raw + 16, cap);
    *canary_ok = 1;
    for (int i = 0; i < 16; i++) if (raw[i] != 0xDD || raw[16 + (size_t)cap + i] != 0xDD) *canary_ok = 0;
    *out = raw;
    return st;
}

static void do_encode(R *r, W *w) {
    uint8_t mode = r8(r);
    uint32_t a = r32(r);
    r32(r);
    uint32_t pn;
    rbytes(r, &pn); // the C API has no raw writes: no prefix
    uint32_t n = r32(r);
    polyglot_status_t st = 0x77;
    polyglot_encoder_t *e = polyglot_new_encoder(&st);
    char msg[128] = "";
    inputs_changed = 0;
    if (st != POLYGLOT_STATUS_PASS) snprintf(msg, sizeof msg, "new_encoder status %d", st);
    for (uint32_t i = 0; i < n; i++) {
        Val v = get_val(r);
        polyglot_status_t s = enc(e, v, 0);
        if (s != POLYGLOT_STATUS_PASS && !msg[0]) snprintf(msg, sizeof msg, "op %u status %d", i, s);
    }
    if (msg[0]) { wn(w, 1, 1); wstr(w, msg); polyglot_free_encoder(e); return; }
    uint32_t size = polyglot_encoder_size(&st, e);
    uint32_t cap = size + (mode == 1 ? a % 64 : 0);
    uint8_t *raw; int ok;
    st = copy_out(e, cap, &raw, &ok);
    if (st != POLYGLOT_STATUS_PASS || !ok) {
        snprintf(msg, sizeof msg, "encoder_buffer(size %u, cap %u) status %d canary %d", size, cap, st, ok);
        wn(w, 1, 1); wstr(w, msg);
    } else {
        for (uint32_t i = size; i < cap; i++) if (raw[16 + i] != 0xDD) { inputs_changed = 1; }
        wn(w, 0, 1);
        wn(w, inputs_changed ? 2 : 0, 1);
        wbytes(w, raw + 16, size);
    }
    free(raw);
    polyglot_free_encoder(e);
}

typedef struct { uint8_t kind, kk, vk; } Rd;
static Rd get_read(R *r) {
    Rd d = {0};
    d.kind = r8(r);
    if (d.kind == 1) d.vk = r8(r);
    else if (d.kind == 2) { d.kk = r8(r); d.vk = r8(r); }
    else if (d.kind == 4) { r32(r); r32(r); }
    return d;
}

// One read. Appends the payload to w when it passed. Owned results are stored in *held (type in *hk) unless held is NULL.
static polyglot_status_t read_one(polyglot_decoder_t *d, Rd rd, W *w, void **held) {
    polyglot_status_t st = 0x77;
    switch (rd.kind) {
    case 0: {
        bool b = polyglot_decode_none(&st, d);
        // "not nil" is not a failure of the call: report it as a refused read
        if (st == POLYGLOT_STATUS_PASS && !b) return 0x40;
        if (st != POLYGLOT_STATUS_PASS && b) return 0x41;
        break;
    }
    case 1: { uint32_t n = polyglot_decode_array(&st, d, kind_of(rd.vk)); if (st == POLYGLOT_STATUS_PASS) wn(w, n, 4); break; }
    case 2: { uint32_t n = polyglot_decode_map(&st, d, kind_of(rd.kk), kind_of(rd.vk)); if (st == POLYGLOT_STATUS_PASS) wn(w, n, 4); break; }
    case 4: {
        polyglot_buffer_t *b = polyglot_decode_bytes(&st, d);
        if (st == POLYGLOT_STATUS_PASS) {
            if (!b) return 0x42;
            wbytes(w, b->data, b->length);
            if (held) *held = b; else polyglot_free_decode_bytes(b);
        } else if (b) return 0x43;
        break;
    }
    case 5: case 6: {
        char *s = rd.kind == 5 ? polyglot_decode_string(&st, d) : polyglot_decode_error(&st, d);
        if (st == POLYGLOT_STATUS_PASS) {
            if (!s) return 0x42;
            wstr(w, s);
            if (held) *held = s;
            else if (rd.kind == 5) polyglot_free_decode_string(s);
            else polyglot_free_decode_error(s);
        } else if (s) return 0x43;
        break;
    }
    case 7: { bool v = polyglot_decode_bool(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, v, 1); break; }
    case 8: { uint8_t v = polyglot_decode_u8(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, v, 1); break; }
    case 9: { uint16_t v = polyglot_decode_u16(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, v, 2); break; }
    case 10: { uint32_t v = polyglot_decode_u32(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, v, 4); break; }
    case 11: { uint64_t v = polyglot_decode_u64(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, v, 8); break; }
    case 12: { int32_t v = polyglot_decode_i32(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, (uint32_t)v, 4); break; }
    case 13: { int64_t v = polyglot_decode_i64(&st, d); if (st == POLYGLOT_STATUS_PASS) wn(w, (uint64_t)v, 8); break; }
    case 14: { float v = polyglot_decode_f32(&st, d); uint32_t x; memcpy(&x, &v, 4); if (st == POLYGLOT_STATUS_PASS) wn(w, x, 4); break; }
    case 15: { double v = polyglot_decode_f64(&st, d); uint64_t x; memcpy(&x, &v, 8); if (st == POLYGLOT_STATUS_PASS) wn(w, x, 8); break; }
    }
    return st;
}

static void put_result(W *w, polyglot_status_t st, W *payload, uint64_t alloc) {
    if (st == POLYGLOT_STATUS_PASS) { wn(w, 0, 1); wraw(w, payload->b, payload->n); }
    else if (st == POLYGLOT_STATUS_FAILURE || st == 0x40) { wn(w, 1, 1); wstr(w, ""); }
    else { char m[64]; snprintf(m, sizeof m, "status 0x%x", st); wn(w, 2, 1); wstr(w, m); }
    wn(w, 0xFFFFFFFFu, 4);
    wn(w, alloc, 8);
}

static void do_decode(R *r, W *w) {
    uint8_t flags = r8(r);
    uint32_t n;
    const uint8_t *src = rbytes(r, &n);
    uint8_t *in = malloc(n ? n : 1);
    memcpy(in, src, n);
    uint32_t k = r32(r);
    Rd *reads = malloc(sizeof(Rd) * (k + 1));
    for (uint32_t i = 0; i < k; i++) reads[i] = get_read(r);
    polyglot_status_t st = 0x77;
    polyglot_decoder_t *d = polyglot_new_decoder(&st, in, n);
    uint8_t fl = 0;
    if (memcmp(in, src, n)) fl |= 1;
    // the decoder owns a copy: what happens to the caller's buffer must not matter
    if (flags & 1) { memset(in, 0x5A, n); free(in); in = NULL; }
    size_t flpos = w->n;
    wn(w, fl, 1);
    wn(w, k, 4);
    W p = {malloc(4096), 0, 4096};
    for (uint32_t i = 0; i < k; i++) {
        p.n = 0;
        if (st != POLYGLOT_STATUS_PASS || !d) { put_result(w, 0x50, &p, 0); continue; }
        need(&p, (size_t)n + 64);
        long long t0 = total_bytes;
        polyglot_status_t s = read_one(d, reads[i], &p, NULL);
        long long t1 = total_bytes;
        put_result(w, s, &p, (uint64_t)(t1 - t0));
    }
    (void)flpos;
    free(p.b);
    free(reads);
    free(in);
    polyglot_free_decoder(d);
}

// ---- call histories (P13) ----
#define SLOTS 8
static void do_history(R *r, W *w) {
    long long blocks0 = live_blocks;
    polyglot_encoder_t *E[SLOTS] = {0};
    polyglot_decoder_t *D[SLOTS] = {0};
    struct { void *p; uint8_t kind; } V[SLOTS];
    memset(V, 0, sizeof V);
    uint32_t n = r32(r);
    W p = {malloc(1 << 16), 0, 1 << 16};
    W out = {malloc(1 << 16), 0, 1 << 16};
    for (uint32_t i = 0; i < n; i++) {
        uint8_t op = r8(r);
        polyglot_status_t st = 0x77;
        p.n = 0;
        switch (op) {
        case 0: { uint8_t s = r8(r); E[s] = polyglot_new_encoder(&st); if (st == POLYGLOT_STATUS_PASS && !E[s]) st = 0x42; break; }
        case 1: { uint8_t s = r8(r); polyglot_free_encoder(E[s]); E[s] = NULL; st = POLYGLOT_STATUS_PASS; break; }
        case 2: { uint8_t s = r8(r), nul = r8(r); Val v = get_val(r); st = enc(s == 0xFF ? NULL : E[s], v, nul); break; }
        case 3: { uint8_t s = r8(r); uint32_t z = polyglot_encoder_size(&st, s == 0xFF ? NULL : E[s]); wn(&p, z, 4); break; }
        case 4: {
            uint8_t s = r8(r), how = r8(r); uint32_t k = r32(r);
            polyglot_encoder_t *e = s == 0xFF ? NULL : E[s];
            uint32_t size = 0;
            if (e) { polyglot_status_t x = 0x77; size = polyglot_encoder_size(&x, e); }
            if (how == 3) { polyglot_encoder_buffer(&st, e, NULL, size); break; }
            uint32_t cap = how == 0 ? size : how == 1 ? size + k : (k < size ? size - 1 - k % size : 0);
            uint8_t *raw; int ok;
            st = copy_out(e, cap, &raw, &ok);
            if (!ok) st = 0x44;
            wn(&p, cap, 4);
            wbytes(&p, raw + 16, cap);
            free(raw);
            break;
        }
        case 5: {
            uint8_t s = r8(r), nul = r8(r); uint32_t len; const uint8_t *b = rbytes(r, &len);
            uint8_t *c = malloc(len ? len : 1);
            memcpy(c, b, len);
            D[s] = polyglot_new_decoder(&st, nul ? NULL : c, len);
            memset(c, 0xA5, len);
            free(c);
            if (st == POLYGLOT_STATUS_PASS && !D[s]) st = 0x42;
            if (st != POLYGLOT_STATUS_PASS && D[s]) st = 0x43;
            break;
        }
        case 6: { uint8_t s = r8(r); polyglot_free_decoder(D[s]); D[s] = NULL; st = POLYGLOT_STATUS_PASS; break; }
        case 7: {
            uint8_t s = r8(r), hold = r8(r); Rd rd = get_read(r);
            void *held = NULL;
            st = read_one(s == 0xFF ? NULL : D[s], rd, &p, hold == 0xFF ? NULL : &held);
            if (hold != 0xFF && held) { V[hold].p = held; V[hold].kind = rd.kind; }
            break;
        }
        case 8: { // re-read a held value, then free it
            uint8_t h = r8(r);
            st = POLYGLOT_STATUS_PASS;
            if (V[h].kind == 4) { polyglot_buffer_t *b = V[h].p; wbytes(&p, b->data, b->length); polyglot_free_decode_bytes(b); }
            else if (V[h].kind == 5) { wstr(&p, V[h].p); polyglot_free_decode_string(V[h].p); }
            else if (V[h].kind == 6) { wstr(&p, V[h].p); polyglot_free_decode_error(V[h].p); }
            V[h].p = NULL; V[h].kind = 0;
            break;
        }
        case 9: // freeing nothing
            polyglot_free_encoder(NULL); polyglot_free_decoder(NULL); polyglot_free_decode_bytes(NULL);
            polyglot_free_decode_string(NULL); polyglot_free_decode_error(NULL);
            st = POLYGLOT_STATUS_PASS;
            break;
        }
        wn(&out, status_number(st), 1);
        wbytes(&out, p.b, (uint32_t)p.n);
    }
    for (int i = 0; i < SLOTS; i++) {
        if (E[i]) polyglot_free_encoder(E[i]);
        if (D[i]) polyglot_free_decoder(D[i]);
        if (V[i].kind == 4) polyglot_free_decode_bytes(V[i].p);
        else if (V[i].kind == 5) polyglot_free_decode_string(V[i].p);
        else if (V[i].kind == 6) polyglot_free_decode_error(V[i].p);
    }
    free(p.b);
    wraw(w, out.b, out.n);
    free(out.b);
    wn(w, (uint64_t)(live_blocks - blocks0), 8);
}

static void do_huge(R *r, W *w) {
    uint8_t kind = r8(r);
    uint32_t n = r32(r);
    char *s = malloc((size_t)n + 1);
    for (uint32_t i = 0; i < n; i++) s[i] = (char)('a' + i % 23);
    s[n] = 0;
    polyglot_status_t st = 0x77;
    polyglot_encoder_t *e = polyglot_new_encoder(&st);
    if (kind == 4) polyglot_encode_bytes(&st, e, (uint8_t *)s, n);
    else if (kind == 5) polyglot_encode_string(&st, e, s);
    else polyglot_encode_error(&st, e, s);
    int good = st == POLYGLOT_STATUS_PASS;
    uint32_t size = polyglot_encoder_size(&st, e);
    uint8_t *b = malloc(size);
    polyglot_encoder_buffer(&st, e, b, size);
    good &= st == POLYGLOT_STATUS_PASS;
    polyglot_free_encoder(e);
    int same = size >= n && !memcmp(b + (size - n), s, n), back = 0;
    polyglot_decoder_t *d = polyglot_new_decoder(&st, b, size);
    if (kind == 4) {
        polyglot_buffer_t *x = polyglot_decode_bytes(&st, d);
        back = st == POLYGLOT_STATUS_PASS && x && x->length == n && !memcmp(x->data, s, n);
        polyglot_free_decode_bytes(x);
    } else {
        char *x = kind == 5 ? polyglot_decode_string(&st, d) : polyglot_decode_error(&st, d);
        back = st == POLYGLOT_STATUS_PASS && x && strlen(x) == n && !memcmp(x, s, n);
        if (kind == 5) polyglot_free_decode_string(x); else polyglot_free_decode_error(x);
    }
    polyglot_free_decoder(d);
    if (!good) { wn(w, 2, 1); wstr(w, "encode status"); }
    else { wn(w, 0, 1); wn(w, size, 4); wbytes(w, b, size < 16 ? size : 16); wn(w, same, 1); wn(w, back, 1); }
    free(b);
    free(s);
}

// ---- a long stream: the values over and over into one encoder, read back from one decoder ----
static void do_long(R *r, W *w) {
    r8(r); r32(r); r32(r); r8(r);
    uint32_t rounds = r32(r), ulen;
    const uint8_t *unit = rbytes(r, &ulen);
    uint32_t nv = r32(r);
    Val *v = calloc(nv + 1, sizeof *v);
    for (uint32_t i = 0; i < nv; i++) v[i] = get_val(r);
    uint32_t nr = r32(r);
    Rd *rd = calloc(nr + 1, sizeof *rd);
    for (uint32_t i = 0; i < nr; i++) rd[i] = get_read(r);
    polyglot_status_t st = 0x77;
    uint32_t refused = 0, fails = 0;
    polyglot_encoder_t *e = polyglot_new_encoder(&st);
    long long t0 = total_bytes;
    for (uint32_t k = 0; k < rounds; k++)
        for (uint32_t i = 0; i < nv; i++) if (enc(e, v[i], 0) != POLYGLOT_STATUS_PASS) refused++;
    uint32_t size = polyglot_encoder_size(&st, e);
    long long t1 = total_bytes;
    uint8_t *b = malloc((size_t)size + 1);
    polyglot_encoder_buffer(&st, e, b, size);
    if (st != POLYGLOT_STATUS_PASS) refused++;
    polyglot_free_encoder(e);
    uint32_t at = 0xFFFFFFFFu;
    for (uint32_t i = 0; i < size; i++) if (b[i] != unit[i % ulen]) { at = i; break; }
    W p = {malloc((size_t)ulen * 2 + 4096), 0, (size_t)ulen * 2 + 4096};
    long long t2 = total_bytes;
    polyglot_decoder_t *d = polyglot_new_decoder(&st, b, size);
    for (uint32_t k = 1; k < rounds; k++)
        for (uint32_t i = 0; i < nr; i++) { p.n = 0; if (read_one(d, rd[i], &p, NULL) != POLYGLOT_STATUS_PASS) fails++; }
    long long t3 = total_bytes;
    if (refused) { wn(w, 1, 1); wstr(w, "an encode call or encoder_buffer was refused"); }
    else {
        wn(w, 0, 1); wn(w, size, 4); wn(w, at, 4); wn(w, (uint64_t)(t1 - t0), 8); wn(w, (uint64_t)(t3 - t2), 8); wn(w, fails, 4); wn(w, nr, 4);
        for (uint32_t i = 0; i < nr; i++) { p.n = 0; st = read_one(d, rd[i], &p, NULL); put_result(w, st, &p, 0); }
    }
    polyglot_free_decoder(d);
    free(p.b); free(b); free(v); free(rd);
}

// ---- concurrency: independent encoders and decoders on separate threads ----
typedef struct { Val *v; uint32_t nv; Rd *rd; uint32_t nr; uint32_t rounds; W bytes, res; char diff[64]; } Load;
static void *run_load(void *arg) {
    Load *l = arg;
    for (uint32_t k = 0; k < l->rounds && !l->diff[0]; k++) {
        polyglot_status_t st = 0x77;
        polyglot_encoder_t *e = polyglot_new_encoder(&st);
        for (uint32_t i = 0; i < l->nv; i++) if (enc(e, l->v[i], 0) != POLYGLOT_STATUS_PASS) snprintf(l->diff, sizeof l->diff, "encode failed in round %u", k);
        uint32_t size = polyglot_encoder_size(&st, e);
        uint8_t *b = malloc(size + 1);
        polyglot_encoder_buffer(&st, e, b, size);
        polyglot_free_encoder(e);
        polyglot_decoder_t *d = polyglot_new_decoder(&st, b, size);
        W res = {malloc(256), 0, 256}, p = {malloc(256), 0, 256};
        for (uint32_t i = 0; i < l->nr; i++) { p.n = 0; put_result(&res, read_one(d, l->rd[i], &p, NULL), &p, 0); }
        free(p.b);
        polyglot_free_decoder(d);
        if (k == 0) { wraw(&l->bytes, b, size); l->res = res; }
        else {
            if (size != l->bytes.n || memcmp(b, l->bytes.b, size)) snprintf(l->diff, sizeof l->diff, "round %u encoded differently", k);
            if (res.n != l->res.n || memcmp(res.b, l->res.b, res.n)) snprintf(l->diff, sizeof l->diff, "round %u decoded differently", k);
            free(res.b);
        }
        free(b);
    }
    return NULL;
}
static void do_concurrent(R *r, W *w) {
    uint8_t nw = r8(r);
    uint32_t rounds = r32(r);
    Load *L = calloc(nw ? nw : 1, sizeof(Load));
    for (int i = 0; i < nw; i++) {
        r8(r);
        L[i].nv = r32(r);
        L[i].v = calloc(L[i].nv + 1, sizeof(Val));
        for (uint32_t j = 0; j < L[i].nv; j++) L[i].v[j] = get_val(r);
        L[i].nr = r32(r);
        L[i].rd = calloc(L[i].nr + 1, sizeof(Rd));
        for (uint32_t j = 0; j < L[i].nr; j++) L[i].rd[j] = get_read(r);
        L[i].rounds = rounds;
    }
    pthread_t *t = calloc(nw + 1, sizeof *t);
    for (int i = 0; i < nw; i++) if (pthread_create(&t[i], NULL, run_load, &L[i])) { fprintf(stderr, "adapter: no threads\n"); exit(3); }
    for (int i = 0; i < nw; i++) pthread_join(t[i], NULL);
    for (int i = 0; i < nw; i++) {
        wstr(w, L[i].diff);
        wbytes(w, L[i].bytes.b, (uint32_t)L[i].bytes.n);
        wbytes(w, L[i].res.b, (uint32_t)L[i].res.n);
        free(L[i].v); free(L[i].rd); free(L[i].bytes.b); free(L[i].res.b);
    }
    free(L);
    free(t);
}

// ---- several encoders and decoders in use at once, their steps taken in the order given (top bit: a read) ----
typedef struct { Val *v; uint32_t nv, iv, nr, ir, ilen; Rd *rd; const uint8_t *in; polyglot_encoder_t *e; polyglot_decoder_t *d; W res; char diff[64]; } Session;
static int session_step(Session *s, int read) {
    if (s->diff[0] || (read ? s->ir == s->nr : s->iv == s->nv)) return 0;
    polyglot_status_t st = 0x77;
    if (read) {
        if (!s->d) {
            uint8_t *c = malloc(s->ilen ? s->ilen : 1);
            memcpy(c, s->in, s->ilen);
            s->d = polyglot_new_decoder(&st, c, s->ilen);
            memset(c, 0xA5, s->ilen);
            free(c);
            if (st != POLYGLOT_STATUS_PASS || !s->d) { snprintf(s->diff, sizeof s->diff, "new_decoder status %d", st); return 1; }
        }
        W p = {malloc(256), 0, 256};
        need(&p, (size_t)s->ilen + 64);
        st = read_one(s->d, s->rd[s->ir], &p, NULL);
        put_result(&s->res, st, &p, 0);
        free(p.b);
        s->ir++;
        return 1;
    }
    if (!s->e) {
        s->e = polyglot_new_encoder(&st);
        if (st != POLYGLOT_STATUS_PASS || !s->e) { snprintf(s->diff, sizeof s->diff, "new_encoder status %d", st); return 1; }
    }
    st = enc(s->e, s->v[s->iv], 0);
    if (st != POLYGLOT_STATUS_PASS) snprintf(s->diff, sizeof s->diff, "op %u status %d", s->iv, st);
    s->iv++;
    return 1;
}
static void do_interleaved(R *r, W *w) {
    int n = r8(r);
    Session *S = calloc(n + 1, sizeof *S);
    for (int i = 0; i < n; i++) {
        Session *s = &S[i];
        r8(r); r32(r); r32(r);
        s->nv = r32(r);
        s->v = calloc(s->nv + 1, sizeof(Val));
        for (uint32_t j = 0; j < s->nv; j++) s->v[j] = get_val(r);
        s->in = rbytes(r, &s->ilen);
        s->nr = r32(r);
        s->rd = calloc(s->nr + 1, sizeof(Rd));
        for (uint32_t j = 0; j < s->nr; j++) s->rd[j] = get_read(r);
        s->res = (W){malloc(256), 0, 256};
    }
    uint32_t k;
    const uint8_t *order = rbytes(r, &k);
    for (uint32_t i = 0; i < k; i++) session_step(&S[(order[i] & 0x7f) % n], order[i] & 0x80);
    for (int i = 0; i < n; i++) {
        while (session_step(&S[i], 0)) {}
        while (session_step(&S[i], 1)) {}
    }
    for (int i = 0; i < n; i++) {
        Session *s = &S[i];
        uint32_t size = 0;
        uint8_t *b = NULL;
        if (s->e && !s->diff[0]) {
            polyglot_status_t st = 0x77;
            size = polyglot_encoder_size(&st, s->e);
            b = malloc(size + 1);
            polyglot_encoder_buffer(&st, s->e, b, size);
            if (st != POLYGLOT_STATUS_PASS) { snprintf(s->diff, sizeof s->diff, "encoder_buffer status %d", st); size = 0; }
        }
        wstr(w, s->diff);
        wbytes(w, b, size);
        wbytes(w, s->res.b, (uint32_t)s->res.n);
        free(b);
        if (s->e) polyglot_free_encoder(s->e);
        if (s->d) polyglot_free_decoder(s->d);
        free(s->v); free(s->rd); free(s->res.b);
    }
    free(S);
}

static int readn(void *p, size_t n) { return fread(p, 1, n, stdin) == n; }

int main(void) {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    W w = {malloc(1 << 20), 0, 1 << 20};
    size_t cap = 1 << 16;
    uint8_t *frame = malloc(cap);
    for (;;) {
        uint8_t h[4];
        if (!readn(h, 4)) break;
        size_t n = (size_t)be(h, 4);
        if (n > cap) { free(frame); frame = malloc(cap = n); }
        if (!readn(frame, n)) break;
        R r = {frame, n, 1};
        w.n = 0;
        wn(&w, 0, 4);
        switch (frame[0]) {
        case 'E': do_encode(&r, &w); break;
        case 'D': do_decode(&r, &w); break;
        case 'H': do_history(&r, &w); break;
        case 'G': do_huge(&r, &w); break;
        case 'L': do_long(&r, &w); break;
        case 'V': do_interleaved(&r, &w); break;
        case 'C': do_concurrent(&r, &w); break;
        }
        size_t body = w.n - 4;
        for (int i = 0; i < 4; i++) w.b[i] = (uint8_t)(body >> (8 * (3 - i)));
        if (fwrite(w.b, 1, w.n, stdout) != w.n || fflush(stdout)) break;
    }
    free(frame);
    free(w.b);
    return 0;
}
