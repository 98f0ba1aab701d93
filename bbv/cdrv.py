"""Driver emitters for C and C++.  Static code: one load/dump pair per struct."""
import re
from .model import *


def sn(s):
    return re.sub(r'(?<!^)(?<!_)([A-Z])', r'_\1', s).lower()


CT = {'bool': 'bool', 'int8': 'int8_t', 'int16': 'int16_t', 'int32': 'int32_t', 'int64': 'int64_t',
      'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t',
      'float32': 'float', 'float64': 'double'}

COMMON = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <pthread.h>
#include <time.h>

typedef struct { const uint8_t* p; } Rd;
typedef struct { uint8_t* b; size_t n, cap; } Wr;
static void* xmalloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void wput(Wr* w, const void* d, size_t n) {
    if (w->n + n + 1 > w->cap) { w->cap = (w->n + n + 1) * 2 + 256; w->b = (uint8_t*)realloc(w->b, w->cap); if (!w->b) abort(); }
    if (n) memcpy(w->b + w->n, d, n);
    w->n += n; w->b[w->n] = 0;
}
static void wstr(Wr* w, const char* s) { wput(w, s, strlen(s)); }
static void whex(Wr* w, const void* d, size_t n) {
    const uint8_t* p = (const uint8_t*)d; char t[3];
    if (!n) { wstr(w, "-"); return; }
    for (size_t i = 0; i < n; i++) { t[0] = "0123456789abcdef"[p[i] >> 4]; t[1] = "0123456789abcdef"[p[i] & 15]; wput(w, t, 2); }
}
static void wint(Wr* w, long long v) { char t[32]; snprintf(t, sizeof t, "%lld", v); wstr(w, t); }
static void w8(Wr* w, uint64_t v) { uint8_t t[8]; for (int i = 0; i < 8; i++) t[i] = (uint8_t)(v >> (8 * i)); wput(w, t, 8); }
static void w4(Wr* w, uint32_t v) { uint8_t t[4]; for (int i = 0; i < 4; i++) t[i] = (uint8_t)(v >> (8 * i)); wput(w, t, 4); }
static uint64_t r8(Rd* r) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)r->p[i] << (8 * i); r->p += 8; return v; }
static uint32_t r4(Rd* r) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)r->p[i] << (8 * i); r->p += 4; return v; }
static float rf32(Rd* r) { uint32_t u = (uint32_t)r8(r); float f; memcpy(&f, &u, 4); return f; }
static double rf64(Rd* r) { uint64_t u = r8(r); double f; memcpy(&f, &u, 8); return f; }
static void wf32(Wr* w, float f) { uint32_t u; memcpy(&u, &f, 4); w8(w, u); }
static void wf64(Wr* w, double f) { uint64_t u; memcpy(&u, &f, 8); w8(w, u); }
static void wbool(Wr* w, const void* b) { uint8_t u; memcpy(&u, b, 1); w8(w, u); }
static uint64_t bits_f64(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static uint64_t bits_f32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static double f64_bits(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static float f32_bits(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint8_t* unhex(const char* s, size_t* n) {
    if (!strcmp(s, "-")) { *n = 0; return (uint8_t*)xmalloc(0); }
    size_t k = strlen(s) / 2; uint8_t* p = (uint8_t*)xmalloc(k);
    for (size_t i = 0; i < k; i++) p[i] = (uint8_t)(hexv(s[2 * i]) << 4 | hexv(s[2 * i + 1]));
    *n = k; return p;
}
'''

MAIN = r'''
static const Ops* find(const char* n) { for (int i = 0; i < NOPS; i++) if (!strcmp(OPS[i].name, n)) return &OPS[i]; fprintf(stderr, "no struct %s\n", n); abort(); }
static void flip(uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] >= 2) p[i] ^= 1; }

typedef struct { const Ops* S; void* x; uint8_t* w; size_t m; uint64_t es; uint8_t* ref; Wr val; int rounds; long bad; pthread_barrier_t bar; } Share;
static void* sharer(void* a) {
    Share* h = (Share*)a; const Ops* S = h->S;
    pthread_barrier_wait(&h->bar);
    for (int k = 0; k < h->rounds; k++) {
        int bad = 0;
        uint64_t es = S->encode_size(h->x);
        if (es != h->es) bad = 1;
        else { uint8_t* b = (uint8_t*)xmalloc(es); memset(b, 0, es); if (S->encode(h->x, b, es) != es || memcmp(b, h->ref, es)) bad = 1; free(b); }
        if (S->decode_size(h->w, h->m) != (int64_t)h->m) bad = 1;
        void* y = S->make(); Wr d = {0}; if (S->decode(h->w, h->m, y) != (int64_t)h->m) bad = 1; S->dump(&d, y, 'd');
        if (d.n != h->val.n || (d.n && memcmp(d.b, h->val.b, d.n))) bad = 1;
        free(d.b); S->drop(y);
        if (bad) __atomic_fetch_add(&h->bad, 1, __ATOMIC_RELAXED);
    }
    return NULL;
}
static void do_line(char* line, Wr* o) {
    char* tok[64]; int nt = 0; char* sp = NULL;
    for (char* t = strtok_r(line, " \n", &sp); t && nt < 64; t = strtok_r(NULL, " \n", &sp)) tok[nt++] = t;
    if (nt < 3) return;
    char op = tok[0][0]; const Ops* S = find(tok[2]);
    wstr(o, tok[1]);
    wstr(o, " ");
    if (op == 'E') { /* E id S fill pad mode canon */
        int fill = atoi(tok[3]); size_t pad = (size_t)atoi(tok[4]); char mode = tok[5][0];
        size_t n; uint8_t* c = unhex(tok[6], &n); Rd r = { c };
        void* x = S->make(); S->load(&r, x, mode);
        uint64_t es = S->encode_size(x);
        uint8_t* b = (uint8_t*)xmalloc(es + 2 * pad); memset(b, fill, es + 2 * pad);
        uint64_t ret = S->encode(x, b + pad, es);
        uint8_t* b2 = (uint8_t*)xmalloc(es); memset(b2, 0, es);
        uint64_t ret2 = S->encode(x, b2, es);
        Wr d = {0}; S->dump(&d, x, mode);
        wint(o, (long long)es); wstr(o, " "); wint(o, (long long)ret); wstr(o, " "); whex(o, b, es + 2 * pad);
        wstr(o, " "); wint(o, (long long)ret2); wstr(o, " "); whex(o, b2, es); wstr(o, " "); whex(o, d.b, d.n);
        free(b); free(b2); free(d.b); S->drop(x); free(c);
    } else if (op == 'D') { /* D id S mode start tail canon0 wire */
        char mode = tok[3][0]; size_t start = (size_t)atoi(tok[4]), tail = (size_t)atoi(tok[5]);
        size_t n, m; uint8_t* c = unhex(tok[6], &n); uint8_t* w = unhex(tok[7], &m);
        uint8_t* b = (uint8_t*)xmalloc(start + m + tail); memset(b, 0xEE, start + m + tail); memcpy(b + start, w, m);
        void* x = S->make(); if (n) { Rd r = { c }; S->load(&r, x, mode); }
        int64_t ret = S->decode(b + start, m + tail, x);
        wint(o, ret); wstr(o, " ");
        if (ret >= 0) { Wr d = {0}; S->dump(&d, x, mode); whex(o, d.b, d.n); free(d.b); } else wstr(o, "-");
        S->drop(x); free(b); free(c); free(w);
    } else if (op == 'Z') { /* Z id S start wire : decode_size of every prefix */
        size_t m; uint8_t* w = unhex(tok[4], &m);
        for (size_t k = 0; k <= m; k++) {
            uint8_t* b = (uint8_t*)xmalloc(k); memcpy(b, w, k);
            if (k) wstr(o, ",");
            wint(o, S->decode_size(b, k)); free(b);
        }
        free(w);
    } else if (op == 'T') { /* T id S wire : guarded decode of every strict prefix */
        size_t m; uint8_t* w = unhex(tok[3], &m);
        for (size_t k = 0; k < m; k++) {
            uint8_t* b = (uint8_t*)xmalloc(k); memcpy(b, w, k);
            if (S->decode_size(b, k) < 0) wstr(o, "-");
            else { void* x = S->make(); int64_t r = S->decode(b, k, x); wstr(o, r < 0 ? "-" : "+"); S->drop(x); }
            free(b);
        }
        wstr(o, ".");
        free(w);
    } else if (op == 'F') { /* F id S wire : hostile bytes, framing guarded */
        size_t m; uint8_t* w = unhex(tok[3], &m);
        uint8_t* b = (uint8_t*)xmalloc(m); memcpy(b, w, m);
        int64_t ds = S->decode_size(b, m);
        wint(o, ds); wstr(o, " ");
        if (ds > 0 && (uint64_t)ds <= m) {
            void* x = S->make(); int64_t ret = S->decode(b, m, x);
            wint(o, ret); wstr(o, " ");
            if (ret >= 0) { Wr d = {0}; S->dump(&d, x, 'd'); whex(o, d.b, d.n); free(d.b); } else wstr(o, "-");
            S->drop(x);
        } else wstr(o, "na -");
        free(b); free(w);
    } else if (op == 'L') { /* L id S wire : aliasing */
        size_t m; uint8_t* w = unhex(tok[3], &m);
        uint8_t* b = (uint8_t*)xmalloc(m); memcpy(b, w, m);
        void* x = S->make(); int64_t ret = S->decode(b, m, x);
        Wr d = {0}; S->dump(&d, x, 'd'); wint(o, ret); wstr(o, " "); whex(o, d.b, d.n); wstr(o, " ");
        flip(b, m); d.n = 0; S->dump(&d, x, 'd'); whex(o, d.b, d.n); free(d.b);
        S->drop(x); free(b); free(w);
    } else if (op == 'G') { /* G id S canon : custom getters */
        size_t n; uint8_t* c = unhex(tok[3], &n); Rd r = { c };
        void* x = S->make(); S->load(&r, x, 'd'); S->getters(o, x); S->drop(x); free(c);
        wstr(o, ".");
    } else if (op == 'S') { /* S id S canon method bits */
        size_t n; uint8_t* c = unhex(tok[3], &n); Rd r = { c };
        void* x = S->make(); S->load(&r, x, 'd');
        S->setter(x, tok[4], strtoull(tok[5], NULL, 16));
        Wr d = {0}; S->dump(&d, x, 'd'); whex(o, d.b, d.n); free(d.b); S->drop(x); free(c);
    } else if (op == 'Q') { /* Q id S step... : a history of operations on one object */
        void* x = S->make(); void* snap[64]; int ns = 0; uint8_t* keep[256]; int nk = 0;
        for (int q = 3; q < nt; q++) {
            char* a = tok[q]; char k = a[0]; a++;
            if (q > 3) wstr(o, " ");
            if (k == 'c' || k == 'a') { size_t n; uint8_t* c = unhex(a, &n); Rd r = { c }; S->load(&r, x, k == 'a' ? 'a' : 'd'); free(c); wstr(o, "ok"); }
            else if (k == 'm' || k == 'i') {
                int mi = atoi(a), it = -1; char* co = strchr(a, ':'); char* cm = strchr(a, ',');
                if (k == 'i' && cm) it = atoi(cm + 1);
                size_t n; uint8_t* c = unhex(co + 1, &n); Rd r = { c }; S->member(&r, x, mi, it); free(c); wstr(o, "ok");
            } else if (k == 'd') {
                size_t m; uint8_t* w = unhex(a, &m); keep[nk++] = w;
                int64_t ret = S->decode_size(w, m);
                if (ret >= 0) ret = S->decode(w, m, x); else ret = -1;
                wint(o, ret);
                if (ret >= 0) { wstr(o, ":"); Wr d = {0}; S->dump(&d, x, 'd'); whex(o, d.b, d.n); free(d.b); snap[ns++] = S->clone(x); }
            } else if (k == 'e' || k == 'f') {
                uint64_t es = S->encode_size(x); uint8_t* b = (uint8_t*)xmalloc(es); memset(b, k == 'f' ? 0xff : 0, es);
                uint64_t ret = S->encode(x, b, es); whex(o, b, ret <= es ? ret : es); free(b);
            } else if (k == 'n' || k == 'N') { Wr d = {0}; S->dump(&d, x, k == 'N' ? 'a' : 'd'); whex(o, d.b, d.n); free(d.b); }
        }
        wstr(o, " |");
        for (int q = 0; q < ns; q++) { Wr d = {0}; wstr(o, " "); S->dump(&d, snap[q], 'd'); whex(o, d.b, d.n); free(d.b); S->drop(snap[q]); }
        for (int q = 0; q < nk; q++) free(keep[q]);
        S->drop(x);
    } else if (op == 'M') { /* M id S canon wire : metadata, and every further entry point against the first one */
        size_t n, m; uint8_t* c = unhex(tok[3], &n); Rd r = { c }; uint8_t* w = unhex(tok[4], &m);
        void* x = S->make(); S->load(&r, x, 'd');
        wint(o, S->dynamic); wstr(o, " "); wint(o, S->dynamic ? 0 : (long long)S->size); wstr(o, " "); S->alt(o, x, w, m, tok[5]); wstr(o, "-");
        S->drop(x); free(c); free(w);
    } else if (op == 'N') { /* N id S E : enumerators by name */
        for (int i = 0; i < NNUMS; i++) if (!strcmp(NUMS[i].e, tok[3])) { wstr(o, NUMS[i].n); wstr(o, "="); wint(o, NUMS[i].v); wstr(o, " "); }
        wstr(o, ".");
    } else if (op == 'Y') { /* Y id S : a new object */
        void* x = S->make(); uint64_t es = S->encode_size(x); uint8_t* b = (uint8_t*)xmalloc(es); memset(b, 0, es);
        uint64_t ret = S->encode(x, b, es); wint(o, (long long)ret); wstr(o, " "); whex(o, b, es); free(b); S->drop(x);
    } else if (op == 'K') { wstr(o, "na");
    } else if (op == 'X') { /* X id S canon wire threads rounds : one object and one frame shared by several threads */
        size_t n, m; Share sh; memset(&sh, 0, sizeof sh); uint8_t* c = unhex(tok[3], &n); Rd r = { c }; sh.w = unhex(tok[4], &m); sh.m = m; sh.S = S;
        int nth = atoi(tok[5]); sh.rounds = atoi(tok[6]);
        sh.x = S->make(); S->load(&r, sh.x, 'd'); free(c);
        sh.es = S->encode_size(sh.x); sh.ref = (uint8_t*)xmalloc(sh.es); memset(sh.ref, 0, sh.es); S->encode(sh.x, sh.ref, sh.es);
        { void* y = S->make(); S->decode(sh.w, m, y); S->dump(&sh.val, y, 'd'); S->drop(y); }
        pthread_t* th = (pthread_t*)xmalloc(sizeof(pthread_t) * (size_t)nth);
        pthread_barrier_init(&sh.bar, NULL, (unsigned)nth);
        for (int i = 0; i < nth; i++) pthread_create(&th[i], NULL, sharer, &sh);
        for (int i = 0; i < nth; i++) pthread_join(th[i], NULL);
        wint(o, sh.bad); wstr(o, " "); whex(o, sh.ref, sh.es); wstr(o, " "); whex(o, sh.val.b, sh.val.n);
        free(th); free(sh.ref); free(sh.w); free(sh.val.b); S->drop(sh.x);
    }
}

static char** LINES; static char** OUTS; static int NL;
static int NTH;
static pthread_barrier_t BAR;
static long MISM;
static void* worker(void* a) {
    int id = (int)(intptr_t)a;
    pthread_barrier_wait(&BAR);
    for (int k = 0; k < NL; k++) {
        int i = (int)((k + (long)id * 7919) % NL);
        char* l = strdup(LINES[i]); Wr o = {0};
        do_line(l, &o);
        if (strcmp((char*)o.b, OUTS[i])) __atomic_fetch_add(&MISM, 1, __ATOMIC_RELAXED);
        free(o.b); free(l);
    }
    return NULL;
}

int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); if (!f) return 9;
    NTH = argc > 2 ? atoi(argv[2]) : 0;
    char* line = NULL; size_t cap = 0; int lc = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == '#' || line[0] == '\n') continue;
        if (NL == lc) { lc = lc * 2 + 64; LINES = (char**)realloc(LINES, sizeof(char*) * (size_t)lc); OUTS = (char**)realloc(OUTS, sizeof(char*) * (size_t)lc); }
        char* l = strdup(line); LINES[NL] = strdup(line);
        Wr o = {0}; wstr(&o, ""); do_line(l, &o); free(l);
        OUTS[NL++] = (char*)o.b;
        puts((char*)o.b); fflush(stdout);
    }
    if (NTH) {
        pthread_t* th = (pthread_t*)xmalloc(sizeof(pthread_t) * (size_t)NTH);
        pthread_barrier_init(&BAR, NULL, (unsigned)NTH);
        for (int i = 0; i < NTH; i++) pthread_create(&th[i], NULL, worker, (void*)(intptr_t)i);
        for (int i = 0; i < NTH; i++) pthread_join(th[i], NULL);
        printf("PAR %d %ld %ld\n", NTH, (long)NTH * NL, MISM);
    }
    puts("END"); fflush(stdout);
    return 0;
}
'''


def load_expr(t, q=''):
    if t.kind == 'enum':
        return None
    if t.name == 'bool':
        return '(r8(r) != 0)'
    if t.name == 'float32':
        return 'rf32(r)'
    if t.name == 'float64':
        return 'rf64(r)'
    return '(%s)r8(r)' % CT[t.name]


def walk(s):
    return s.vfields()


class C:
    def __init__(self, structs, minimal=False, enums=()):
        self.S, self.minimal, self.E = structs, minimal, enums

    def tname(self, t):
        if t.kind == 'basic':
            return CT[t.name]
        if t.kind == 'enum':
            return 'enum ' + t.name
        if t.kind == 'struct':
            return 'struct ' + t.name
        if t.kind == 'string':
            return 'char*'
        return 'struct bytes'

    def load(self, t, lv):
        if t.kind == 'struct':
            return 'load_%s(r, &%s, mode);' % (t.name, lv)
        if t.kind == 'enum':
            return '%s = (enum %s)r8(r);' % (lv, t.name)
        if t.kind == 'string':
            return '{ uint32_t n = r4(r); char* q = (char*)xmalloc(n + 1); memcpy(q, r->p, n); q[n] = 0; r->p += n; %s = q; }' % lv
        if t.kind == 'bytes':
            return '{ uint32_t n = r4(r); uint8_t* q = n ? (uint8_t*)xmalloc(n) : NULL; if (n) memcpy(q, r->p, n); r->p += n; %s.data = q; %s.length = n; }' % (lv, lv)
        return '%s = %s;' % (lv, load_expr(t))

    def dump(self, t, lv):
        if t.kind == 'struct':
            return 'dump_%s(w, &%s, mode);' % (t.name, lv)
        if t.kind == 'enum':
            return 'w8(w, sizeof(%s) > 4 ? (uint64_t)%s : (uint64_t)(uint32_t)%s);' % (lv, lv, lv)
        if t.kind == 'string':
            return '{ const char* q = %s; if (!q) q = ""; uint32_t n = (uint32_t)strlen(q); w4(w, n); wput(w, q, n); }' % lv
        if t.kind == 'bytes':
            return '{ struct bytes q = %s; w4(w, (uint32_t)q.length); wput(w, q.data, q.length); }' % lv
        if t.name == 'bool':
            return '{ bool q = %s; w8(w, q ? 1 : 0); }' % lv
        if t.name == 'float32':
            return 'wf32(w, %s);' % lv
        if t.name == 'float64':
            return 'wf64(w, %s);' % lv
        if t.name.startswith('int'):
            return 'w8(w, (uint64_t)(int64_t)%s);' % lv
        return 'w8(w, (uint64_t)%s);' % lv

    def emit(self, includes):
        o = [''.join('#include "%s"\n' % i for i in includes), COMMON]
        for s in self.S:
            n = s.name
            o.append('static void load_%s(Rd* r, struct %s* o, char mode) {\n    (void)mode; (void)r; (void)o;' % (n, n))
            # whatever a constant member holds must not matter when encoding
            o += ['    o->%s = (%s)77;' % (sn(f.name), self.tname(f.typ)) for f in s.flat() if f.kind == 'const' and f.name]
            for f in walk(s):
                t = f.typ
                arr = t.kind == 'array'
                et = t.elem if arr else t
                tn = self.tname(et)
                if not self.minimal:
                    o.append('    if (mode == \'a\') {')
                    if arr:
                        o.append('        %s tmp[%d]; memset(tmp, 0, sizeof tmp);' % (tn, t.n))
                        o.append('        for (int i = 0; i < %d; i++) { %s }' % (t.n, self.load(et, 'tmp[i]')))
                        # fewer items than the array has: the others stay, and nothing behind the given ones is read
                        o.append('        { size_t k = %d; %s* part = (%s*)malloc(sizeof(%s) * k); %s was[%d]; memcpy(part, tmp, sizeof(%s) * k); memcpy(was, o->%s, sizeof was);' % (t.n // 2, tn, tn, tn, tn, t.n, tn, sn(f.name)))
                        o.append('          %s_set_%s(o, part, k); free(part); if (memcmp(o->%s + k, was + k, sizeof(%s) * (%d - k))) { fprintf(stderr, "%s: setting %%d items changes the others", (int)k); abort(); } }' % (n, sn(f.name), sn(f.name), tn, t.n, f.name))
                        o.append('        %s_set_%s(o, tmp, %d);' % (n, sn(f.name), t.n))
                        o.append('        for (int i = 0; i < %d; i++) %s_set_%s_item(o, (uint64_t)i, tmp[i]);' % (t.n, n, sn(f.name)))
                    else:
                        o.append('        %s tmp; memset(&tmp, 0, sizeof tmp); %s %s_set_%s(o, tmp);' % (tn, self.load(et, 'tmp'), n, sn(f.name)))
                    o.append('    } else {')
                else:
                    o.append('    {')
                if arr:
                    o.append('        for (int i = 0; i < %d; i++) { %s }' % (t.n, self.load(et, 'o->%s[i]' % sn(f.name))))
                else:
                    o.append('        ' + self.load(et, 'o->' + sn(f.name)))
                o.append('    }')
            o.append('}')
            o.append('static void dump_%s(Wr* w, struct %s* o, char mode) {\n    (void)mode; (void)w; (void)o;' % (n, n))
            for f in walk(s):
                t = f.typ
                arr = t.kind == 'array'
                et = t.elem if arr else t
                tn = self.tname(et)
                if not self.minimal:
                    o.append('    if (mode == \'a\') {')
                    if arr:
                        o.append('        %s* tmp = %s_get_%s(o); uint64_t len = %s_get_%s_length(o); if (len != %d) w8(w, 0xdeadbeef);' % (tn, n, sn(f.name), n, sn(f.name), t.n))
                        o.append('        for (int i = 0; i < %d; i++) { if (i & 1) { %s } else { %s it = %s_get_%s_item(o, (uint64_t)i); %s } }' % (t.n, self.dump(et, 'tmp[i]'), tn, n, sn(f.name), self.dump(et, 'it')))
                        o.append('        (void)tmp;')
                    else:
                        o.append('        %s tmp = %s_get_%s(o); %s' % (tn, n, sn(f.name), self.dump(et, 'tmp')))
                    o.append('    } else {')
                else:
                    o.append('    {')
                if arr:
                    o.append('        for (int i = 0; i < %d; i++) { %s }' % (t.n, self.dump(et, 'o->%s[i]' % sn(f.name))))
                else:
                    o.append('        ' + self.dump(et, 'o->' + sn(f.name)))
                o.append('    }')
            o.append('}')
            o.append('static void mb_%s(Rd* r, void* x, int mi, int it) { struct %s* o = (struct %s*)x; char mode = \'d\'; (void)o; (void)r; (void)it; (void)mode; switch (mi) {' % (n, n, n))
            for i, f in enumerate(walk(s)):
                t, c = f.typ, sn(f.name)
                et = t.elem if t.kind == 'array' else t
                tn = self.tname(et)
                if t.kind != 'array':
                    st = '%s tmp; memset(&tmp, 0, sizeof tmp); %s ' % (tn, self.load(et, 'tmp')) + ('o->%s = tmp;' % c if self.minimal else '%s_set_%s(o, tmp);' % (n, c))
                else:
                    st = 'if (it >= 0) { %s tmp; memset(&tmp, 0, sizeof tmp); %s ' % (tn, self.load(et, 'tmp')) + ('o->%s[it] = tmp;' % c if self.minimal else '%s_set_%s_item(o, (uint64_t)it, tmp);' % (n, c))
                    st += ' } else { %s tmp[%d]; memset(tmp, 0, sizeof tmp); for (int i = 0; i < %d; i++) { %s } ' % (tn, t.n, t.n, self.load(et, 'tmp[i]'))
                    st += ('memcpy(o->%s, tmp, sizeof tmp);' % c if self.minimal else '%s_set_%s(o, tmp, %d);' % (n, c, t.n)) + ' }'
                o.append('        case %d: { %s break; }' % (i, st))
            o.append('    } }')
            o.append('static void al_%s(Wr* o, void* x, const uint8_t* w, size_t m, const char* fill) { (void)fill; (void)o; (void)x; (void)w; (void)m; }' % n)
            o.append('static void* mk_%s(void) { struct %s* p = (struct %s*)xmalloc(sizeof *p); memset(p, 0, sizeof *p); return p; }' % (n, n, n))
            o.append('static void* cl_%s(void* x) { struct %s* p = (struct %s*)xmalloc(sizeof *p); *p = *(struct %s*)x; return p; }' % (n, n, n, n))
            o.append('static void ld_%s(Rd* r, void* x, char m) { load_%s(r, (struct %s*)x, m); }' % (n, n, n))
            o.append('static void dp_%s(Wr* w, void* x, char m) { dump_%s(w, (struct %s*)x, m); }' % (n, n, n))
            o.append('static uint64_t es_%s(void* x) { return %s_encode_size((struct %s*)x); }' % (n, n, n))
            o.append('static uint64_t en_%s(void* x, void* b, uint64_t n) { (void)n; return %s_encode((struct %s*)x, b); }' % (n, n, n))
            o.append('static int64_t de_%s(const void* b, uint64_t n, void* x) { (void)n; return %s_decode(b, (struct %s*)x); }' % (n, n, n))
            o.append('static void gt_%s(Wr* w, void* x) { struct %s* o = (struct %s*)x; (void)o; (void)w;' % (n, n, n))
            for f, m in s.methods():
                if m.kind == 'get':
                    o.append('    wstr(w, "%s="); { Wr h = {0}; %s whex(w, h.b, 8); free(h.b); } wstr(w, " ");' % (
                        m.name, self.dump(Basic(m.typ), '%s_get_%s(o)' % (n, sn(m.name))).replace('(w,', '(&h,')))
            o.append('}')
            o.append('static void st_%s(void* x, const char* m, uint64_t v) { struct %s* o = (struct %s*)x; (void)o; (void)v; (void)m;' % (n, n, n))
            for f, m in s.methods():
                if m.kind == 'set':
                    o.append('    if (!strcmp(m, "%s")) { %s_set_%s(o, %s); return; }' % (m.name, n, sn(m.name), self.arg(m.typ)))
            o.append('}')
        o.append('typedef struct { const char* name; void* (*make)(void); void (*drop)(void*); void (*load)(Rd*, void*, char); void (*dump)(Wr*, void*, char); uint64_t (*encode_size)(void*); uint64_t (*encode)(void*, void*, uint64_t); int64_t (*decode)(const void*, uint64_t, void*); int64_t (*decode_size)(const void*, uint64_t); void (*getters)(Wr*, void*); void (*setter)(void*, const char*, uint64_t); void* (*clone)(void*); void (*member)(Rd*, void*, int, int); int dynamic; uint64_t size; void (*alt)(Wr*, void*, const uint8_t*, size_t, const char*); } Ops;')
        o.append('static const Ops OPS[] = {')
        for s in self.S:
            n = s.name
            o.append('    {"%s", mk_%s, free, ld_%s, dp_%s, es_%s, en_%s, de_%s, %s_decode_size, gt_%s, st_%s, cl_%s, mb_%s, %s_dynamic, %s_size, al_%s},' % ((n,) * 15))
        o.append('};\nenum { NOPS = %d };' % len(self.S))
        o.append(self.nums(lambda e, v: v))
        o.append(MAIN)
        return '\n'.join(o)

    def nums(self, name):
        rows = ['    {"%s", "%s", (long long)%s},' % (e.name, v[0], name(e, v[0])) for e in self.E for v in e.vals]
        return 'typedef struct { const char* e; const char* n; long long v; } Num;\nstatic const Num NUMS[] = {\n%s\n    {"", "", 0}};\nenum { NNUMS = %d };' % ('\n'.join(rows), len(rows))

    def arg(self, tn):
        if tn == 'bool':
            return '(v != 0)'
        if tn == 'float32':
            return 'f32_bits(v)'
        if tn == 'float64':
            return 'f64_bits(v)'
        return '(%s)v' % CT[tn]


class Cpp(C):
    """structs live in namespaces: full name via self.q"""

    def __init__(self, structs, minimal=False, compat=False, qual=None, conv=None, enums=()):
        super().__init__(structs, minimal, enums)
        self.compat = compat
        self.qual = qual          # type -> "::a::b::Name"
        self.conv = conv or (lambda x: x)

    def tname(self, t):
        if t.kind == 'basic':
            return CT[t.name]
        if t.kind == 'enum':
            return 'enum ' + self.qual(t)
        if t.kind == 'struct':
            return 'struct ' + self.qual(t)
        if t.kind == 'string':
            return '::std::string'
        return 'struct ::bytes'

    def load(self, t, lv):
        if t.kind == 'struct':
            return 'load_%s(r, &%s, mode);' % (t.name, lv)
        if t.kind == 'enum':
            return '%s = (enum %s)r8(r);' % (lv, self.qual(t))
        if t.kind == 'string':
            return '{ uint32_t n = r4(r); %s = ::std::string((const char*)r->p, n); r->p += n; }' % lv
        if t.kind == 'bytes':
            return '{ uint32_t n = r4(r); ::std::shared_ptr<uint8_t[]> q; if (n) { q.reset(new uint8_t[n]); memcpy(q.get(), r->p, n); } r->p += n; %s.data = q; %s.length = n; }' % (lv, lv)
        return '%s = %s;' % (lv, load_expr(t))

    def dump(self, t, lv):
        if t.kind == 'struct':
            return 'dump_%s(w, const_cast<struct %s*>(&%s), mode);' % (t.name, self.qual(t), lv)
        if t.kind == 'enum':
            return 'w8(w, (uint64_t)%s);' % lv
        if t.kind == 'string':
            return '{ const ::std::string& q = %s; w4(w, (uint32_t)q.size()); wput(w, q.data(), q.size()); }' % lv
        if t.kind == 'bytes':
            return '{ const struct ::bytes& q = %s; w4(w, (uint32_t)q.length); wput(w, q.data.get(), q.length); }' % lv
        return super().dump(t, lv)

    def emit(self, includes):
        o = [''.join('#include "%s"\n' % i for i in includes), '#include <string>\n#include <memory>\n', COMMON]
        for s in self.S:
            o.append('static void load_%s(Rd* r, struct %s* o, char mode);\nstatic void dump_%s(Wr* w, struct %s* o, char mode);' % (
                s.name, self.qual(s), s.name, self.qual(s)))
        for s in self.S:
            n, q = s.name, self.qual(s)
            o.append('static void load_%s(Rd* r, struct %s* o, char mode) {\n    (void)mode; (void)r; (void)o;' % (n, q))
            o += ['    o->%s = (%s)77;' % (self.conv(f.name), self.tname(f.typ)) for f in s.flat() if f.kind == 'const' and f.name]
            for f in walk(s):
                t = f.typ
                arr = t.kind == 'array'
                et = t.elem if arr else t
                tn = self.tname(et)
                if not self.minimal:
                    o.append('    if (mode == \'a\') {')
                    if arr:
                        o.append('        %s tmp[%d] = {};' % (tn, t.n))
                        o.append('        for (int i = 0; i < %d; i++) { %s }' % (t.n, self.load(et, 'tmp[i]')))
                        o.append('        { size_t k = %d; %s* part = new %s[k]; for (size_t i = 0; i < k; i++) part[i] = tmp[i]; o->set_%s(part, k); delete[] part; }' % (t.n // 2, tn, tn, self.conv(f.name)))
                        o.append('        o->set_%s(tmp, %d);' % (self.conv(f.name), t.n))
                        o.append('        for (int i = 0; i < %d; i++) o->set_%s_item((uint64_t)i, tmp[i]);' % (t.n, self.conv(f.name)))
                    else:
                        o.append('        %s tmp = {}; %s o->set_%s(tmp);' % (tn, self.load(et, 'tmp'), self.conv(f.name)))
                    o.append('    } else {')
                else:
                    o.append('    {')
                if arr:
                    o.append('        for (int i = 0; i < %d; i++) { %s }' % (t.n, self.load(et, 'o->%s[i]' % self.conv(f.name))))
                else:
                    o.append('        ' + self.load(et, 'o->' + self.conv(f.name)))
                o.append('    }')
            o.append('}')
            o.append('static void dump_%s(Wr* w, struct %s* o, char mode) {\n    (void)mode; (void)w; (void)o;' % (n, q))
            for f in walk(s):
                t = f.typ
                arr = t.kind == 'array'
                et = t.elem if arr else t
                if not self.minimal:
                    o.append('    if (mode == \'a\') {')
                    if arr:
                        o.append('        const auto* tmp = o->get_%s(); uint64_t len = o->get_%s_length(); if (len != %d) w8(w, 0xdeadbeef);' % (self.conv(f.name), self.conv(f.name), t.n))
                        o.append('        for (int i = 0; i < %d; i++) { if (i & 1) { %s } else { const auto& it = o->get_%s_item((uint64_t)i); %s } }' % (t.n, self.dump(et, 'tmp[i]'), self.conv(f.name), self.dump(et, 'it')))
                        o.append('        (void)tmp;')
                    else:
                        o.append('        const auto& tmp = o->get_%s(); %s' % (self.conv(f.name), self.dump(et, 'tmp')))
                    o.append('    } else {')
                else:
                    o.append('    {')
                if arr:
                    o.append('        for (int i = 0; i < %d; i++) { %s }' % (t.n, self.dump(et, 'o->%s[i]' % self.conv(f.name))))
                else:
                    o.append('        ' + self.dump(et, 'o->' + self.conv(f.name)))
                o.append('    }')
            o.append('}')
            o.append('static void mb_%s(Rd* r, void* x, int mi, int it) { struct %s* o = (struct %s*)x; char mode = \'d\'; (void)o; (void)r; (void)it; (void)mode; switch (mi) {' % (n, q, q))
            for i, f in enumerate(walk(s)):
                t, c = f.typ, self.conv(f.name)
                et = t.elem if t.kind == 'array' else t
                tn = self.tname(et)
                if t.kind != 'array':
                    st = '%s tmp = {}; %s ' % (tn, self.load(et, 'tmp')) + ('o->%s = tmp;' % c if self.minimal else 'o->set_%s(tmp);' % c)
                else:
                    st = 'if (it >= 0) { %s tmp = {}; %s ' % (tn, self.load(et, 'tmp')) + ('o->%s[it] = tmp;' % c if self.minimal else 'o->set_%s_item((uint64_t)it, tmp);' % c)
                    st += ' } else { %s tmp[%d] = {}; for (int i = 0; i < %d; i++) { %s } ' % (tn, t.n, t.n, self.load(et, 'tmp[i]'))
                    st += ('for (int i = 0; i < %d; i++) o->%s[i] = tmp[i];' % (t.n, c) if self.minimal else 'o->set_%s(tmp, %d);' % (c, t.n)) + ' }'
                o.append('        case %d: { %s break; }' % (i, st))
            o.append('    } }')
            o.append('static void al_%s(Wr* o, void* x, const uint8_t* w, size_t m, const char* fill) { (void)fill; (void)o; (void)x; (void)w; (void)m;' % n)
            if not self.compat:
                o.append('''    struct %(q)s* p = (struct %(q)s*)x; uint64_t n = p->encode_size(); uint8_t* a = (uint8_t*)xmalloc(n); uint8_t* b = (uint8_t*)xmalloc(n); memset(a, 0, n); memset(b, 0, n); { size_t z; uint8_t* u = unhex(fill, &z); memcpy(b, u, z < n ? z : n); free(u); }
    uint64_t ra = p->encode(::std::span<uint8_t>(a, n)), rb = p->encode((void*)b);
    if (ra != rb || memcmp(a, b, n)) wstr(o, "encode(void*),");
    free(a); free(b);
    for (size_t k = 0; k < 3 && k <= m; k++) {
        uint8_t* f = (uint8_t*)xmalloc(m - k); memcpy(f, w, m - k);
        if (%(q)s::decode_size(::std::span<const uint8_t>(f, m - k)) != %(q)s::decode_size((const void*)f, m - k)) wstr(o, "decode_size(const void*,uint64_t),");
        free(f);
    }
    struct %(q)s* y = new %(q)s(); struct %(q)s* z = new %(q)s(); Wr dy = {}, dz = {};
    int64_t ry = y->decode(::std::span<const uint8_t>(w, m)), rz = z->decode((const void*)w);
    dump_%(n)s(&dy, y, 'd'); dump_%(n)s(&dz, z, 'd');
    if (ry != rz || dy.n != dz.n || (dy.n && memcmp(dy.b, dz.b, dy.n))) wstr(o, "decode(const void*),");
    free(dy.b); free(dz.b); delete y; delete z;''' % {'q': q, 'n': n})
            o.append('}')
            o.append('static void* mk_%s(void) { return new %s(); }' % (n, q))
            o.append('static void* cl_%s(void* x) { return new %s(*(%s*)x); }' % (n, q, q))
            o.append('static void dr_%s(void* x) { delete (%s*)x; }' % (n, q))
            o.append('static void ld_%s(Rd* r, void* x, char m) { load_%s(r, (struct %s*)x, m); }' % (n, n, q))
            o.append('static void dp_%s(Wr* w, void* x, char m) { dump_%s(w, (struct %s*)x, m); }' % (n, n, q))
            o.append('static uint64_t es_%s(void* x) { return ((const %s*)x)->encode_size(); }' % (n, q))
            if self.compat:
                o.append('static uint64_t en_%s(void* x, void* b, uint64_t n) { (void)n; return ((const %s*)x)->encode(b); }' % (n, q))
                o.append('static int64_t de_%s(const void* b, uint64_t n, void* x) { (void)n; return ((%s*)x)->decode(b); }' % (n, q))
                o.append('static int64_t ds_%s(const void* b, uint64_t n) { return %s::decode_size(b, n); }' % (n, q))
            else:
                o.append('static uint64_t en_%s(void* x, void* b, uint64_t n) { return ((const %s*)x)->encode(::std::span<uint8_t>((uint8_t*)b, n)); }' % (n, q))
                o.append('static int64_t de_%s(const void* b, uint64_t n, void* x) { return ((%s*)x)->decode(::std::span<const uint8_t>((const uint8_t*)b, n)); }' % (n, q))
                o.append('static int64_t ds_%s(const void* b, uint64_t n) { return %s::decode_size(::std::span<const uint8_t>((const uint8_t*)b, n)); }' % (n, q))
            o.append('static void gt_%s(Wr* w, void* x) { struct %s* o = (struct %s*)x; (void)o; (void)w;' % (n, q, q))
            for f, m in s.methods():
                if m.kind == 'get':
                    o.append('    wstr(w, "%s="); { Wr h = {}; %s whex(w, h.b, 8); free(h.b); } wstr(w, " ");' % (
                        m.name, C.dump(self, Basic(m.typ), 'o->get_%s()' % self.conv(m.name)).replace('(w,', '(&h,')))
            o.append('}')
            o.append('static void st_%s(void* x, const char* m, uint64_t v) { struct %s* o = (struct %s*)x; (void)o; (void)v; (void)m;' % (n, q, q))
            for f, m in s.methods():
                if m.kind == 'set':
                    o.append('    if (!strcmp(m, "%s")) { o->set_%s(%s); return; }' % (m.name, self.conv(m.name), self.arg(m.typ)))
            o.append('}')
        o.append('typedef struct { const char* name; void* (*make)(void); void (*drop)(void*); void (*load)(Rd*, void*, char); void (*dump)(Wr*, void*, char); uint64_t (*encode_size)(void*); uint64_t (*encode)(void*, void*, uint64_t); int64_t (*decode)(const void*, uint64_t, void*); int64_t (*decode_size)(const void*, uint64_t); void (*getters)(Wr*, void*); void (*setter)(void*, const char*, uint64_t); void* (*clone)(void*); void (*member)(Rd*, void*, int, int); int dynamic; uint64_t size; void (*alt)(Wr*, void*, const uint8_t*, size_t, const char*); } Ops;')
        o.append('static const Ops OPS[] = {')
        for s in self.S:
            n = s.name
            o.append('    {"%s", mk_%s, dr_%s, ld_%s, dp_%s, es_%s, en_%s, de_%s, ds_%s, gt_%s, st_%s, cl_%s, mb_%s, %s::dynamic, %s::size, al_%s},' % ((n,) * 13 + (self.qual(s),) * 2 + (n,)))
        o.append('};\nenum { NOPS = %d };' % len(self.S))
        o.append(self.nums(lambda e, v: self.qual(e) + '::' + v))
        o.append(MAIN.replace('= {0}', '= {}'))
        return '\n'.join(o)
