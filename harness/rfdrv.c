// rfdrv: request/response driver around the real Rayforce runtime.
// fd 3: requests, fd 4: responses.  Frame: u32 length, payload.
// Requests:  'E' src   evaluate source text, answer a structural dump of the value
//            'F' src   evaluate, answer the text the formatter makes of it
//            'P' src   parse only, answer dump of the parse tree
//            'S' u16 n name value   bind global <name> to an injected value
//            'Y' n ids   names of symbol ids
//            'L' u32 n src   evaluate src n times (dropping results), answer live heap bytes
//            'H' u32 runs program   run a program of allocator operations on the real heap (see heap_prog)
//            'W'       listen on a free port of the loopback, answer it and serve
//            'G' src   evaluate through the length-delimited entry (ray_eval_str), dump
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "core/rayforce.h"
#include "core/poll.h"
#include "core/chrono.h"
#include "core/ipc.h"
#include "core/runtime.h"
#include "core/eval.h"
#include "core/symbols.h"
#include "core/format.h"
#include "core/string.h"
#include "core/error.h"
#include "core/ops.h"
#include "core/util.h"
#include "core/heap.h"
#include "core/parse.h"
#include "core/nfo.h"
#include "core/binary.h"
#include "core/items.h"
#include "core/misc.h"

static unsigned char *out;
static size_t out_len, out_cap;

static void put(const void *p, size_t n) {
    if (out_len + n > out_cap) {
        out_cap = (out_len + n) * 2 + 4096;
        out = realloc(out, out_cap);
        if (!out) _exit(97);
    }
    if (n) memcpy(out + out_len, p, n);
    out_len += n;
}
static void put8(int v) { unsigned char c = (unsigned char)v; put(&c, 1); }
static void put32(unsigned v) { put(&v, 4); }
static void put64(long long v) { put(&v, 8); }

static int esize(int t) {
    switch (t) {
        case TYPE_B8: case TYPE_U8: case TYPE_C8: return 1;
        case TYPE_I16: return 2;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: return 4;
        case TYPE_I64: case TYPE_SYMBOL: case TYPE_TIMESTAMP: case TYPE_F64: case TYPE_ENUM: return 8;
        case TYPE_GUID: return 16;
    }
    return -1;
}

static void dump(obj_p o, int depth) {
    int t, i;
    if (depth > 200) { put8(121); return; }
    if (o == NULL) { put8(120); return; }
    t = (int)(signed char)o->type;
    put8(t);
    if (t == TYPE_NULL) return;
    if (t == TYPE_ERR) {
        err_code_t c = err_code(o);
        lit_p m = err_msg(o);
        put8(c);
        const char *nm = err_name(c);
        put32(strlen(nm)); put(nm, strlen(nm));
        put32(strlen(m)); put(m, strlen(m));
        return;
    }
    if (t < 0) {
        int s = esize(-t);
        switch (-t) {
            case TYPE_GUID: put((void *)AS_U8(o), 16); return;
            case TYPE_UNARY: case TYPE_BINARY: case TYPE_VARY: case TYPE_LAMBDA: {
                obj_p f = obj_fmt(o, B8_TRUE);
                put32(f->len); put(AS_C8(f), f->len); drop_obj(f);
                return;
            }
            default:
                if (s < 0) { return; }
                if (s == 1) put(&o->u8, 1);
                else if (s == 2) put(&o->i16, 2);
                else if (s == 4) put(&o->i32, 4);
                else put(&o->i64, 8);
                return;
        }
    }
    if (t == TYPE_TABLE || t == TYPE_DICT) {
        dump(AS_LIST(o)[0], depth + 1);
        dump(AS_LIST(o)[1], depth + 1);
        return;
    }
    if (t == TYPE_ENUM) {
        obj_p k = ray_key(o), v = ray_value(o);
        dump(k, depth + 1); dump(v, depth + 1);
        drop_obj(k); drop_obj(v);
        return;
    }
    if (t == TYPE_LIST || (t >= TYPE_PARTEDLIST && t < TYPE_TABLE)) {
        put64(o->len);
        for (i = 0; i < o->len; i++) dump(AS_LIST(o)[i], depth + 1);
        return;
    }
    if (t == TYPE_MAPFILTER || t == TYPE_MAPGROUP || t == TYPE_MAPCOMMON) {
        put64(2);
        dump(AS_LIST(o)[0], depth + 1); dump(AS_LIST(o)[1], depth + 1);
        return;
    }
    if (t == TYPE_MAPLIST) {
        obj_p v = ray_value(o);
        dump(v, depth + 1);
        drop_obj(v);
        return;
    }
    if (t == TYPE_LAMBDA || t == TYPE_UNARY || t == TYPE_BINARY || t == TYPE_VARY) {
        obj_p f = obj_fmt(o, B8_TRUE);
        put32(f->len); put(AS_C8(f), f->len); drop_obj(f);
        return;
    }
    int s = esize(t);
    if (s < 0) { return; }
    put64(o->len);
    put(AS_C8(o), (size_t)o->len * s);
}

static unsigned char *in;
static size_t in_pos, in_len;
static void need(size_t n) { if (in_pos + n > in_len) _exit(96); }
static void get(void *p, size_t n) { need(n); memcpy(p, in + in_pos, n); in_pos += n; }

static obj_p undump(void) {
    signed char t; long long n, i; unsigned l;
    get(&t, 1);
    if (t == TYPE_NULL) return NULL_OBJ;
    if (t == -TYPE_SYMBOL) {
        get(&l, 4);
        if (l == 0xffffffffu) return null(TYPE_SYMBOL);
        need(l);
        obj_p r = symbol((lit_p)(in + in_pos), l); in_pos += l;
        return r;
    }
    if (t == -TYPE_GUID) { guid_t g; get(g, 16); return guid(g); }
    if (t < 0) {
        obj_p r = atom(-t);
        memset(&r->i64, 0, 8);
        get(&r->i64, esize(-t));
        return r;
    }
    if (t == TYPE_TABLE) { obj_p k = undump(), v = undump(); return table(k, v); }
    if (t == TYPE_DICT) { obj_p k = undump(), v = undump(); return dict(k, v); }
    get(&n, 8);
    if (t == TYPE_LIST) {
        obj_p r = vector(TYPE_LIST, n);
        for (i = 0; i < n; i++) AS_LIST(r)[i] = undump();
        return r;
    }
    if (t == TYPE_SYMBOL) {
        // u32 dictionary size, entries, then u32 index per element
        unsigned m, k;
        get(&m, 4);
        long long *ids = malloc(sizeof(long long) * (m + 1));
        for (k = 0; k < m; k++) {
            get(&l, 4);
            if (l == 0xffffffffu) { ids[k] = NULL_I64; continue; }
            need(l);
            ids[k] = symbols_intern((lit_p)(in + in_pos), l); in_pos += l;
        }
        obj_p r = vector(TYPE_SYMBOL, n);
        for (i = 0; i < n; i++) { get(&k, 4); AS_SYMBOL(r)[i] = ids[k]; }
        free(ids);
        return r;
    }
    obj_p r = vector(t, n);
    get(AS_C8(r), (size_t)n * esize(t));
    return r;
}

static int rd(int fd, void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r <= 0) return -1;
        c += r; n -= r;
    }
    return 0;
}
static int wr(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t r = write(fd, c, n);
        if (r <= 0) return -1;
        c += r; n -= r;
    }
    return 0;
}

static long long live_bytes(void) {
#ifdef SYS_MALLOC
    struct mallinfo2 m = mallinfo2();
    return (long long)m.uordblks + (long long)m.hblkhd;
#else
    long long n = 0;
    int i;
    block_p b;
    heap_gc();
    // free blocks as a whole, with their headers, so that the number does not depend on how the free memory is split
    for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++)
        for (b = VM->heap->freelist[i]; b; b = b->next) n += (1ll << i);
    return (long long)VM->heap->memstat.heap - n;
#endif
}

// ---- allocator programs
// op u8, slot u16, size i64: 1 alloc, 2 realloc, 3 free, 4 gc, 5 start worker <slot> (borrow), 6 run on worker <slot> (0 = main), 7 merge worker <slot>,
// 8 account (no worker out), 9 free everything, 10 alloc and free at once <slot> blocks of <size>
// Every block is filled with a pattern of its own, looked at before it is given back and after it is resized.
#define HSLOTS 4096
#define HWORKERS 4
static struct hslot { unsigned char *p; long long n; unsigned long long seed; } hs[HSLOTS];
static unsigned char hpat(unsigned long long seed, long long i) {
    unsigned long long x = seed + (unsigned long long)i * 0x9E3779B97F4A7C15ull;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull;
    return (unsigned char)(x >> 56);
}
#define HDENSE 4096
// positions looked at: the first and last HDENSE bytes and one byte in every 4093 (509 bytes of a block above 1 MB)
#define HEACH(n, i, body) do { long long i; \
        for (i = 0; i < (n) && i < HDENSE; i++) { body; } \
        for (i = HDENSE; i < (n) - HDENSE; i += (n) > (1 << 20) ? (n) / 509 : 4093) { body; } \
        for (i = (n) - HDENSE > HDENSE ? (n) - HDENSE : HDENSE; i < (n); i++) { body; } } while (0)
static void hfill(struct hslot *s) { HEACH(s->n, i, s->p[i] = hpat(s->seed, i)); }
static long long hbad(struct hslot *s) { HEACH(s->n, i, if (s->p[i] != hpat(s->seed, i)) return i); return -1; }
// after a resize the bytes both sizes have must be the old ones where the old fill put them
static long long hbad2(struct hslot *s, long long n) { HEACH(s->n, i, if (i < n && s->p[i] != hpat(s->seed, i)) return i); return -1; }
static long long hblock(long long n) { long long b = 32; while (b < n + 16) b *= 2; return b; }
static char hmsg[256];
static int hover(int k) {
    int j;
    for (j = 0; j < HSLOTS; j++)
        if (j != k && hs[j].p && hs[j].p < hs[k].p + hs[k].n && hs[k].p < hs[j].p + hs[j].n) return j;
    return -1;
}
#ifndef SYS_MALLOC
static heap_p hw[HWORKERS];
static long long hbase;
static long long hlive(void) { int j; long long n = 0; for (j = 0; j < HSLOTS; j++) if (hs[j].p) n += hblock(hs[j].n); return n; }
static int heap_prog(unsigned n, unsigned run) {
    heap_p mh = VM->heap;
    unsigned k;
    int j, rc = 0, outw = 0;
    for (j = 1; j < HWORKERS; j++) if (!hw[j]) hw[j] = heap_create(j);
    for (k = 0; k < n && !rc; k++) {
        unsigned char op; unsigned short sl; long long sz, b;
        get(&op, 1); get(&sl, 2); get(&sz, 8);
        struct hslot *s = &hs[sl % HSLOTS];
#define HFAIL(...) do { snprintf(hmsg, sizeof hmsg, __VA_ARGS__); rc = 1; } while (0)
        switch (op) {
            case 1:
                if (s->p) break;
                s->p = heap_alloc(sz);
                if (sz == 0) { if (s->p) HFAIL("op %u: alloc(0) gave a block", k); break; }
                if (!s->p) { HFAIL("op %u: alloc(%lld) gave nothing", k, sz); break; }
                s->n = sz;
                if ((size_t)s->p & 15) HFAIL("op %u: alloc(%lld) not aligned: %p", k, sz, s->p);
                if ((j = hover(sl % HSLOTS)) >= 0) HFAIL("op %u: alloc(%lld) overlaps the live block of slot %d (%lld bytes)", k, sz, j, hs[j].n);
                s->seed = k * 977ull + run * 131071ull + sl;
                if (!rc) hfill(s);
                break;
            case 2: {
                if (!s->p || sz == 0) break;
                if ((b = hbad(s)) >= 0) { HFAIL("op %u: block of slot %d (%lld bytes) changed at %lld before its resize", k, sl, s->n, b); break; }
                long long o = s->n;
                s->p = heap_realloc(s->p, sz);
                if (!s->p) { HFAIL("op %u: realloc(%lld -> %lld) gave nothing", k, o, sz); break; }
                if ((size_t)s->p & 15) HFAIL("op %u: realloc(%lld -> %lld) not aligned", k, o, sz);
                if ((b = hbad2(s, sz)) >= 0) HFAIL("op %u: realloc(%lld -> %lld) lost byte %lld", k, o, sz, b);
                s->n = sz;
                if ((j = hover(sl % HSLOTS)) >= 0) HFAIL("op %u: realloc(%lld -> %lld) overlaps the live block of slot %d (%lld bytes)", k, o, sz, j, hs[j].n);
                s->seed = k * 977ull + run * 131071ull + sl + 7;
                if (!rc) hfill(s);
                break;
            }
            case 3:
                if (!s->p) break;
                if ((b = hbad(s)) >= 0) { HFAIL("op %u: block of slot %d (%lld bytes) changed at %lld", k, sl, s->n, b); break; }
                heap_free(s->p); s->p = NULL;
                break;
            case 4: heap_gc(); break;
            case 5:
                sl %= HWORKERS;
                if (sl == 0 || VM->heap != mh || (outw & (1 << sl))) break;
                heap_borrow(hw[sl]); outw |= 1 << sl;
                break;
            case 6:
                sl %= HWORKERS;
                if (sl && !(outw & (1 << sl))) break;
                VM->heap = sl ? hw[sl] : mh;
                break;
            case 7:
                sl %= HWORKERS;
                if (!(outw & (1 << sl))) break;
                VM->heap = mh;
                heap_merge(hw[sl]); outw &= ~(1 << sl);
                break;
            case 8:
                if (outw) break;
                b = live_bytes();
                if (b - hbase != hlive()) HFAIL("op %u: %lld bytes are in use, the live blocks have %lld", k, b - hbase, hlive());
                for (j = 0; j < HSLOTS && !rc; j++)
                    if (hs[j].p && (b = hbad(&hs[j])) >= 0) HFAIL("op %u: block of slot %d (%lld bytes) changed at %lld", k, j, hs[j].n, b);
                break;
            case 9:
                for (j = 0; j < HSLOTS && !rc; j++)
                    if (hs[j].p) {
                        if ((b = hbad(&hs[j])) >= 0) { HFAIL("op %u: block of slot %d (%lld bytes) changed at %lld", k, j, hs[j].n, b); break; }
                        heap_free(hs[j].p); hs[j].p = NULL;
                    }
                break;
            case 10: {
                static void *t[256];
                int m = sl % 256;
                if (sz <= 0) break;
                for (j = 0; j < m; j++) t[j] = heap_alloc(sz);
                for (j = 0; j < m; j++) { if (t[j]) { memset(t[j], 0x5a, sz < 256 ? sz : 256); } else HFAIL("op %u: alloc(%lld) gave nothing", k, sz); heap_free(t[j]); }
                break;
            }
        }
    }
    VM->heap = mh;
    for (j = 1; j < HWORKERS; j++) if (outw & (1 << j)) heap_merge(hw[j]);
    if (!rc) {
        long long b;
        for (j = 0; j < HSLOTS && !rc; j++)
            if (hs[j].p) {
                if ((b = hbad(&hs[j])) >= 0) HFAIL("at the end: block of slot %d (%lld bytes) changed at %lld", j, hs[j].n, b);
                heap_free(hs[j].p); hs[j].p = NULL;
            }
        b = live_bytes();
        if (!rc && b != hbase) HFAIL("run %u: everything is given back, %lld bytes more than at the start are in use", run, b - hbase);
    }
    return rc;
}
#endif

// The clock of the timers can be made to stand still: what is due when does not depend on how fast this machine is
static long long fake_ms = 0;
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (id == CLOCK_REALTIME && fake_ms) {
        ts->tv_sec = fake_ms / 1000;
        ts->tv_nsec = fake_ms % 1000 * 1000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

int main(int argc, char **argv) {
    unsigned l;
    size_t in_cap = 0;
    int i;
    int fi = dup(3), fo = dup(4);
    close(3); close(4);
    if (fi < 0 || fo < 0) return 95;
    signal(SIGPIPE, SIG_IGN);
    (void)i;
    if (runtime_create(argc, argv) == NULL) return 94;
    for (;;) {
        if (rd(fi, &l, 4)) break;
        if (l + 1 > in_cap) { in_cap = (size_t)l * 2 + 64; in = realloc(in, in_cap); if (!in) _exit(97); }
        if (rd(fi, in, l)) break;
        in[l] = 0; in_len = l; in_pos = 1;
        out_len = 0; put32(0);
        switch (in[0]) {
            case 'E': { obj_p r = eval_str((lit_p)in + 1); dump(r, 0); drop_obj(r); break; }
            case 'G': {
                obj_p s = string_from_str((lit_p)in + 1, l - 1);
                obj_p r = ray_eval_str(s, NULL_OBJ); drop_obj(s); dump(r, 0); drop_obj(r); break;
            }
            case 'F': {
                obj_p r = eval_str((lit_p)in + 1);
                obj_p f = obj_fmt(r, B8_TRUE);
                dump(f, 0); drop_obj(f); drop_obj(r); break;
            }
            case 'P': { obj_p r = parse_str((lit_p)in + 1); dump(r, 0); drop_obj(r); break; }
            case 'Q': {
                // parse a text held in a block of exactly its size plus the given bytes after it; the result and its printed form
                unsigned n; get(&n, 4); need(n);
                char *c = malloc(l - 1 - 4 ? l - 1 - 4 : 1);
                memcpy(c, in + in_pos, l - 1 - 4);
                obj_p s = string_from_str(c, n);
                obj_p info = nfo(string_from_str("q", 1), s);
                obj_p r = parse(c, n, info);
                drop_obj(info);
                free(c);
                dump(r, 0);
                obj_p f = obj_fmt(r, B8_TRUE);
                dump(f, 0); drop_obj(f); drop_obj(r); break;
            }
            case 'S': {
                unsigned short nl; get(&nl, 2); need(nl);
                obj_p k = symbol((lit_p)(in + in_pos), nl); in_pos += nl;
                obj_p v = undump();
                dump(v->type == TYPE_ERR ? v : NULL_OBJ, 0);
                if (v->type == TYPE_ERR) { drop_obj(v); drop_obj(k); break; }
                obj_p r = binary_set(k, v);
                drop_obj(k); drop_obj(v); drop_obj(r);
                break;
            }
            case 'Y': {
                unsigned n, j; long long id; get(&n, 4);
                for (j = 0; j < n; j++) {
                    get(&id, 8);
                    if (id == NULL_I64) { put32(0xffffffffu); continue; }
                    str_p s = str_from_symbol(id); unsigned sl = symbol_strlen(id);
                    put32(sl); put(s, sl);
                }
                break;
            }
            case 'L': {
                unsigned n, j; get(&n, 4);
                for (j = 0; j < n; j++) { obj_p r = eval_str((lit_p)in + in_pos); drop_obj(r); }
                put64(live_bytes());
                break;
            }
#ifndef SYS_MALLOC
            case 'H': {
                // u32 runs, u32 operations, the operations; answer: u8 failed, message, heap bytes after each run
                unsigned runs, n, r; get(&runs, 4); get(&n, 4);
                size_t at = in_pos;
                int bad = 0;
                long long sizes[64];
                memset(hs, 0, sizeof hs); hmsg[0] = 0;
                hbase = live_bytes();
                for (r = 0; r < runs && r < 64 && !bad; r++) { in_pos = at; bad = heap_prog(n, r); sizes[r] = VM->heap->memstat.heap; }
                put8(bad); put32(strlen(hmsg)); put(hmsg, strlen(hmsg)); put32(r);
                put(sizes, r * 8);
                break;
            }
#endif
            case 'W': {
                // become a server: answer the port, then run the event loop until killed
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                struct sockaddr_in a; socklen_t al = sizeof a;
                i64_t id = ipc_listen(runtime_get()->poll, 0);
                if (id == -1 || getsockname((int)poll_get_selector(runtime_get()->poll, id)->fd, (struct sockaddr *)&a, &al)) _exit(92);
                put32(ntohs(a.sin_port));
                l = out_len - 4; memcpy(out, &l, 4);
                if (wr(fo, out, out_len)) _exit(0);
                poll_run(runtime_get()->poll);
                _exit(0);
            }
            case 'T': {
                // u8 what, i64 ms: from now on the clock stands at ms; 1: the timers which are due are called, answer: ms to wait for the next one
                unsigned char what; get(&what, 1); get(&fake_ms, 8);
                put64(what ? timer_next_timeout(runtime_get()->poll->timers) : 0);
                break;
            }
            default: _exit(93);
        }
        l = out_len - 4; memcpy(out, &l, 4);
        if (wr(fo, out, out_len)) break;
    }
    _exit(0);
}
