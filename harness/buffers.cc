// Entry points over the window buffers of utils/: every operation of every buffer kind behind one C function.
#include "indicators.h"
#include <cassert>
#include <cstdlib>
#include <new>
#include "utils/ringbuf.hh"
#include "utils/localbuffer.h"
#include "utils/minmax.h"
extern "C" {
#include "utils/buffer.h"
}

enum { NEWEST, GET, CGET, STEP, SET, MAXV, MINV, AGEMAX, AGEMIN, RESIZE, COPY, PHYS, PUSH, QPUSH, SUM, BSIZE, BAT, STEPALL, MAXGREATER };

template <class R> static double common(R &r, int op, int i, double x) {
    switch (op) {
    case NEWEST: return (double)r;
    case CGET: { const R &c = r; return c[i]; }
    case STEP: r.step(); return 0;
    case SET: r = x; return 0;
    case MAXV: return *r.find_max(i);
    case MINV: return *r.find_min(i);
    case AGEMAX: return r.iterator_to_age(r.find_max(i));
    case AGEMIN: return r.iterator_to_age(r.find_min(i));
    case MAXGREATER: return *r.template find_max<std::greater<TI_REAL>>(i);
    case PHYS: { double s = 0; for (TI_REAL *p = r.phbegin(); p != r.phend(); ++p) s += *p; return s; }
    }
    return 0;
}
template <int N> static double flat(ringbuf<N> &r, int op, int i, double x) {
    if (op == GET) return r[i];
    if (op == COPY) { ringbuf<N> c = r; c.step(); c = x; double v = c[i]; return v; }
    return common(r, op, i, x);
}
struct lb {
    int index; int progress;
    BUFFERS(
        BUFFER(a)
        BUFFER(b)
        BUFFER(c)
    )
};
struct H { int kind; void *p; };

extern "C" H *vp_new(int kind, int a, int b, int c) {
    H *h = (H *)malloc(sizeof(H));
    h->kind = kind; h->p = 0;
    if (kind == 1) h->p = new ringbuf<1>;
    else if (kind == 2) h->p = new ringbuf<2>;
    else if (kind == 3) h->p = new ringbuf<3>;
    else if (kind == 4) h->p = new ringbuf<4>;
    else if (kind == 5) h->p = new ringbuf<5>;
    else if (kind == 7) h->p = new ringbuf<7>;
    else if (kind == 13) h->p = new ringbuf<13>;
    else if (kind == 100) h->p = new ringbuf<0>(a);
    else if (kind == 200) h->p = ti_buffer_new(a);
    else if (kind == 300) {
        lb *s = (lb *)calloc(1, sizeof(lb));
        BUFFER_INIT(s, a, a);
        BUFFER_INIT(s, b, b);
        BUFFER_INIT(s, c, c);
        int size = BUFFERS_SIZE(s);
        s = (lb *)realloc(s, sizeof(lb) + sizeof(TI_REAL) * size);
        h->p = s;
    }
    return h;
}
extern "C" double vp_op(H *h, int op, int i, double x) {
    switch (h->kind) {
    case 1: return flat(*(ringbuf<1> *)h->p, op, i, x);
    case 2: return flat(*(ringbuf<2> *)h->p, op, i, x);
    case 3: return flat(*(ringbuf<3> *)h->p, op, i, x);
    case 4: return flat(*(ringbuf<4> *)h->p, op, i, x);
    case 5: return flat(*(ringbuf<5> *)h->p, op, i, x);
    case 7: return flat(*(ringbuf<7> *)h->p, op, i, x);
    case 13: return flat(*(ringbuf<13> *)h->p, op, i, x);
    case 100: {
        ringbuf<0> &r = *(ringbuf<0> *)h->p;
        if (op == GET) return r[i];
        if (op == RESIZE) { r.resize(i); return 0; }
        return common(r, op, i, x);
    }
    case 200: {
        ti_buffer *b = (ti_buffer *)h->p;
        if (op == PUSH) ti_buffer_push(b, x);
        if (op == QPUSH) ti_buffer_qpush(b, x);
        if (op == SUM) return b->sum;
        if (op == BSIZE) return b->size;
        if (op == GET) return ti_buffer_get(b, i);
        return 0;
    }
    case 300: {
        lb *s = (lb *)h->p; int w = i / 64, d = i % 64 - 32;
        if (op == BSIZE) return BUFFERS_SIZE(s);
        if (op == PUSH) { if (w == 0) { BUFFER_PUSH(s, a, x) } else if (w == 1) { BUFFER_PUSH(s, b, x) } else { BUFFER_PUSH(s, c, x) } }
        if (op == GET) return w == 0 ? BUFFER_AT1(s, a, d) : w == 1 ? BUFFER_AT1(s, b, d) : BUFFER_AT1(s, c, d);
        if (op == BAT) { double r = 0; if (w == 0) { BUFFER_AT(r, s, a, d) } else if (w == 1) { BUFFER_AT(r, s, b, d) } else { BUFFER_AT(r, s, c, d) } return r; }
        return 0;
    }
    }
    return 0;
}
extern "C" void vp_free(H *h) {
    switch (h->kind) {
    case 1: delete (ringbuf<1> *)h->p; break;
    case 2: delete (ringbuf<2> *)h->p; break;
    case 3: delete (ringbuf<3> *)h->p; break;
    case 4: delete (ringbuf<4> *)h->p; break;
    case 5: delete (ringbuf<5> *)h->p; break;
    case 7: delete (ringbuf<7> *)h->p; break;
    case 13: delete (ringbuf<13> *)h->p; break;
    case 100: delete (ringbuf<0> *)h->p; break;
    case 200: ti_buffer_free((ti_buffer *)h->p); break;
    case 300: free(h->p); break;
    }
    free(h);
}
// three buffers of different kinds stepped together
extern "C" double vp_stepall(H *a, H *b, H *c) {
    step(*(ringbuf<3> *)a->p, *(ringbuf<0> *)b->p, *(ringbuf<2> *)c->p);
    return 0;
}
extern "C" double vp_min(double a, double b) { return MIN(a, b); }
extern "C" double vp_max(double a, double b) { return MAX(a, b); }
