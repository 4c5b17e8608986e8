// Replays one scenario against the real library.  Reads commands from a file, writes results to stdout.
//   call NAME VARIANT SIZE OUTSIZE NOPT opts... NIN (values: SIZE doubles each)      VARIANT: plain|ref
//   start NAME NOPT opts...
//   new ID NAME NOPT opts...          run ID SIZE OUTSIZE NIN values...   grun (generic run)
//   free ID   gfree ID   info ID   progress ID
//   failat N (N-th allocation from now fails, 0 = off)    allocs (print number since failat)   mark / live
//   snap / snapdiff (writable data of the library)
//   find LEN bytes...
#include "indicators.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <new>

static const uint64_t SENT = 0x7ff8deadbeef1234ull;

#ifdef INTERPOSE
extern "C" void *__libc_malloc(size_t); extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t); extern "C" void __libc_free(void *);
static bool g_on = false; static long g_fail = 0, g_count = 0, g_live = 0;
static bool fails() { if (!g_on) return false; ++g_count; return g_fail && g_count == g_fail; }
struct H { uint64_t tag; uint64_t pad; };
extern "C" void *malloc(size_t n) { if (fails()) return nullptr; void *p = __libc_malloc(n); if (p && g_on) { ++g_live; memset(p, 0xC5, n); } return p; }
extern "C" void *calloc(size_t a, size_t b) { if (fails()) return nullptr; void *p = __libc_calloc(a, b); if (p && g_on) ++g_live; return p; }
extern "C" void *realloc(void *q, size_t n) { if (fails()) return nullptr; void *p = __libc_realloc(q, n); if (!q && p && g_on) ++g_live; return p; }
extern "C" void free(void *p) { if (p && g_on) --g_live; __libc_free(p); }
#define ON g_on = true
#define OFF g_on = false
#else
#define ON
#define OFF
#endif
extern char __data_start, _end;
extern "C" const char *vp_regcheck(const char *) __attribute__((weak));

static std::vector<std::string> tok; static size_t ti = 0;
static std::string S() { if (ti >= tok.size()) { exit(90); } return tok[ti++]; }
static long I() { return strtol(S().c_str(), 0, 10); }
static double D() { return strtod(S().c_str(), 0); }
static double *arr(int n) { double *p = (double *)malloc(n ? n * sizeof(double) : 1); return p; }
struct St { ti_stream *s; const ti_indicator_info *i; };
static void print_outs(std::vector<double *> &o, int n) {
    for (auto p : o) { printf("out"); for (int i = 0; i < n; ++i) { uint64_t b; memcpy(&b, p + i, 8); if (b == SENT) printf(" U"); else printf(" %.17g", p[i]); } printf("\n"); }
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); if (!f) return 91;
    static char buf[1 << 16];
    while (fscanf(f, "%65535s", buf) == 1) tok.push_back(buf);
    fclose(f);
    std::map<int, St> st;
    std::vector<char> snapv;
    while (ti < tok.size()) {
        std::string c = S();
        if (c == "call") {
            std::string n = S(), v = S(); int size = I(), outs = I(), no = I();
            const ti_indicator_info *inf = ti_find_indicator(n.c_str());
            if (!inf) { printf("noind\n"); continue; }
            double *op = arr(no); for (int i = 0; i < no; ++i) op[i] = D();
            int ni = I(); std::vector<double *> in, out;
            for (int k = 0; k < ni; ++k) { double *p = arr(size); for (int i = 0; i < size; ++i) p[i] = D(); in.push_back(p); }
            for (int k = 0; k < inf->outputs; ++k) { double *p = arr(outs); for (int i = 0; i < outs; ++i) memcpy(p + i, &SENT, 8); out.push_back(p); }
            std::vector<double> ocp(op, op + no);
            std::vector<std::vector<double>> cp; for (auto p : in) cp.emplace_back(p, p + size);
            double **ia = (double **)malloc(sizeof(double *) * (ni ? ni : 1)), **oa = (double **)malloc(sizeof(double *) * (out.size() ? out.size() : 1));
            for (int k = 0; k < ni; ++k) ia[k] = in[k]; for (size_t k = 0; k < out.size(); ++k) oa[k] = out[k];
            int r = -1; const char *exc = nullptr;
            try { ON; r = (v == "ref" ? inf->indicator_ref : inf->indicator)(size, ia, op, oa); OFF; }
            catch (std::exception &e) { OFF; exc = "exception"; } catch (...) { OFF; exc = "exception"; }
            if (exc) printf("escaped %s\n", exc); else printf("ret %d\n", r);
            print_outs(out, outs);
            if (no && memcmp(ocp.data(), op, no * 8)) printf("input-modified\n");
            for (int k = 0; k < ni; ++k) if (size && memcmp(cp[k].data(), in[k], size * 8)) printf("input-modified\n");
            fflush(stdout);
            for (auto p : in) free(p); for (auto p : out) free(p); free(op); free(ia); free(oa);
        } else if (c == "start") {
            std::string n = S(); int no = I(); double *op = arr(no); for (int i = 0; i < no; ++i) op[i] = D();
            printf("start %d\n", ti_find_indicator(n.c_str())->start(op)); free(op);
        } else if (c == "new") {
            int id = I(); std::string n = S(); int no = I(); double *op = arr(no); for (int i = 0; i < no; ++i) op[i] = D();
            const ti_indicator_info *inf = ti_find_indicator(n.c_str()); ti_stream *s = nullptr; int r = -1; bool esc = false;
            std::vector<double> ocp(op, op + no);
            try { ON; r = inf->stream_new(op, &s); OFF; } catch (...) { OFF; esc = true; }
            if (esc) printf("escaped exception\n"); else printf("ret %d\n", r);
            if (no && memcmp(ocp.data(), op, no * 8)) printf("input-modified\n");
            if (r == 1 && s) printf("handed out a stream with code 1\n");
            free(op); if (r == 0) st[id] = {s, inf}; fflush(stdout);
        } else if (c == "run" || c == "grun") {
            int id = I(), size = I(), outs = I(), ni = I(); St &x = st.at(id);
            std::vector<double *> in, out;
            for (int k = 0; k < ni; ++k) { double *p = arr(size); for (int i = 0; i < size; ++i) p[i] = D(); in.push_back(p); }
            for (int k = 0; k < x.i->outputs; ++k) { double *p = arr(outs); for (int i = 0; i < outs; ++i) memcpy(p + i, &SENT, 8); out.push_back(p); }
            double **ia = (double **)malloc(sizeof(double *) * (ni ? ni : 1)), **oa = (double **)malloc(sizeof(double *) * (out.size() ? out.size() : 1));
            for (int k = 0; k < ni; ++k) ia[k] = in[k]; for (size_t k = 0; k < out.size(); ++k) oa[k] = out[k];
            std::vector<std::vector<double>> cp; for (auto p : in) cp.emplace_back(p, p + size);
            int r = -1; bool esc = false;
            try { ON; r = c == "run" ? x.i->stream_run(x.s, size, ia, oa) : ti_stream_run(x.s, size, ia, oa); OFF; } catch (...) { OFF; esc = true; }
            if (esc) printf("escaped exception\n"); else printf("ret %d\n", r); print_outs(out, outs);
            for (int k = 0; k < ni; ++k) if (size && memcmp(cp[k].data(), in[k], size * 8)) printf("input-modified\n");
            fflush(stdout);
            for (auto p : in) free(p); for (auto p : out) free(p); free(ia); free(oa);
        } else if (c == "free" || c == "gfree") {
            int id = I(); St &x = st.at(id); ON; if (c == "free") x.i->stream_free(x.s); else ti_stream_free(x.s); OFF; st.erase(id); printf("freed\n");
        } else if (c == "info") { int id = I(); const ti_indicator_info *q = ti_stream_get_info(st.at(id).s); printf("info %s\n", q ? q->name : "(null)"); }
        else if (c == "progress") { int id = I(); printf("progress %d\n", ti_stream_get_progress(st.at(id).s)); }
        else if (c == "find") { int n = I(); char *p = (char *)malloc(n + 1); for (int i = 0; i < n; ++i) p[i] = (char)I(); p[n] = 0;
            const ti_indicator_info *q = ti_find_indicator(p); printf("find %s\n", q ? (q->name ? q->name : "(noname)") : "(none)"); free(p); }
        else if (c == "table") { int n = ti_indicator_count(); printf("table %d", n); for (int i = 0; i <= n; ++i) printf(" %s", ti_indicators[i].name ? ti_indicators[i].name : "(null)"); printf("\n"); }
        else if (c == "reg") { std::string n = S(); printf("reg %s %s\n", n.c_str(), vp_regcheck ? vp_regcheck(n.c_str()) : "?"); }
#ifdef INTERPOSE
        else if (c == "failat") { g_fail = I(); g_count = 0; }
        else if (c == "mark") g_live = 0;
        else if (c == "live") printf("live %ld\n", g_live);
        else if (c == "allocs") printf("allocs %ld\n", g_count);
#endif
        else if (c == "snap") { snapv.assign(&__data_start, &_end); }
        else if (c == "snapdiff") { size_t d = 0; const char *b = &__data_start;
            for (size_t i = 0; i < snapv.size(); ++i) { const char *q = b + i;
#ifdef INTERPOSE
                if ((q >= (char *)&g_on && q < (char *)(&g_on + 1)) || (q >= (char *)&g_fail && q < (char *)(&g_fail + 1)) || (q >= (char *)&g_count && q < (char *)(&g_count + 1)) || (q >= (char *)&g_live && q < (char *)(&g_live + 1))) continue;
#endif
                if (q >= (char *)&ti && q < (char *)(&ti + 1)) continue;
                if (q >= (char *)&snapv && q < (char *)(&snapv + 1)) continue;
                if (q >= (char *)&tok && q < (char *)(&tok + 1)) continue;
                if (q >= buf && q < buf + sizeof buf) continue;
                if (snapv[i] != *q) ++d; }
            printf("snapdiff %zu\n", d); }
        else { printf("badcmd %s\n", c.c_str()); return 92; }
        fflush(stdout);
    }
    return 0;
}
