#include "la_common.h"
#include <memory>
#include <cstring>
// random histories of construction, copy, assignment and destruction against std::vector mirrors
template<class X> struct Slot { X* p; std::vector<double> m; int r, c; };
static bool same(Slot<Vector<double>>& s) { if(s.p->SIZE() != s.r) return false; for(int i = 0; i < s.r; i++) if((*s.p)(i) != s.m[i]) return false; return true; }
static bool same(Slot<Matrix<double>>& s) { if(s.p->ROW() != s.r || s.p->COL() != s.c) return false; for(int i = 0; i < s.r; i++) for(int j = 0; j < s.c; j++) if((*s.p)(i, j) != s.m[i*s.c + j]) return false; return true; }
static void poke(Slot<Vector<double>>& s, Rng& r) { if(s.r) { int i = r.i(0, s.r - 1); double v = r.d(); (*s.p)(i) = v; s.m[i] = v; } }
static void poke(Slot<Matrix<double>>& s, Rng& r) { if(s.r*s.c) { int i = r.i(0, s.r - 1), j = r.i(0, s.c - 1); double v = r.d(); (*s.p)(i, j) = v; s.m[i*s.c + j] = v; } }
static void mk(Slot<Vector<double>>& s, Rng& r, int k) { void* q = ::operator new(sizeof(Vector<double>)); memset(q, 0x41, sizeof(Vector<double>)); if(k == 0) { s.p = new(q) Vector<double>(); s.r = 0; } else { s.r = r.i(0, 4); s.p = new(q) Vector<double>(s.r); } s.c = 1; s.m.assign(s.r, 0.0); }
static void mk(Slot<Matrix<double>>& s, Rng& r, int k) { void* q = ::operator new(sizeof(Matrix<double>)); memset(q, 0x41, sizeof(Matrix<double>)); if(k == 0) { s.p = new(q) Matrix<double>(); s.r = 0; s.c = 0; } else { s.r = r.i(0, 3); s.c = r.i(0, 3); s.p = new(q) Matrix<double>(s.r, s.c); } s.m.assign(s.r*s.c, 0.0); }
template<class X> bool history(Rng& r) {
    const int K = 4; Slot<X> s[K]; bool ok = true;
    for(int i = 0; i < K; i++) { mk(s[i], r, i%2); }
    for(int step = 0; step < 40; step++) {
        int a = r.i(0, K - 1), b = r.i(0, K - 1);
        switch(r.i(0, 4)) {
            case 0: delete s[a].p; mk(s[a], r, r.i(0, 1)); break;
            case 1: *s[a].p = *s[b].p; s[a].m = s[b].m; s[a].r = s[b].r; s[a].c = s[b].c; break;
            case 2: if(a != b) { delete s[a].p; s[a].p = new X(*s[b].p); s[a].m = s[b].m; s[a].r = s[b].r; s[a].c = s[b].c; } break;
            case 3: poke(s[a], r); break;
            case 4: { X t = *s[a].p; *s[b].p = t; s[b].m = s[a].m; s[b].r = s[a].r; s[b].c = s[a].c; } break;
        }
        for(int i = 0; i < K; i++) ok = ok && same(s[i]);
    }
    for(int i = 0; i < K; i++) delete s[i].p;
    return ok;
}
int main(int argc, char** argv) {
    int seed = atoi(argv[1]), N = atoi(argv[2]);
    for(int t = 0; t < N; t++) {
        Case("history"); Out("seed", seed*1000 + t);
        Rng r(seed*1000 + t); bool ok = history<Vector<double>>(r) && history<Matrix<double>>(r);
        Out("ok", ok ? 1 : 0); End();
    }
}
