#include <vector>
#include <numeric>
#include <cmath>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "vdrv.h"
template<class M> void OutS(const char* k, const M& m) {
    std::vector<double> d; for (int i = 0; i < m.ROWS; i++) for (int j = 0; j < m.COLS; j++) d.push_back(m.get(i, j));
    Out(k, d);
}
template<class M> void Fill(M& m, Rng& g, int n, std::vector<double>* h, int pattern) {
    for (int t = 0; t < n && m.ROWS > 0 && m.COLS > 0; t++) {
        int i = g.i(0, m.ROWS - 1), j = pattern == 1 ? m.COLS - 1 - t % m.COLS : pattern == 2 ? t % m.COLS : g.i(0, m.COLS - 1);
        double v = g.i(0, 5) == 0 ? 0.0 : g.u(-5, 5);
        bool r = m.set(i, j, v);
        if (h) { h->push_back(i); h->push_back(j); h->push_back(v); h->push_back(r); }
    }
}
template<class M> std::vector<double> Dense(const M& m) { std::vector<double> d; for (int i = 0; i < m.ROWS; i++) for (int j = 0; j < m.COLS; j++) d.push_back(m.get(i, j)); return d; }
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int n = atoi(argv[2]);
    for (int c = 0; c < n; c++) {
        int r = g.i(1, 7), k = g.i(1, 7), q = g.i(0, 3*(r + k)); if (c < 3) q = 0;
        double s = g.u(0.5, 3)*(g.i(0, 1) ? 1 : -1);
        std::vector<double> x(k); for (auto& e : x) e = g.u(-3, 3);
        std::vector<double> h, h2;
        Case("lil"); { std::vector<double> d{(double)r, (double)k}; Out("dims", d); std::vector<double> ss{s}; Out("s", ss); Out("x", x); }
        {
            LILCSR<double> a(r, k), b(r, k); Fill(a, g, q, &h, c % 3); Fill(b, g, g.i(0, r + k), nullptr, 0);
            Out("hist", h); Out("b", Dense(b)); OutS("get", a); Out("mv", a*x); OutS("addr", a + b); OutS("subr", a - b); OutS("mulr", c % 2 ? a*s : s*a); OutS("divr", a/s);
            CSR<double> cc(a); OutS("conv", cc); Out("mvc", cc*x); OutS("after", a); LILCSR<double> bb(cc); OutS("back", bb); Out("mvd", bb*x);
        }
        End();
        Case("csr"); { std::vector<double> d{(double)r, (double)k}; Out("dims", d); std::vector<double> ss{s}; Out("s", ss); Out("x", x); }
        {
            CSR<double> a(r, k), b(r, k); Fill(a, g, q, &h2, c % 3); Fill(b, g, g.i(0, r + k), nullptr, 0);
            Out("hist", h2); Out("b", Dense(b)); OutS("get", a); Out("mv", a*x); OutS("addr", a + b); OutS("subr", a - b); OutS("mulr", c % 2 ? a*s : s*a); OutS("divr", a/s);
            LILCSR<double> bb(a); OutS("conv", bb); Out("mvc", bb*x); OutS("after", a); CSR<double> cc(bb); OutS("back", cc); Out("mvd", cc*x);
        }
        End();
    }
    return 0;
}
