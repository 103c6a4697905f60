#include <iostream>
#include <cmath>
#include <algorithm>
#include <vector>
#include <numeric>
#define private public
#include "Optimize/Solver/MMA.h"
#include "Optimize/Solver/CONLIN.h"
#include "vdrv.h"
using namespace PANSFEM2;
typedef std::vector<double> V;
template<class O> void go(const char* nm, Rng& g, O& o, int n, int m, const V& lo, const V& hi, int steps) {
    V x(n); for (int j = 0; j < n; j++) x[j] = lo[j] + (hi[j] - lo[j])*g.u(0, 1); if (g.i(0, 3) == 0) x[g.i(0, n - 1)] = lo[0] <= 0 ? hi[0] : hi[0];
    for (int j = 0; j < n; j++) x[j] = std::min(std::max(x[j], lo[j]), hi[j]);
    Out("steps", (double)steps);
    for (int s = 0; s < steps; s++) {
        V df(n), gv(m); std::vector<V> dg(m, V(n)); V flat; for (auto& e : df) e = g.i(0, 5) ? g.u(-4, 4) : 0.0; for (auto& e : gv) e = g.u(-1, 0.3); for (auto& r : dg) for (auto& e : r) { e = g.i(0, 5) ? g.u(-2, 2) : 0.0; flat.push_back(e); }
        std::string t = std::to_string(s); double f = g.i(0, 3) ? g.u(-3, 3) : (s % 2 ? 1.0000001 : 1.0);
        Out(("x" + t).c_str(), x); Out(("df" + t).c_str(), df); Out(("g" + t).c_str(), gv); Out(("dg" + t).c_str(), flat); Out(("f" + t).c_str(), f); Out(("conv" + t).c_str(), (double)o.IsConvergence(f));
        if (s && g.i(0, 2) == 0) { for (int j = 0; j < n; j++) x[j] = std::min(std::max(lo[j] + (hi[j] - lo[j])*g.u(0, 1), lo[j]), hi[j]); Out(("x" + t).c_str(), x); }
        o.UpdateVariables(x, f, df, gv, dg); Out(("y" + t).c_str(), x);
    }
    End();
}
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int cases = atoi(argv[2]);
    std::cout.setstate(std::ios_base::failbit);
    for (int c = 0; c < cases; c++) {
        int n = g.i(1, 5), m = g.i(1, 3); if (c % 4 == 0) n = m + 1; if (c % 4 == 1) n = m;
        V a(m, 0.0), cc(m, 1000.0), d(m, 1.0), lo(n), hi(n); if (c % 3 == 1) for (int i = 0; i < m; i++) { a[i] = g.u(0, 1); cc[i] = g.u(1, 20); d[i] = g.u(0, 2); }
        for (int j = 0; j < n; j++) { lo[j] = g.u(0.05, 1); hi[j] = lo[j] + (c % 7 == 3 ? g.u(4, 9) : c % 7 == 5 ? g.u(0.02, 0.1) : g.u(0.3, 3)); if (c % 5 == 2) { lo[j] = 0.01; hi[j] = 1.0; } }
        V par; bool set = c % 3 == 2;
        if (set) par = V{c % 4 < 2 ? g.u(0.01, 0.3) : 1e-5*g.u(1, 100), g.u(0.05, 0.5), g.u(0.1, 0.8), g.u(0.2, 0.9), g.u(0.4, 0.9), g.u(1.05, 1.5), 1e-5};
        Case(c % 2 ? "CONLIN" : "MMA"); Out("a", a); Out("c", cc); Out("d", d); Out("xmin", lo); Out("xmax", hi); Out("par", par);
        if (c % 2) { CONLIN<double> o(n, m, 1.0, a, cc, d, lo, hi); if (set) o.SetParameters(par[2], par[6]); go("CONLIN", g, o, n, m, lo, hi, 2); }
        else { MMA<double> o(n, m, 1.0, a, cc, d, lo, hi); if (set) o.SetParameters(par[0], par[1], par[2], par[3], par[4], par[5], par[6]); go("MMA", g, o, n, m, lo, hi, g.i(1, 4)); }
    }
    for (int c = 0; c < 2*cases; c++) {
        int k = g.i(1, 5); std::vector<V> A(k, V(k)); V b(k), flat; bool sparse = g.i(0, 1);
        for (auto& r : A) for (auto& e : r) e = sparse && g.i(0, 1) ? 0.0 : g.u(-3, 3);
        if (sparse) for (int i = 0; i < k; i++) A[i][(i + c) % k] += 5; for (auto& e : b) e = g.u(-3, 3);
        for (auto& r : A) for (auto& e : r) flat.push_back(e);
        V one(1, 1.0); Case("solve"); Out("A", flat); Out("b", b);
        if (c % 2) { MMA<double> o(1, 1, 1.0, one, one, one, one, one); Out("x", o.solvels(A, b)); } else { CONLIN<double> o(1, 1, 1.0, one, one, one, one, one); Out("x", o.solvels(A, b)); }
        End();
    }
    return 0;
}
