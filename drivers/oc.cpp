#include <iostream>
#include <cmath>
#include <algorithm>
#include <vector>
#include <numeric>
#include "Optimize/Solver/OC.h"
#include "vdrv.h"
using namespace PANSFEM2;
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int cases = atoi(argv[2]);
    std::cout.setstate(std::ios_base::failbit);
    for (int c = 0; c < cases; c++) {
        int n = c == 0 ? 1 : g.i(1, 6); bool bounded = c % 3 == 2;
        double iota = c % 2 ? 0.5 : g.u(0.3, 1.0), l0 = c % 4 == 3 ? 0.05 : 0.0, l1 = c % 5 == 2 ? 50.0 : 1.0e4, leps = c % 2 ? 1e-3 : 1e-7, mv = c % 7 == 3 ? 1.0 : g.u(0.05, 0.6);
        std::vector<double> x(n), df(n), dg(n), lo(n, 0.0), hi(n, 1.0);
        for (int i = 0; i < n; i++) { x[i] = g.u(0.05, 1.0); df[i] = -g.u(0.01, 20.0); dg[i] = g.u(0.2, 3.0); }
        if (c % 6 == 1) x[g.i(0, n - 1)] = 1.0;
        if (bounded) for (int i = 0; i < n; i++) { lo[i] = x[i]*g.u(0.9, 1.0); hi[i] = x[i] + (1.0 - x[i])*g.u(0.0, 0.2); }
        double V = 0; for (int i = 0; i < n; i++) V += dg[i]*x[i]; V *= g.u(0.7, 1.2);
        auto con = [&](const std::vector<double>& y) { double s = -V; for (int i = 0; i < n; i++) s += dg[i]*y[i]; return s; };
        Case("oc"); Out("x", x); Out("df", df); Out("dg", dg); Out("xmin", lo); Out("xmax", hi); Out("par", std::vector<double>{iota, l0, l1, leps, mv, V});
        OC<double> o(n, iota, l0, l1, leps, mv, lo, hi);
        double f = g.u(-5, 5), f2 = g.i(0, 1) ? f*(1.0 + g.u(-3e-5, 3e-5)) : g.u(-5, 5);
        Out("conv0", (double)o.IsConvergence(f));
        o.UpdateVariables(x, f, df, con(x), dg, con); Out("xk", x); Out("f", std::vector<double>{f, f2}); Out("conv", (double)o.IsConvergence(f2));
        std::vector<double> x1 = x; o.UpdateVariables(x, f2, df, con(x), dg, con); Out("xk2", x); Out("conv2", (double)o.IsConvergence(f));
        End();
    }
    return 0;
}
