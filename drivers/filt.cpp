#include <iostream>
#include <cmath>
#include <algorithm>
#include <vector>
#include "Optimize/Filter/DensityFilter.h"
#include "Optimize/Filter/HeavisideFilter.h"
#include "Optimize/Filter/SensitivityFilter.h"
#include "vdrv.h"
using namespace PANSFEM2;
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int m = atoi(argv[2]);
    for (int c = 0; c < m; c++) {
        int n = g.i(1, 9); bool ring = c % 3 == 0; std::vector<std::vector<int> > nb(n); std::vector<std::vector<double> > w(n); std::vector<double> s(n), d(n);
        std::vector<double> wk; for (int k = 0; k <= n; k++) wk.push_back(g.u(0.1, 2.0));
        int h = ring ? g.i(0, (n - 1)/2) : 0;
        for (int i = 0; i < n; i++) {
            if (ring) { for (int k = -h; k <= h; k++) { nb[i].push_back((i + k + n)%n); w[i].push_back(wk[std::abs(k)]); } }
            else { int q = g.i(1, 5); for (int k = 0; k < q; k++) { nb[i].push_back(g.i(0, n - 1)); w[i].push_back(g.u(0.1, 2.0)); } }
            s[i] = g.u(0.05, 1.0); d[i] = g.u(-2.0, 2.0);
        }
        double beta = g.u(0.5, 12.0); std::vector<int> fn; std::vector<double> fw; for (int i = 0; i < n; i++) { fn.push_back(nb[i].size()); for (int x : nb[i]) fn.push_back(x); for (double x : w[i]) fw.push_back(x); }
        Case("filters"); OutI("nb", fn); Out("w", fw); Out("s", s); Out("d", d); Out("beta", {beta});
        DensityFilter<double> a(n, nb, w); Out("dv", a.GetFilteredVariables(s)); Out("ds", a.GetFilteredSensitivitis(s, d)); Out("dv2", a.GetFilteredVariables(s));
        HeavisideFilter<double> f(n, nb, w); Out("h1", f.GetFilteredVariables(s)); f.UpdateBeta(beta); Out("hv", f.GetFilteredVariables(s)); Out("hs", f.GetFilteredSensitivitis(s, d)); Out("hv2", f.GetFilteredVariables(s));
        SensitivityFilter<double> p(n, nb, w); Out("s1", p.GetFilteredSensitivitis(s, d));
        SensitivityFilter2<double> q(n, nb, w); Out("s2", q.GetFilteredSensitivitis(s, d));
        End();
    }
    return 0;
}
