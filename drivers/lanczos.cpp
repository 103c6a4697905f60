#include <vector>
#include <iostream>
#include <numeric>
#include <cmath>
#include <algorithm>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
#include "vdrv.h"
// argv: seed cases
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int n = atoi(argv[2]);
    std::cout.setstate(std::ios_base::failbit);
    for (int c = 0; c < n; c++) {
        int m = c == 0 ? 1 : g.i(1, 7); double sc = c % 5 == 3 ? 1e6 : c % 5 == 4 ? 1e-5 : 1.0;
        std::vector<double> al(m), be(m); for (auto& e : al) e = sc*g.u(-3, 3); for (auto& e : be) e = sc*g.u(0.2, 2);
        be[m - 1] = g.i(0, 1) ? 0.0 : sc*g.u(0.0, 0.3);
        if (c == 1) { al.assign(m, 0.0); be.assign(m, 0.0); }
        if (c % 7 == 2) for (auto& e : al) e = sc*g.i(-2, 2);
        if (c % 7 == 5) for (int i = 0; i + 1 < m; i++) if (g.i(0, 2) == 0) be[i] = 0.0;
        Case("tri"); Out("al", al); Out("be", be);
        std::vector<double> ev; for (int k = 0; k < m; k++) ev.push_back(BisectionMethod(al, be, k)); Out("ev", ev);
        for (int k = 0; k < m; k++) { double sh = ev[k] + sc*(g.i(0, 1) ? 1e-6 : -1e-7); Out(("sh" + std::to_string(k)).c_str(), sh); Out(("vec" + std::to_string(k)).c_str(), InversePowerMethod(al, be, sh)); }
        int N = g.i(1, 5); std::vector<std::vector<double> > q(m, std::vector<double>(N)); std::vector<double> qf, y(m); for (auto& r : q) for (auto& e : r) { e = g.d(); qf.push_back(e); } for (auto& e : y) e = g.d();
        Out("y", y); Out("q", qf); Out("rec", ReconvertVector(y, q));
        End();
    }
    for (int c = 0; c < n; c++) {
        int N = c == 0 ? 1 : g.i(2, 8), m = c == 0 ? 1 : g.i(1, std::min(N, 5)); bool spd = c % 3 != 0; if (c % 4 == 1) m = std::min(N, 6);
        double sa = c % 5 == 2 ? 1e4 : c % 5 == 3 ? 1e-3 : 1.0;
        std::vector<std::vector<double> > A(N, std::vector<double>(N, 0.0)), B = A;
        for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) {
            A[i][j] = A[j][i] = sa*(i == j ? (spd ? 8.0 + 4.0*i + g.u(0, 3) : g.u(-4, 4)) : (g.i(0, 2) ? g.u(-1, 1) : 0.0));
            B[i][j] = B[j][i] = i == j ? 2.0 + g.u(0, 4) : (g.i(0, 2) ? g.u(-0.3, 0.3) : 0.0);
        }
        double sigma = spd && c % 6 == 5 ? sa*g.u(60, 90) : c % 2 ? sa*g.u(-1, 0.5) : 0.0;
        LILCSR<double> a(N, N), b(N, N); std::vector<double> af, bf;
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { af.push_back(A[i][j]); bf.push_back(B[i][j]); if (A[i][j] != 0.0) a.set(i, j, A[i][j]); if (B[i][j] != 0.0) b.set(i, j, B[i][j]); }
        CSR<double> K(a), M(b);
        Case("matrix"); Out("A", af); Out("B", bf); Out("n", N); Out("m", m); Out("sigma", sigma); Out("spd", spd);
        auto put = [&](const char* nm, const std::vector<double>& e, const std::vector<std::vector<double> >& v) { Out((std::string("ev_") + nm).c_str(), e); std::vector<double> f; for (auto& r : v) for (auto& x : r) f.push_back(x); Out((std::string("vv_") + nm).c_str(), f); };
        std::vector<double> e; std::vector<std::vector<double> > v;
        Lanczos(K, e, v, m); put("Lanczos", e, v);
        RestartLanczos(K, e, v, m); put("RestartLanczos", e, v);
        if (spd) {
            ShiftedInvertLanczos(K, e, v, m, sigma); put("ShiftedInvertLanczos", e, v);
            GeneralShiftedInvertLanczos(K, M, e, v, m, sigma); put("GeneralShiftedInvertLanczos", e, v);
            GeneralRestartShiftedInvertLanczos(K, M, e, v, m, sigma); put("GeneralRestartShiftedInvertLanczos", e, v);
        }
        std::vector<double> f; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) f.push_back(K.get(i, j)); Out("after", f);
        End();
    }
    return 0;
}
