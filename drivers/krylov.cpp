#include <vector>
#include <iostream>
#include <numeric>
#include <cmath>
#include <algorithm>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "vdrv.h"
// argv: seed cases mode   mode 0: solvers (C06), 1: preconditioners (C07)
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int n = atoi(argv[2]), mode = atoi(argv[3]);
    std::cout.setstate(std::ios_base::failbit);
    for (int c = 0; c < n; c++) {
        int N = c == 0 ? 1 : g.i(2, 9); bool sym = c % 2 == 0, dense = g.i(0, 3) == 0;
        std::vector<std::vector<double> > D(N, std::vector<double>(N, 0.0));
        for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (dense || g.i(0, 2) == 0 || (c % 4 < 2 && j == i - 1)) {
            double v = g.u(-2, 2); D[i][j] = v; D[j][i] = sym ? v : g.u(-2, 2);
            if (!sym && !dense && g.i(0, 3) == 0) D[g.i(0, 1) ? i : j][g.i(0, 1) ? j : i] = D[i][j];
        }
        for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) if (j != i) s += std::max(fabs(D[i][j]), fabs(D[j][i])); D[i][i] = s + g.u(0.5, 4); }
        double sa = c % 5 == 2 ? 1e5 : c % 5 == 3 ? 1e-4 : 1.0, sb = c % 5 == 1 ? 1e-6 : c % 5 == 4 ? 1e4 : 1.0;
        for (auto& r : D) for (auto& e : r) e *= sa;
        LILCSR<double> L(N, N); std::vector<double> a;
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { a.push_back(D[i][j]); if (D[i][j] != 0.0) L.set(i, j, D[i][j]); }
        CSR<double> A(L);
        std::vector<double> b(N); for (auto& e : b) e = g.u(-3, 3); if (c == 5) b.assign(N, 0.0); if (c % 7 == 3) { b.assign(N, 0.0); b[g.i(0, N - 1)] = 2.0; }
        for (auto& e : b) e *= sb;
        Case(sym ? "sym" : "gen"); Out("A", a); Out("b", b);
        CSR<double> M(ILU0(A));
        double w = g.u(0.6, 1.5); int sit = g.i(1, 4); { std::vector<double> t{w, (double)sit}; Out("sor", t); }
        if (mode == 0) {
            auto all = [&](const char* tag, int itr, double eps) {
                std::string s(tag);
                auto put = [&](const char* nm, const std::vector<double>& x) { Out((s + nm).c_str(), x); };
                if (sym) { put("CG", CG(A, b, itr, eps)); put("ILU0CG", ILU0CG(A, M, b, itr, eps)); put("ScalingCG", ScalingCG(A, b, itr, eps)); if (itr < 100) put("SORCG", SORCG(A, b, itr, eps, w, sit, -1.0)); }
                put("BiCGSTAB", BiCGSTAB(A, b, itr, eps)); put("BiCGSTAB2", BiCGSTAB2(A, b, itr, eps)); put("ILU0BiCGSTAB", ILU0BiCGSTAB(A, M, b, itr, eps)); put("ScalingBiCGSTAB", ScalingBiCGSTAB(A, b, itr, eps));
            };
            all("full_", 400, 1e-9); all("coarse_", 400, 3e-2); all("mid_", 400, 1e-4);
            all("i1_", 1, 1e-13); all("i2_", 2, 1e-13); all("i3_", 3, 1e-13); all("i0_", 0, 1e-13);
            std::vector<double> af; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) af.push_back(A.get(i, j)); Out("after", af);
        } else {
            std::vector<double> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m.push_back(M.get(i, j)); Out("M", m);
            Out("pre", PreILU0(M, b)); Out("diag", GetDiagonal(A)); std::vector<double> d = GetDiagonal(A); Out("scal", Scaling(d, b));
            for (int t = 0; t < 4; t++) Out(("sor" + std::to_string(t)).c_str(), SOR(A, b, w, t, -1.0));
            Out("sorc", SOR(A, b, w, 2000, 1e-10)); Out("bafter", b);
        }
        End();
    }
    return 0;
}
