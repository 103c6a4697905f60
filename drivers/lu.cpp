#include <vector>
#include <cmath>
#include <algorithm>
#include <numeric>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Solvers/LU.h"
#include "vdrv.h"
using namespace PANSFEM2;
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int cases = atoi(argv[2]);
    for (int c = 0; c < cases; c++) {
        int n = c == 0 ? 1 : g.i(1, 8); std::vector<int> s(n); std::iota(s.begin(), s.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(s[i], s[g.i(0, i)]);
        Matrix<double> A(n, n); std::vector<double> a; double sc = c % 5 == 4 ? 1e5 : 1.0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = sc*(c % 3 == 0 ? (s[i] == j ? g.u(1, 4)*(g.i(0, 1) ? 1 : -1) : 0.0) : c % 3 == 1 ? (s[i] == j ? (g.i(0, 1) ? 1 : -1)*g.u(6, 9) : g.u(-1, 1)) : (g.i(0, 3) == 0 && s[i] != j ? 0.0 : g.u(-2, 2) + (s[i] == j ? 5 : 0)));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.push_back(A(i, j));
        Vector<double> b(n); std::vector<double> bv; for (int i = 0; i < n; i++) { b(i) = g.u(-3, 3); bv.push_back(b(i)); }
        Case("lu"); Out("A", a); Out("b", bv);
        std::vector<int> p(n, -7); LU(A, p); std::vector<double> f; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f.push_back(A(i, j));
        Out("LU", f); OutI("piv", p); SolveLU(A, b, p); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(b(i)); Out("x", x);
        End();
    }
    return 0;
}
