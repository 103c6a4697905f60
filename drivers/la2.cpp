#include "la_common.h"
int main(int argc, char** argv) {
    Rng r(atoi(argv[1])); int N = atoi(argv[2]);
    for(int t = 0; t < N; t++) {
        int n = 1 + t%6; Matrix<double> A = RM(r, n, n); for(int i = 0; i < n; i++) A(i, i) += (t%3)*5.0;
        if(t%7 == 3 && n > 1) A(0, 0) = 0.0;
        Case("det"); OutM("A", A); int p = r.i(0, n - 1), q = r.i(0, n - 1); OutI("pq", {p, q});
        Out("det", A.Determinant()); if(n > 1) OutM("minor", A.Cofactor(p, q));
        if(std::fabs(A.Determinant()) > 1e-3) OutM("inv", A.Inverse()); else OutM("inv", A);
        OutM("A2", A); End();
    }
}
