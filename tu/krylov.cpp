#include <vector>
#include <iostream>
#include <cmath>
#include <algorithm>
#include <numeric>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Solvers/CG.h"
void use(CSR<double>& A, CSR<double>& M, std::vector<double>& b, double w) {
    std::vector<double> x = subtract(b, b); xexpay(x, w, b); xeaxpy(w, x, b); zeawpbxmypcz(w, b, w, b, b, w, x); xeaxpbypcz(w, x, w, b, w, b);
    x = zeaxpby(w, b, w, b); x = zeawpbxpcy(w, b, w, b, w, b); x = zeavpbwpcxpdy(w, b, w, b, w, b, w, b);
    x = CG(A, b, 1, w); x = BiCGSTAB(A, b, 1, w); x = BiCGSTAB2(A, b, 1, w);
    CSR<double> Q = ILU0(A); x = PreILU0(M, b); x = ILU0CG(A, M, b, 1, w); x = ILU0BiCGSTAB(A, M, b, 1, w);
    x = GetDiagonal(A); x = Scaling(x, b); x = ScalingCG(A, b, 1, w); x = ScalingBiCGSTAB(A, b, 1, w);
    x = SOR(A, b, w, 1, w); x = SORCG(A, b, 1, w, w, 1, w);
}
