#include <vector>
#include <iostream>
#include <cmath>
#include <algorithm>
#include <numeric>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
void use(CSR<double>& A, CSR<double>& B, std::vector<double>& b, std::vector<std::vector<double> >& q, double w) {
    xexda(b, w); xeyda(b, b, w); w = BisectionMethod(b, b, 1); b = InversePowerMethod(b, b, w); b = ReconvertVector(b, q);
    Lanczos(A, b, q, 1); RestartLanczos(A, b, q, 1); ShiftedInvertLanczos(A, b, q, 1, w); GeneralShiftedInvertLanczos(A, B, b, q, 1, w); GeneralRestartShiftedInvertLanczos(A, B, b, q, 1, w);
}
