#include <vector>
#include <cmath>
#include <algorithm>
#include <numeric>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Solvers/LU.h"
using namespace PANSFEM2;
void use(Matrix<double>& A, Vector<double>& b, std::vector<int>& p) { LU(A, p); SolveLU(A, b, p); }
