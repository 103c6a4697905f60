#include <iostream>
#include <cmath>
#include <algorithm>
#include <numeric>
#include <vector>
#include "Optimize/Solver/MMA.h"
#include "Optimize/Solver/CONLIN.h"
using namespace PANSFEM2;
void use(std::vector<double>& x, std::vector<double> d, std::vector<std::vector<double> > dg) {
    MMA<double> o(3, 1, 1.0, d, d, d, d, d); o.SetParameters(1, 1, 1, 1, 1, 1, 1); o.UpdateVariables(x, 1.0, d, d, dg); o.IsConvergence(1.0);
    CONLIN<double> q(3, 1, 1.0, d, d, d, d, d); q.SetParameters(1, 1); q.UpdateVariables(x, 1.0, d, d, dg); q.IsConvergence(1.0);
}
