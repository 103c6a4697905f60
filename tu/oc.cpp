#include <iostream>
#include <cmath>
#include <algorithm>
#include <vector>
#include "Optimize/Solver/OC.h"
using namespace PANSFEM2;
// the constraint: a caller's function object, represented by its contract
struct Constraint { double operator()(const std::vector<double>& x) const { return x.size(); } };
void use(std::vector<double>& x, std::vector<double> d, Constraint g) {
    OC<double> o(3, 0.5, 0.0, 1.0e4, 1.0e-3, 0.15, d, d); o.UpdateVariables(x, 1.0, d, 1.0, d, g); o.IsConvergence(1.0);
}
