#include <iostream>
#include <cmath>
#include <algorithm>
#include <vector>
#include "Optimize/Filter/DensityFilter.h"
#include "Optimize/Filter/HeavisideFilter.h"
#include "Optimize/Filter/SensitivityFilter.h"
using namespace PANSFEM2;
void use(int n, std::vector<std::vector<int> > nb, std::vector<std::vector<double> > w, std::vector<double> s, std::vector<double> d) {
    DensityFilter<double> a(n, nb, w); a.GetFilteredVariables(s); a.GetFilteredSensitivitis(s, d);
    HeavisideFilter<double> h(n, nb, w); h.UpdateBeta(2.0); h.GetFilteredVariables(s); h.GetFilteredSensitivitis(s, d); HeavisideFilter<double> h0;
    SensitivityFilter<double> c(n, nb, w); c.GetFilteredSensitivitis(s, d);
    SensitivityFilter2<double> e(n, nb, w); e.GetFilteredSensitivitis(s, d);
}
