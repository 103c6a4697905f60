#include <vector>
#include <numeric>
#include <cmath>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
void use(LILCSR<double>& a, CSR<double>& b, std::vector<double>& v, double s) {
    LILCSR<double> e; LILCSR<double> z(3, 3); LILCSR<double> l(b); CSR<double> f; CSR<double> y(3, 3); CSR<double> c(a);
    a.set(0, 0, s); a.get(0, 0); b.set(0, 0, s); b.get(0, 0);
    std::vector<double> x = a*v; x = b*v;
    LILCSR<double> a1 = a + a, a2 = a - a, a3 = s*a, a4 = a*s, a5 = a/s;
    CSR<double> b1 = b + b, b2 = b - b, b3 = s*b, b4 = b*s, b5 = b/s;
}
