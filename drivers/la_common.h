#pragma once
#include "vdrv.h"
#include <cassert>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
using namespace PANSFEM2;
static void OutV(const char* k, Vector<double> v) { std::vector<double> x; for(int i = 0; i < v.SIZE(); i++) x.push_back(v(i)); Out(k, x); }
static void OutM(const char* k, Matrix<double> m) {
    std::vector<double> x; x.push_back(m.ROW()); x.push_back(m.COL());
    for(int i = 0; i < m.ROW(); i++) for(int j = 0; j < m.COL(); j++) x.push_back(m(i, j));
    Out(k, x);
}
static Vector<double> RV(Rng& r, int n) { Vector<double> v(n); for(int i = 0; i < n; i++) v(i) = r.d(); return v; }
static Matrix<double> RM(Rng& r, int m, int n) { Matrix<double> v(m, n); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) v(i, j) = r.d(); return v; }
