#include "vdrv.h"
#include "FEM/Controller/ShapeFunction.h"
using namespace PANSFEM2;
template<template<class> class S> void go(const char* nm, Rng& g, int N) {
    const int d = S<double>::d;
    int np = (int)S<double>::Points.size();
    for(int t = 0; t < N; t++) {
        Vector<double> r(d); int node = -1;
        if(t < np) { node = t; r = S<double>::Points[t]; } else for(int k = 0; k < d; k++) r(k) = t%5 == 0 ? g.d() : g.u(-1.0, 1.0);
        Vector<double> v = S<double>::N(r); Matrix<double> D = S<double>::dNdr(r);
        Case(nm); OutI("node", { node });
        std::vector<double> a; for(int k = 0; k < d; k++) a.push_back(r(k)); Out("r", a);
        a.clear(); for(int i = 0; i < v.SIZE(); i++) a.push_back(v(i)); Out("N", a);
        a.clear(); for(int k = 0; k < D.ROW(); k++) for(int i = 0; i < D.COL(); i++) a.push_back(D(k, i)); Out("D", a);
        a.clear(); for(int k = 0; k < d; k++) { double h = 1e-6; Vector<double> p = r, q = r; p(k) += h; q(k) -= h; Vector<double> x = S<double>::N(p), y = S<double>::N(q); for(int i = 0; i < v.SIZE(); i++) a.push_back((x(i) - y(i))/(2*h)); } Out("FD", a);
        End();
    }
}
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int N = atoi(argv[2])/9 + 21;
#define G(S) go<S>(#S, g, N);
    G(ShapeFunction2Line) G(ShapeFunction3Line) G(ShapeFunction3Triangle) G(ShapeFunction6Triangle) G(ShapeFunction4Square) G(ShapeFunction8Square) G(ShapeFunction4Tetrahedron) G(ShapeFunction8Cubic) G(ShapeFunction20Cubic)
}
