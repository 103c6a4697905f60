#include "vdrv.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
using namespace PANSFEM2;
template<template<class> class S> void go(const char* nm) {
    Case(nm); OutI("N", { S<double>::N }); std::vector<double> x, w;
    for(auto p : S<double>::Points) for(int k = 0; k < p.SIZE(); k++) x.push_back(p(k));
    for(auto p : S<double>::Weights) for(double v : p) w.push_back(v);
    Out("x", x); Out("w", w); End();
}
int main() {
#define G(S) go<S>(#S);
    G(Gauss1Line) G(Gauss2Line) G(Gauss1Square) G(Gauss4Square) G(Gauss9Square) G(Gauss8Cubic) G(Gauss27Cubic) G(NewtonCotes1Line) G(NewtonCotes3Line) G(NewtonCotes5Line) G(NewtonCotes7Line) G(Gauss1Triangle) G(Gauss3Triangle) G(Gauss1Tetrahedron)
}
