#include "fe.h"
#include "FEM/Equation/Beam.h"
#include "FEM/Equation/Shell.h"
double all() { return useS<ShapeFunction4Square>() + useS<ShapeFunction8Square>() + useS<ShapeFunction2Line>() + useS<ShapeFunction3Line>() + useQ<Gauss1Line>() + useQ<Gauss2Line>() + useQ<Gauss4Square>() + useQ<Gauss1Square>(); }
template<template<class> class S, template<class> class Q, template<class> class Z> void shell(M_& K, Map_& m, I_& e, I_& d, X_& x, double a, double b, double t) {
    ShellLinearIsotropicElastic<double, S, Q, Z>(K, m, e, d, x, a, b, t);
    ShellLinearIsotropicElastic2<double, S, Q, Z>(K, m, e, d, x, a, b, t);
}
void use(M_& K, Map_& m, I_& e, I_& d, X_& x, double a, double b, double t) {
    shell<ShapeFunction4Square, Gauss4Square, Gauss2Line>(K, m, e, d, x, a, b, t);
    shell<ShapeFunction8Square, Gauss4Square, Gauss2Line>(K, m, e, d, x, a, b, t);
    shell<ShapeFunction4Square, Gauss1Square, Gauss1Line>(K, m, e, d, x, a, b, t);
    BeamLinearIsotropicElastic<double, ShapeFunction2Line, Gauss1Line, Gauss4Square>(K, m, e, d, x, x, x, a, b, t, t);
    BeamLinearIsotropicElastic<double, ShapeFunction3Line, Gauss2Line, Gauss4Square>(K, m, e, d, x, x, x, a, b, t, t);
}
