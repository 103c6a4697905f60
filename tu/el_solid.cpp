#include "fe.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/Solid.h"
#include "FEM/Equation/Truss.h"
#include "FEM/Equation/Homogenization.h"
double all() { return useS<ShapeFunction3Triangle>() + useS<ShapeFunction4Square>() + useS<ShapeFunction8Square>() + useS<ShapeFunction4Tetrahedron>() + useS<ShapeFunction8Cubic>() + useS<ShapeFunction20Cubic>()
    + useS<ShapeFunction2Line>() + useS<ShapeFunction3Line>() + useQ<Gauss1Line>() + useQ<Gauss2Line>()
    + useQ<Gauss1Triangle>() + useQ<Gauss1Square>() + useQ<Gauss4Square>() + useQ<Gauss9Square>() + useQ<Gauss1Tetrahedron>() + useQ<Gauss8Cubic>() + useQ<Gauss27Cubic>(); }
template<template<class> class S, template<class> class Q> void plane(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double b, double t, FV f, M_ D) {
    PlaneStrainStiffness<double, S, Q>(K, m, e, d, x, a, b, t);
    PlaneStrainStiffnessTotalLagrange<double, S, Q>(K, F, m, e, d, x, u, a, b, t);
    PlaneStrainStiffnessUpdatedLagrange<double, S, Q>(K, F, m, e, d, x, u, a, b, t);
    PlaneStrainMass<double, S, Q>(K, m, e, d, x, a, t);
    PlaneStrainBodyForce<double, S, Q, FV>(F, m, e, d, x, f, t);
    PlaneStressStiffness<double, S, Q>(K, m, e, d, x, a, b, t);
    PlaneStressMass<double, S, Q>(K, m, e, d, x, a, t);
    PlaneStressBodyForce<double, S, Q, FV>(F, m, e, d, x, f, t);
    HomogenizePlaneStrainBodyForce<double, S, Q>(K, m, e, d, x, a, b, t);
    HomogenizePlaneStrainConstitutive<double, S, Q>(x, e, x, x, x, a, b, t);
    HomogenizePlaneStrainCheck<double, S, Q>(x, e, x, x, x, t);
    PlaneStiffness<double, S, Q>(K, m, e, d, x, D, t);
    PlaneStrainStiffnessWilsonTaylor<double, S, Q>(K, m, e, d, x, a, b, t);
    PlaneStiffnessWilsonTaylor<double, S, Q>(K, m, e, d, x, D, t);
}
template<template<class> class S, template<class> class Q, template<class> class R> void plane2(M_& K, Map_& m, I_& e, I_& d, X_& x, double a, double b, double t, M_ D) {
    PlaneStrainStiffnessSRI<double, S, Q, R>(K, m, e, d, x, a, b, t);
    PlaneStrainStiffnessBbar<double, S, Q, R>(K, m, e, d, x, a, b, t);
    PlaneStiffnessBbar<double, S, Q, R>(K, m, e, d, x, D, t);
}
template<template<class> class S, template<class> class Q> void edge(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double t, FV f) {
    PlaneStrainSurfaceForce<double, S, Q, FV>(F, m, e, d, x, f, t);
    PlaneStressSurfaceForce<double, S, Q, FV>(F, m, e, d, x, f, t);
    PlaneStrainSurfacePressureUpdatedLagrange<double, S, Q>(K, F, m, e, d, x, u, a, t);
}
template<template<class> class S, template<class> class Q> void solid(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double b) {
    SolidLinearIsotropicElastic<double, S, Q>(K, m, e, d, x, a, b);
    SolidTotalLagrange<double, S, Q>(K, F, m, e, d, x, u, a, b);
    SolidUpdatedLagrange<double, S, Q>(K, F, m, e, d, x, u, a, b);
}
void use(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double b, double t, FV f, M_ D) {
    plane<ShapeFunction3Triangle, Gauss1Triangle>(K, F, m, e, d, x, u, a, b, t, f, D);
    plane<ShapeFunction4Square, Gauss4Square>(K, F, m, e, d, x, u, a, b, t, f, D);
    plane<ShapeFunction8Square, Gauss9Square>(K, F, m, e, d, x, u, a, b, t, f, D);
    plane2<ShapeFunction4Square, Gauss1Square, Gauss4Square>(K, m, e, d, x, a, b, t, D);
    plane2<ShapeFunction8Square, Gauss4Square, Gauss9Square>(K, m, e, d, x, a, b, t, D);
    edge<ShapeFunction2Line, Gauss1Line>(K, F, m, e, d, x, u, a, t, f);
    edge<ShapeFunction3Line, Gauss2Line>(K, F, m, e, d, x, u, a, t, f);
    solid<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(K, F, m, e, d, x, u, a, b);
    solid<ShapeFunction8Cubic, Gauss8Cubic>(K, F, m, e, d, x, u, a, b);
    solid<ShapeFunction20Cubic, Gauss27Cubic>(K, F, m, e, d, x, u, a, b);
    Truss2D<double>(K, m, e, d, x, a, b);
}
