#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
using namespace PANSFEM2;
template<template<class> class S> std::vector<Vector<double> > sfPoints() { return S<double>::Points; }
template<template<class> class S> int sfDim() { return S<double>::d; }
template<template<class> class S> int sfCount() { return S<double>::n; }
template<template<class> class S> Vector<double> sfN(Vector<double> r) { return S<double>::N(r); }
template<template<class> class S> Matrix<double> sfdN(Vector<double> r) { return S<double>::dNdr(r); }
template<template<class> class Q> int qCount() { return Q<double>::N; }
template<template<class> class Q> std::vector<Vector<double> > qPoints() { return Q<double>::Points; }
template<template<class> class Q> std::vector<std::vector<double> > qWeights() { return Q<double>::Weights; }
template<template<class> class S> double use() { Vector<double> r; return sfN<S>(r).SIZE() + sfdN<S>(r).ROW() + sfPoints<S>().size() + sfDim<S>() + sfCount<S>(); }
template<template<class> class Q> double quad() { return qCount<Q>() + qPoints<Q>().size() + qWeights<Q>().size(); }
double all() {
    return use<ShapeFunction2Line>() + use<ShapeFunction3Line>() + use<ShapeFunction3Triangle>() + use<ShapeFunction6Triangle>() + use<ShapeFunction4Square>() + use<ShapeFunction8Square>()
        + use<ShapeFunction4Tetrahedron>() + use<ShapeFunction8Cubic>() + use<ShapeFunction20Cubic>()
        + quad<Gauss1Line>() + quad<Gauss2Line>() + quad<Gauss1Triangle>() + quad<Gauss3Triangle>() + quad<Gauss1Square>() + quad<Gauss4Square>() + quad<Gauss9Square>()
        + quad<Gauss1Tetrahedron>() + quad<Gauss8Cubic>() + quad<Gauss27Cubic>()
        + quad<NewtonCotes1Line>() + quad<NewtonCotes3Line>() + quad<NewtonCotes5Line>() + quad<NewtonCotes7Line>();
}
