#pragma once
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
using namespace PANSFEM2;
typedef Matrix<double> M_; typedef Vector<double> V_; typedef std::vector<std::vector<std::pair<int, int> > > Map_; typedef std::vector<int> I_; typedef std::vector<Vector<double> > X_;
template<template<class> class S> V_ sfN(V_ r) { return S<double>::N(r); }
template<template<class> class S> M_ sfdN(V_ r) { return S<double>::dNdr(r); }
template<template<class> class S> X_ sfPoints() { return S<double>::Points; }
template<template<class> class Q> int qCount() { return Q<double>::N; }
template<template<class> class Q> X_ qPoints() { return Q<double>::Points; }
template<template<class> class Q> std::vector<std::vector<double> > qWeights() { return Q<double>::Weights; }
template<template<class> class S> double useS() { V_ r; return sfN<S>(r).SIZE() + sfdN<S>(r).ROW() + sfPoints<S>().size(); }
template<template<class> class Q> double useQ() { return qCount<Q>() + qPoints<Q>().size() + qWeights<Q>().size(); }
struct FV { V_ operator()(V_ x) { return x; } };            // stands for an arbitrary vector field (the contract replaces the body)
struct FS { double operator()(V_ x) { return 0; } };
struct FR { double operator()(double u, V_ g) { return u; } };
