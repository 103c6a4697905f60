#include "fe.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/Advection.h"
#include "FEM/Equation/ReactionDiffusion.h"
#include "FEM/Equation/Stokes.h"
#include "FEM/Equation/NavierStokes.h"
double all() { return useS<ShapeFunction3Triangle>() + useS<ShapeFunction6Triangle>() + useS<ShapeFunction4Square>() + useS<ShapeFunction8Square>()
    + useS<ShapeFunction2Line>() + useS<ShapeFunction3Line>() + useQ<Gauss1Line>() + useQ<Gauss2Line>()
    + useQ<Gauss1Triangle>() + useQ<Gauss3Triangle>() + useQ<Gauss4Square>() + useQ<Gauss9Square>(); }
template<template<class> class S, template<class> class Q> void scal(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double b, double t, FR f) {
    HeatTransfer<double, S, Q>(K, m, e, d, x, a, t); HeatCapacity<double, S, Q>(K, m, e, d, x, a, b, t);
    Advection<double, S, Q>(K, m, e, d, x, a, t); AdvectionSUPG<double, S, Q>(K, m, e, d, x, a, b, t); AdvectionShockCapturing<double, S, Q>(K, m, e, d, x, a, b, t);
    Diffusion<double, S, Q>(K, m, e, d, x, a); Mass<double, S, Q>(K, m, e, d, x); MassSUPG<double, S, Q>(K, m, e, d, x, a, b, t);
    ReactionDiffusionConsistentMass<double, S, Q>(K, m, e, d, x); ReactionDiffusionLumpedMass<double, S, Q>(K, m, e, d, x);
    ReactionDiffusionStiffness<double, S, Q>(K, m, e, d, x, a); ReactionDiffusionReaction<double, S, Q, FR>(F, m, e, d, x, u, f);
    NavierStokesDecoupledConsistentMass<double, S, Q>(K, m, e, d, x, a); NavierStokesDecoupledLumpedMass<double, S, Q>(K, m, e, d, x, a);
    NavierStokesAuxiliaryVelocity<double, S, Q>(F, m, e, d, x, u, a, b); NavierStokesPressurePoisson<double, S, Q>(K, F, m, e, d, x, u, a, b);
    NavierStokesNextstepVelocity<double, S, Q>(F, m, e, d, x, u, u, a);
}
template<template<class> class S, template<class> class P, template<class> class Q> void mix(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double b, double t, FV f) {
    StokesStiffness<double, S, P, Q>(K, m, e, m, e, d, x, a); StokesMass<double, S, P, Q>(K, m, e, m, e, d, x, a); StokesBodyForce<double, S, P, Q, FV>(F, m, e, m, e, d, x, f);
    BrinkmanBodyForce<double, S, P, Q>(K, m, e, m, e, d, x, K); NavierStokesBrinkmanBodyForce<double, S, P, Q>(K, m, e, m, e, d, x, K);
    NavierStokesTangent<double, S, P, Q>(K, F, m, e, m, e, d, x, u, a, b); NavierStokesStiffness<double, S, P, Q>(K, m, e, m, e, d, x, u, a, b);
    NavierStokesConsistentMass<double, S, P, Q>(K, m, e, m, e, d, x, a); ContinuityStiffness<double, S, P, Q>(K, m, e, m, e, d, x);
    NavierStokesSUPGPSPGStiffness<double, S, P, Q>(K, m, e, m, e, d, x, u, a, b, t); NavierStokesSUPGPSPGConsistentMass<double, S, P, Q>(K, m, e, m, e, d, x, u, a, b, t);
    ContinuitySUPGPSPGStiffness<double, S, P, Q>(K, m, e, m, e, d, x, u, a, b, t); NavierStokesBodyForce<double, S, P, Q, FV>(F, m, e, m, e, d, x, f);
    NavierStokesAdjoint<double, S, P, Q>(K, m, e, m, e, d, x, u, a, b);
}
void use(M_& K, V_& F, Map_& m, I_& e, I_& d, X_& x, X_& u, double a, double b, double t, FV f, FS s, FR r) {
    scal<ShapeFunction3Triangle, Gauss1Triangle>(K, F, m, e, d, x, u, a, b, t, r);
    scal<ShapeFunction4Square, Gauss4Square>(K, F, m, e, d, x, u, a, b, t, r);
    scal<ShapeFunction8Square, Gauss9Square>(K, F, m, e, d, x, u, a, b, t, r);
    mix<ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, F, m, e, d, x, u, a, b, t, f);
    mix<ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle>(K, F, m, e, d, x, u, a, b, t, f);
    mix<ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(K, F, m, e, d, x, u, a, b, t, f);
    mix<ShapeFunction3Triangle, ShapeFunction3Triangle, Gauss1Triangle>(K, F, m, e, d, x, u, a, b, t, f);
    HeatTransferSurfaceFlux<double, ShapeFunction2Line, Gauss1Line, FS>(F, m, e, d, x, s, t);
    HeatTransferSurfaceFlux<double, ShapeFunction3Line, Gauss2Line, FS>(F, m, e, d, x, s, t);
    StokesSurfaceForce<double, ShapeFunction3Line, ShapeFunction2Line, Gauss2Line, FV>(F, m, e, m, e, d, x, f);
    StokesSurfaceForce<double, ShapeFunction2Line, ShapeFunction2Line, Gauss1Line, FV>(F, m, e, m, e, d, x, f);
}
