#include "fe.h"
#include "FEM/Equation/General.h"
#include "FEM/Equation/Numeric.h"
double all() { return useS<ShapeFunction3Triangle>() + useS<ShapeFunction4Square>() + useS<ShapeFunction8Square>() + useS<ShapeFunction4Tetrahedron>() + useS<ShapeFunction8Cubic>() + useS<ShapeFunction20Cubic>()
    + useS<ShapeFunction2Line>() + useS<ShapeFunction3Line>() + useQ<Gauss1Line>() + useQ<Gauss2Line>()
    + useQ<Gauss1Triangle>() + useQ<Gauss4Square>() + useQ<Gauss9Square>() + useQ<Gauss1Tetrahedron>() + useQ<Gauss8Cubic>() + useQ<Gauss27Cubic>(); }
typedef std::vector<double> D_; typedef std::vector<std::vector<int> > E_; typedef Vector<double> W_;
double use(M_& K, V_& F, Map_& m, std::vector<Map_>& ms, I_& e, E_& es, I_& d, X_& x, double a, D_ ds, FS f) {
    WeakSpring<double>(K, m, e, d, x, a);
    V_ c = CenterOfGravity<double>(x, e) + ElementVector<double>(x, m, e) + ElementVector<double>(x, ms, es);
    ds = LagrangeInterpolation<double>(ds, a); ds = LagrangeInterpolationDerivative<double>(ds, a);
    ds = InterpolateNodalFromElemental<double>(3, a, ds, es); ds = InterpolateElementalFromNodal<double>(a, ds, es);
    x = InterpolateNodalFromElemental<double, Vector>(3, c, x, es); x = InterpolateElementalFromNodal<double, Vector>(c, x, es);
    return Area<double, ShapeFunction3Triangle, Gauss1Triangle>(x, e) + Area<double, ShapeFunction4Square, Gauss4Square>(x, e) + Area<double, ShapeFunction8Square, Gauss9Square>(x, e)
        + Volume<double, ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(x, e) + Volume<double, ShapeFunction8Cubic, Gauss8Cubic>(x, e) + Volume<double, ShapeFunction20Cubic, Gauss27Cubic>(x, e)
        + NumericIntegrationOnLine<double, ShapeFunction2Line, Gauss1Line, FS>(x, e, f) + NumericIntegrationOnLine<double, ShapeFunction3Line, Gauss2Line, FS>(x, e, f);
}
