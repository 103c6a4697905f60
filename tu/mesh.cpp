#include <cmath>
#include <vector>
#include <algorithm>
#include "LinearAlgebra/Models/Vector.h"
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/AnnulusMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
using namespace PANSFEM2;
inline bool pick(double x, double y) { return x < y; }   // an unknown predicate: its calls are intercepted
struct Pred { bool operator()(Vector<double> v) const { return pick(v(0), v(1)); } };
template<class M> void common(M m) { m.GenerateNodes(); m.GenerateElements(); m.GenerateFixedlist(std::vector<int>(), Pred()); }
void use() {
    SquareMesh<double> a(1, 1, 1, 1); common(a); a.GenerateEdges(); a.GenerateNodes2(); a.GenerateElements2(); a.GenerateEdges2(); a.GenerateElementIdsSelected(Pred()); a.GenerateEdgeIdsSelected(Pred()); a.GenerateFixedlist2(std::vector<int>(), Pred());
    SquareMesh2<double> b(1, 1, 1, 1, 1, 1); common(b); b.GenerateEdges();
    AnnulusMesh<double> c(1, 2, 1, 1); common(c); c.GenerateEdges();
    SquareAnnulusMesh<double> d(1, 1, 1, 1, 1, 1, 1); common(d); d.GenerateEdges();
    SquareAnnulusMesh2<double> e(1, 1, 3, 3, 1, 1); common(e); e.GenerateEdges();
    SquareCircleAnnulusMesh<double> f(1, 1, 1, 1, 1, 1, 1); common(f); f.GenerateEdges();
    GrandStructure2D<double> g(1, 1, 1, 1, 1); common(g);
}
