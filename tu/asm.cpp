#include <vector>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > VVI;
typedef std::vector<std::vector<std::pair<int, int> > > NTE;
void use(LILCSR<double>& K, std::vector<double>& F, std::vector<Vector<double> >& u, Matrix<double>& Ke, Vector<double>& Fe, VVI& g, NTE& e, std::vector<NTE>& es, std::vector<int>& el, VVI& els,
    std::vector<std::pair<std::pair<int, int>, double> >& f, std::vector<std::pair<int, int> >& per) {
    Assembling(K, F, u, Ke, Fe, g, e, el); Assembling(K, F, u, Ke, g, e, el); Assembling(K, F, u, Ke, g, es, els); Assembling(K, Ke, g, e, el);
    Assembling(F, Fe, g, e, el); Assembling(F, u, Ke, g, e, el); Assembling(F, f, g); Disassembling(u, F, g); Renumbering(g);
    SetDirichlet(u, g, f); SetDirichlet(g, f); SetPeriodic(g, per); RemoveBoundaryConditions(g);
}
