#include <vector>
#include <string>
#include "LinearAlgebra/Models/Vector.h"
#include "PrePost/Export/ExportToVTK.h"
#include "PrePost/Import/ImportFromCSV.h"
#include "PrePost/Import/ImportFromVTK.h"
using namespace PANSFEM2;
void use(std::ofstream& o, std::vector<Vector<double> >& x, std::vector<std::vector<int> >& e, std::vector<int> t, std::vector<double> s,
         std::vector<std::pair<std::pair<int, int>, double> >& d, std::vector<std::pair<int, int> >& p) {
    AddPointsToVTK(x, o); AddElementToVTK(e, o); AddElementTypes(t, o); AddPointScalers(s, "s", o, true); AddPointScalers(x, "s", o, true);
    AddPointVectors(x, "v", o, true); AddElementScalers(s, "s", o, true);
    ImportNodesFromCSV(x, "f"); ImportElementsFromCSV(e, "f"); ImportDirichletFromCSV(d, "f"); ImportNeumannFromCSV(d, "f"); ImportInitialFromCSV(x, "f"); ImportPeriodicFromCSV(p, "f");
    ImportModelFromVTK<double> m("f", 2); m.ImportPOINTS(); m.ImportCELLS(); m.ImportPOINTVECTORS("v"); m.ImportPOINTSCALARS("s"); m.ImportCELLVECTORS("v"); m.ImportCELLSCALARS("s");
}
