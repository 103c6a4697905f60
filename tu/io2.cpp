#include <vector>
#include <string>
#include "LinearAlgebra/Models/Vector.h"
#include "PrePost/Import/ImportFromVTK2.h"
using namespace PANSFEM2;
void use() { ImportModelFromVTK<double> m("f"); m.GenerateNodes(); m.GenerateElements(); }
