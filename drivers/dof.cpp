#include <vector>
#include <set>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
#include "vdrv.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > VVI;
static std::vector<int> flat(const VVI& g) { std::vector<int> f; for (auto& r : g) { f.push_back(r.size()); for (int x : r) f.push_back(x); } return f; }
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int n = atoi(argv[2]);
    const char* names[] = {"renumber", "periodic", "dirichlet", "dirichlet2", "remove"};
    for (int c = 0; c < n; c++) for (int kind = 0; kind < 5; kind++) {
        int D = g.i(1, 9), q = g.i(1, 3); VVI t(D); std::vector<Vector<double> > u; std::vector<double> u0, u1;
        for (auto& r : t) { r.resize(kind == 1 && g.i(0, 1) ? q : g.i(1, 3)); for (auto& e : r) e = g.i(0, 3) ? (g.i(0, 1) ? 0 : g.i(0, 20)) : -1; u.push_back(Vector<double>(r.size())); for (int k = 0; k < (int)r.size(); k++) { u.back()(k) = g.d(); u0.push_back(u.back()(k)); } }
        Case(names[kind]); OutI("g0", flat(t));
        if (kind == 0) { int r = Renumbering(t); OutI("ret", {r}); }
        if (kind == 1) { std::set<int> slaves, masters; std::vector<std::pair<int, int> > ps; std::vector<int> fl; int m = g.i(0, D);
            for (int k = 0; k < m; k++) { int a = g.i(0, D - 1), b = g.i(0, D - 1); if (a == b || t[a].size() != t[b].size() || slaves.count(a) || slaves.count(b) || masters.count(b)) continue; masters.insert(a); slaves.insert(b); ps.push_back({a, b}); fl.push_back(a); fl.push_back(b); }
            OutI("pairs", fl); int r = SetPeriodic(t, ps); OutI("ret", {r}); }
        if (kind == 2 || kind == 3) { std::vector<std::pair<std::pair<int, int>, double> > f; std::vector<double> fl; int m = g.i(0, 8);
            for (int k = 0; k < m; k++) { int p = g.i(0, D - 1), d = g.i(0, t[p].size() - 1); double v = g.d(); f.push_back({{p, d}, v}); fl.push_back(p); fl.push_back(d); fl.push_back(v); }
            Out("f", fl); Out("u0", u0); if (kind == 2) SetDirichlet(u, t, f); else SetDirichlet(t, f); }
        if (kind == 4) RemoveBoundaryConditions(t);
        for (auto& v : u) for (int k = 0; k < v.SIZE(); k++) u1.push_back(v(k));
        OutI("g1", flat(t)); Out("u1", u1); End();
    }
    return 0;
}
