#include <cmath>
#include <vector>
#include <algorithm>
#include "LinearAlgebra/Models/Vector.h"
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/AnnulusMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
#include "vdrv.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > VVI;
static void nodes(const char* k, std::vector<Vector<double> > n) { std::vector<double> f; for (auto& v : n) { f.push_back(v.SIZE()); for (int i = 0; i < v.SIZE(); i++) f.push_back(v(i)); } Out(k, f); }
static void lists(const char* k, const VVI& n) { std::vector<int> f; for (auto& v : n) { f.push_back(v.size()); for (int x : v) f.push_back(x); } OutI(k, f); }
static void fixedl(const char* k, const std::vector<std::pair<std::pair<int, int>, double> >& n) { std::vector<double> f; for (auto& v : n) { f.push_back(v.first.first); f.push_back(v.first.second); f.push_back(v.second); } Out(k, f); }
struct Half { double a, b, c; bool operator()(Vector<double> v) const { return a*v(0) + b*v(1) < c; } };
template<class M> void common(M& m, Half h) { nodes("nodes", m.GenerateNodes()); lists("elements", m.GenerateElements()); fixedl("fixed", m.GenerateFixedlist({ 1, 0, 3 }, h)); }
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int n = atoi(argv[2]);
    for (int c = 0; c < n; c++) {
        double x = g.u(0.5, 5), y = g.u(0.5, 5), rx = g.u(1.05, 1.6), ry = g.u(1.05, 1.6), p = g.u(0.5, 2), l = g.u(0.3, 4);
        int nx = g.i(1, 6), ny = g.i(1, 6), nr = g.i(1, 4), nv = g.i(1, 4), nw = g.i(1, 4), q = g.i(1, 3), s = g.i(1, 3), nt = g.i(3, 9);
        double dx = g.u(-1, 1), dy = g.u(-1, 1); Half h{dx, dy, 0.0}; std::vector<double> hp;
        auto start = [&](const char* nm, std::vector<double> par, double cx, double cy) { h.c = dx*cx + dy*cy + 0.01234567*x; Case(nm); Out("par", par); Out("h", std::vector<double>{h.a, h.b, h.c}); };
        { SquareMesh<double> m(x, y, nx, ny); start("SquareMesh", {x, y, (double)nx, (double)ny}, x/2, y/2); common(m, h); lists("edges", m.GenerateEdges());
          nodes("nodes2", m.GenerateNodes2()); lists("elements2", m.GenerateElements2()); lists("edges2", m.GenerateEdges2()); fixedl("fixed2", m.GenerateFixedlist2({ 1, 0, 3 }, h)); OutI("esel", m.GenerateElementIdsSelected(h)); OutI("gsel", m.GenerateEdgeIdsSelected(h)); End(); }
        { SquareMesh2<double> m(x, y, nx, ny, rx, ry); start("SquareMesh2", {x, y, (double)nx, (double)ny, rx, ry}, x/2, y/2); common(m, h); lists("edges", m.GenerateEdges()); End(); }
        { AnnulusMesh<double> m(x, x + y, nr, nt); start("AnnulusMesh", {x, x + y, (double)nr, (double)nt}, 0, 0); common(m, h); lists("edges", m.GenerateEdges()); End(); }
        { SquareAnnulusMesh<double> m(x + rx, y + ry, x, y, nx, ny, nr); start("SquareAnnulusMesh", {x + rx, y + ry, x, y, (double)nx, (double)ny, (double)nr}, 0, 0); common(m, h); lists("edges", m.GenerateEdges()); End(); }
        { SquareAnnulusMesh2<double> m(x, y, nv + 2*q, nw + 2*s, nv, nw); start("SquareAnnulusMesh2", {x, y, (double)(nv + 2*q), (double)(nw + 2*s), (double)nv, (double)nw}, x/2, y/2); common(m, h); lists("edges", m.GenerateEdges()); End(); }
        { SquareCircleAnnulusMesh<double> m(x, y, 0.4*std::min(x, y), p, nx, ny, nr); start("SquareCircleAnnulusMesh", {x, y, 0.4*std::min(x, y), p, (double)nx, (double)ny, (double)nr}, 0, 0); common(m, h); lists("edges", m.GenerateEdges()); End(); }
        { int a = std::min(nx, 3), b = std::min(ny, 3); GrandStructure2D<double> m(x, y, a, b, l); start("GrandStructure2D", {x, y, (double)a, (double)b, l}, x/2, y/2); common(m, h); End();
          // limits between any two consecutive distances
          std::vector<double> ds; for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) ds.push_back(std::hypot(x*i/a, y*j/b));
          std::sort(ds.begin(), ds.end());
          for (size_t k = 0; k + 1 < ds.size(); k++) if (ds[k + 1] - ds[k] > 1e-6) { double lm = 0.5*(ds[k] + ds[k + 1]); GrandStructure2D<double> w(x, y, a, b, lm); start("GrandStructure2D", {x, y, (double)a, (double)b, lm}, x/2, y/2); common(w, h); End(); } }
    }
    return 0;
}
