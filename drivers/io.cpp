// replay of the file contracts: commands on stdin, results on stdout
#include <vector>
#include <string>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include "LinearAlgebra/Models/Vector.h"
#ifdef SECOND
#include "PrePost/Import/ImportFromVTK2.h"
#else
#include "PrePost/Export/ExportToVTK.h"
#include "PrePost/Import/ImportFromCSV.h"
#include "PrePost/Import/ImportFromVTK.h"
#endif
using namespace PANSFEM2;
typedef std::vector<Vector<double> > VV; typedef std::vector<std::vector<int> > EE;
static void put(VV v) { printf("L %d", (int)v.size()); for (auto x : v) { printf(" V %d", (int)x.SIZE()); for (int i = 0; i < x.SIZE(); i++) printf(" %.17g", x(i)); } printf("\n"); }
static void put(EE v) { printf("L %d", (int)v.size()); for (auto& x : v) { printf(" I %d", (int)x.size()); for (int i : x) printf(" %d", i); } printf("\n"); }
static void put(std::vector<double> v) { printf("L %d", (int)v.size()); for (double x : v) printf(" %.17g", x); printf("\n"); }
static std::string file() { int n; std::cin >> n; std::cin.get(); std::string s(n, ' '); std::cin.read(&s[0], n); return s; }
static VV rows(int n, int d) { VV r(n, Vector<double>(d)); for (auto& x : r) for (int i = 0; i < d; i++) std::cin >> x(i); return r; }
int main() {
    std::string cmd;
    while (std::cin >> cmd) {
        if (cmd == "FILE") { std::string nm; std::cin >> nm; std::string s = file(); std::ofstream f(nm); f << s; continue; }
        printf("@ "); fflush(stdout);
#ifdef SECOND
        if (cmd == "VTK2") { std::string nm, ops; std::cin >> nm >> ops; ImportModelFromVTK<double> m(nm); for (char o : ops) if (o == 'P') put(m.GenerateNodes()); else put(m.GenerateElements()); }
#else
        if (cmd == "VTK") {
            std::string nm; int d, n; std::cin >> nm >> d >> n; ImportModelFromVTK<double> m(nm, d);
            for (int i = 0; i < n; i++) {
                std::string o, k; std::cin >> o >> k;
                if (o == "P") put(m.ImportPOINTS()); else if (o == "C") put(m.ImportCELLS()); else if (o == "pv") put(m.ImportPOINTVECTORS(k)); else if (o == "ps") put(m.ImportPOINTSCALARS(k));
                else if (o == "cv") put(m.ImportCELLVECTORS(k)); else put(m.ImportCELLSCALARS(k));
            }
        } else if (cmd == "CSV") {
            std::string nm, k; std::cin >> k >> nm; bool ok = false;
            if (k == "nodes") { VV v; ok = ImportNodesFromCSV(v, nm); put(v); }
            if (k == "elements") { EE v; ok = ImportElementsFromCSV(v, nm); put(v); }
            if (k == "dirichlet" || k == "neumann") { std::vector<std::pair<std::pair<int, int>, double> > v; ok = k[0] == 'd' ? ImportDirichletFromCSV(v, nm) : ImportNeumannFromCSV(v, nm);
                printf("L %d", (int)v.size()); for (auto& p : v) printf(" %d %d %.17g", p.first.first, p.first.second, p.second); printf("\n"); }
            if (k == "periodic") { std::vector<std::pair<int, int> > v; ok = ImportPeriodicFromCSV(v, nm); printf("L %d", (int)v.size()); for (auto& p : v) printf(" %d %d", p.first, p.second); printf("\n"); }
            if (k == "initial") { int n, d; std::cin >> n >> d; VV v = rows(n, d); ok = ImportInitialFromCSV(v, nm); put(v); }
            printf("%s\n", ok ? "true" : "false");
        } else if (cmd == "EXPORT") {
            // n d  points | m elements | types | fields
            int n, d, m, nf; std::cin >> n >> d; VV x = rows(n, d);
            std::cin >> m; EE e(m); std::vector<int> t(m); for (auto& r : e) { int s; std::cin >> s; r.resize(s); for (int& k : r) std::cin >> k; } for (int& k : t) std::cin >> k;
            { std::ofstream f("o.vtk"); MakeHeadderToVTK(f); AddPointsToVTK(x, f); AddElementToVTK(e, f); AddElementTypes(t, f);
              std::cin >> nf; for (int i = 0; i < nf; i++) { std::string k, nm; int h, c, q; std::cin >> k >> nm >> h >> c >> q; 
                if (k == "ps" || k == "cs") { std::vector<double> s(c); for (double& v : s) std::cin >> v; if (k == "ps") AddPointScalers(s, nm, f, h); else AddElementScalers(s, nm, f, h); }
                else { VV v = rows(c, q); if (k == "pS") AddPointScalers(v, nm, f, h); else AddPointVectors(v, nm, f, h); } } }
            std::ifstream g("o.vtk"); std::stringstream b; b << g.rdbuf(); std::string s = b.str(); printf("%d\n", (int)s.size()); fwrite(s.data(), 1, s.size(), stdout);
        }
#endif
        fflush(stdout);
    }
    printf("@ done\n");
}
