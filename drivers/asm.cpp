#include <vector>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
#include "vdrv.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > VVI; typedef std::vector<std::vector<std::pair<int, int> > > NTE;
int main(int argc, char** argv) {
    Rng g(atoi(argv[1])); int n = atoi(argv[2]);
    const char* names[] = {"KFuFe", "KFu", "multi", "K", "F", "Fu", "neumann", "disassemble"};
    for (int c = 0; c < n; c++) for (int kind = 0; kind < 8; kind++) {
        int D = g.i(1, 6), N = g.i(1, 6), W = g.i(1, 6); VVI ntg(D); std::vector<Vector<double> > u; std::vector<double> uf; std::vector<int> flat;
        for (auto& r : ntg) { r.resize(g.i(1, 3)); for (auto& e : r) e = g.i(0, 3) ? g.i(0, N - 1) : -1; u.push_back(Vector<double>(r.size())); flat.push_back(r.size()); for (int k = 0; k < (int)r.size(); k++) { flat.push_back(r[k]); u.back()(k) = g.d(); uf.push_back(u.back()(k)); } }
        int B = kind == 2 ? g.i(1, 3) : 1; VVI els(B); std::vector<NTE> ms(B); std::vector<int> slots;
        for (int b = 0; b < B; b++) { int ne = g.i(kind == 2 ? 0 : 1, 4); for (int a = 0; a < ne; a++) { int p = g.i(0, D - 1); els[b].push_back(p); ms[b].push_back({}); int q = g.i(0, 3);
            for (int s = 0; s < q; s++) { int d = g.i(0, ntg[p].size() - 1), w = g.i(0, W - 1); ms[b][a].push_back({d, w}); slots.push_back(p); slots.push_back(d); slots.push_back(w); slots.push_back(b); } } }
        Matrix<double> Ke(W, W); Vector<double> Fe(W); std::vector<double> kf, ff; for (int i = 0; i < W; i++) { Fe(i) = g.d(); ff.push_back(Fe(i)); for (int j = 0; j < W; j++) { Ke(i, j) = g.d(); kf.push_back(Ke(i, j)); } }
        std::vector<double> F(N), K0; for (auto& e : F) e = g.d(); LILCSR<double> K(N, N);
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double v = 0; if (g.i(0, 1)) { v = g.d(); K.set(i, j, v); } K0.push_back(v); }
        Case(names[kind]); OutI("dims", {N, W}); OutI("ntg", flat); OutI("slots", slots); Out("Ke", kf); Out("Fe", ff); Out("F0", F); Out("K0", K0); Out("u", uf);
        std::vector<std::pair<std::pair<int, int>, double> > f; std::vector<double> fl;
        if (kind == 6) { int q = g.i(0, 6); for (int k = 0; k < q; k++) { int p = g.i(0, D - 1), d = g.i(0, ntg[p].size() - 1); double v = g.d(); f.push_back({{p, d}, v}); fl.push_back(p); fl.push_back(d); fl.push_back(v); } Out("f", fl); }
        if (kind == 0) Assembling(K, F, u, Ke, Fe, ntg, ms[0], els[0]);
        if (kind == 1) Assembling(K, F, u, Ke, ntg, ms[0], els[0]);
        if (kind == 2) Assembling(K, F, u, Ke, ntg, ms, els);
        if (kind == 3) Assembling(K, Ke, ntg, ms[0], els[0]);
        if (kind == 4) Assembling(F, Fe, ntg, ms[0], els[0]);
        if (kind == 5) Assembling(F, u, Ke, ntg, ms[0], els[0]);
        if (kind == 6) Assembling(F, f, ntg);
        if (kind == 7) Disassembling(u, F, ntg);
        std::vector<double> K1, u1; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) K1.push_back(K.get(i, j));
        for (auto& v : u) for (int k = 0; k < v.SIZE(); k++) u1.push_back(v(k));
        Out("K1", K1); Out("F1", F); Out("u1", u1); End();
    }
    return 0;
}
