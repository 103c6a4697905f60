// general utilities on irregular (mixed, repeated, shuffled) connectivities
#include "la_common.h"
#include "FEM/Equation/General.h"
typedef std::vector<Vector<double> > X_;
static void OutX(const char* k, X_& x) { std::vector<double> v; for(auto& p : x) for(int i = 0; i < p.SIZE(); i++) v.push_back(p(i)); Out(k, v); }
int main(int argc, char** argv) {
    Rng r(atoi(argv[1])); int N = atoi(argv[2]);
    for(int t = 0; t < N; t++) {
        int nn = r.i(2, 9), d = r.i(1, 3), ne = r.i(1, 6); X_ x; for(int i = 0; i < nn; i++) x.push_back(RV(r, d));
        std::vector<double> un, ue; for(int i = 0; i < nn; i++) un.push_back(r.d()); for(int i = 0; i < ne; i++) ue.push_back(r.d());
        X_ vn, ve; for(int i = 0; i < nn; i++) vn.push_back(RV(r, d)); for(int i = 0; i < ne; i++) ve.push_back(RV(r, d));
        std::vector<std::vector<int> > el; std::vector<int> flat; for(int i = 0; i < ne; i++) { el.push_back({}); int k = r.i(1, 5); flat.push_back(k); for(int j = 0; j < k; j++) { el[i].push_back(r.i(0, nn - 1)); flat.push_back(el[i][j]); } }
        double u0 = r.d(); Vector<double> v0 = RV(r, d);
        Case("u"); OutI("nn", {nn, d, ne}); OutI("el", flat); OutX("x", x); Out("un", un); Out("ue", ue); OutX("vn", vn); OutX("ve", ve); Out("u0", u0); OutV("v0", v0);
        std::vector<int> e0 = el[0]; OutV("cog", CenterOfGravity(x, e0));
        Out("e2n", InterpolateElementalFromNodal(u0, un, el)); Out("n2e", InterpolateNodalFromElemental(nn, u0, ue, el));
        X_ a = InterpolateElementalFromNodal<double, Vector>(v0, vn, el), b = InterpolateNodalFromElemental<double, Vector>(nn, v0, ve, el); OutX("e2nv", a); OutX("n2ev", b);
        // element vectors: every dof of every listed node in a shuffled slot
        { std::vector<std::vector<std::pair<int, int> > > m; int K = 0; std::vector<int> fm; for(size_t i = 0; i < e0.size(); i++) { m.push_back({}); int k = r.i(0, d); for(int j = 0; j < k; j++) { m[i].push_back({j, K++}); } }
          std::vector<int> p; for(int i = 0; i < K; i++) p.push_back(i); for(int i = K - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]);
          for(auto& q : m) { fm.push_back(q.size()); for(auto& z : q) { z.second = p[z.second]; fm.push_back(z.first); fm.push_back(z.second); } }
          OutI("map", fm); OutV("ev", ElementVector(vn, m, e0)); 
          int s = r.i(0, (int)e0.size()); std::vector<std::vector<std::vector<std::pair<int, int> > > > ms = { std::vector<std::vector<std::pair<int, int> > >(m.begin(), m.begin() + s), std::vector<std::vector<std::pair<int, int> > >(m.begin() + s, m.end()) };
          std::vector<std::vector<int> > es = { std::vector<int>(e0.begin(), e0.begin() + s), std::vector<int>(e0.begin() + s, e0.end()) }; OutV("ev2", ElementVector(vn, ms, es)); }
        { int k = r.i(1, 5); std::vector<double> xs; for(int i = 0; i < k; i++) xs.push_back(i*1.5 + r.u(-0.5, 0.5)); for(int i = k - 1; i > 0; i--) std::swap(xs[i], xs[r.i(0, i)]); double p = r.u(-3, 8); Out("xs", xs); Out("xp", p);
          Out("lag", LagrangeInterpolation(xs, p)); Out("dlag", LagrangeInterpolationDerivative(xs, p)); }
        { int nd = r.i(1, 3); std::vector<int> dl; for(int i = 0; i < nd; i++) dl.push_back(7 - 2*i); Matrix<double> K = RM(r, 1, 2); std::vector<std::vector<std::pair<int, int> > > m; double al = r.d(); OutI("dl", dl); Out("al", al); WeakSpring(K, m, e0, dl, x, al); OutM("ws", K); std::vector<int> fm; for(auto& q : m) { fm.push_back(q.size()); for(auto& z : q) { fm.push_back(z.first); fm.push_back(z.second); } } OutI("wsm", fm); }
        End();
    }
}
