#include "la_common.h"
int main(int argc, char** argv) {
    Rng r(atoi(argv[1])); int N = atoi(argv[2]);
    for(int t = 0; t < N; t++) {
        int m = r.i(1, 6), n = r.i(1, 6), l = r.i(1, 6); double s = r.i(1, 9)/4.0*(r.i(0,1) ? 1 : -1);
        Vector<double> a = RV(r, n), b = RV(r, n), c = RV(r, m); Matrix<double> A = RM(r, m, n), B = RM(r, m, n), C = RM(r, n, l), D = RM(r, l, n), E = RM(r, m, l), w = RM(r, 1, l), cm = RM(r, n, 1);
        a(0) = 1.5;
        Case("ops"); Out("s", s); OutV("a", a); OutV("b", b); OutV("c", c); OutM("A", A); OutM("B", B); OutM("C", C); OutM("D", D); OutM("E", E); OutM("w", w); OutM("cm", cm);
        OutV("v_add", a + b); OutV("v_sub", a - b); OutV("v_neg", -a); OutV("v_mul", a*s); OutV("v_div", a/s); OutV("v_lmul", s*a);
        { Vector<double> x = a; x += b; OutV("v_iadd", x); } { Vector<double> x = a; x -= b; OutV("v_isub", x); } { Vector<double> x = a; x *= s; OutV("v_imul", x); } { Vector<double> x = a; x /= s; OutV("v_idiv", x); }
        Out("v_dot", a*b); Out("v_norm", a.Norm()); OutV("v_normal", a.Normal()); OutM("v_outer", c*w); OutM("v_t", a.Transpose()); OutV("v_stack", a.Vstack(c));
        int h = r.i(0, n - 1), tl = r.i(h + 1, n); OutI("seg", {h, tl}); OutV("v_seg", a.Segment(h, tl));
        OutM("m_add", A + B); OutM("m_sub", A - B); OutM("m_neg", -A); OutM("m_mul", A*s); OutM("m_div", A/s); OutM("m_lmul", s*A); OutM("m_mm", A*C); OutV("m_mv", A*a); OutM("m_t", A.Transpose());
        { Matrix<double> x = A; x += B; OutM("m_iadd", x); } { Matrix<double> x = A; x -= B; OutM("m_isub", x); } { Matrix<double> x = A; x *= s; OutM("m_imul", x); } { Matrix<double> x = A; x /= s; OutM("m_idiv", x); }
        OutM("m_v", A.Vstack(D)); OutM("m_h", A.Hstack(E));
        int p = r.i(0, m - 1), q = r.i(0, n - 1), bh = r.i(1, m - p), bw = r.i(1, n - q); OutI("blk", {p, q, bh, bw}); OutM("m_b", A.Block(p, q, bh, bw));
        OutM("m_i", Identity<double>(n)); OutM("m_d", Diagonal(a)); OutM("m_fromv", Matrix<double>(a)); OutV("v_fromm", Vector<double>(cm));
        Vector<double> x3 = RV(r, 3), y3 = RV(r, 3); OutV("x3", x3); OutV("y3", y3); OutV("v_cross", VectorProduct(x3, y3));
        std::vector<double> sv; for(int i = 0; i < n; i++) sv.push_back(a(i)); OutV("v_froms", Vector<double>(sv)); OutV("v_il", Vector<double>({ s, 2.0, -s }));
        OutV("a2", a); OutV("b2", b); OutM("A2", A); OutM("B2", B); OutM("C2", C);
        { Vector<double> z(n); OutV("v_zero", z); Matrix<double> y(m, n); OutM("m_zero", y); }
        End();
    }
    for(int t = 0; t < 4; t++) {
        int n = r.i(1, 6); Vector<double> a = RV(r, n); Matrix<double> A = RM(r, n, n); Case("alias"); OutV("a", a); OutM("A", A);
        { Vector<double> x = a; x += x; OutV("aa", x); x = a; x -= x; OutV("as", x); x = a; x = x + x; OutV("ap", x); }
        { Matrix<double> x = A; x += x; OutM("AA", x); x = A; x -= x; OutM("AS", x); x = A; x = x*x; OutM("AP", x); }
        End();
    }
    for(int k = 0; k < 2; k++) {
        Case("empty"); Vector<double> a, b, z(0); Matrix<double> A, B, Z(0, 0); if(k) { a = z; b = z; A = Z; B = Z; }
        a += b; a -= b; a *= 2.0; a /= 2.0; A += B; A -= B; A *= 2.0; A /= 2.0; double e = a*b + a.Norm();
        Vector<double> c = a + b, d = a - b, f = -a, g = a*2.0, h = 2.0*a, i = a/2.0, j = a.Vstack(b); Matrix<double> C = A + B, D = A - B, F = -A, G = A*2.0, H = 2.0*A, I = A/2.0, J = A*B, K = A.Transpose(), L = A.Vstack(B), N = A.Hstack(B), O = Diagonal(a), Q = Identity<double>(0);
        Out("e", std::vector<double>({ e, (double)a.SIZE(), (double)c.SIZE(), (double)d.SIZE(), (double)f.SIZE(), (double)g.SIZE(), (double)h.SIZE(), (double)i.SIZE(), (double)j.SIZE(), (double)C.ROW(), (double)D.COL(), (double)F.ROW(), (double)G.ROW(), (double)H.ROW(), (double)I.COL(), (double)J.ROW(), (double)K.ROW(), (double)L.ROW(), (double)N.COL(), (double)O.ROW(), (double)Q.ROW() }));
        End();
    }
}
