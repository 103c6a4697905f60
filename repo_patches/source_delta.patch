From 327cec362bde8cf63da25b6ff1139858a44383de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 01/12] fix: default-constructed Vector/Matrix hold a null
 storage pointer; assignment always releases the old storage

Vector() and Matrix() left 'values' indeterminate, so destroying a default-constructed
object called delete[] on garbage; operator= leaked zero-length storage.
---
 src/LinearAlgebra/Models/Matrix.h | 5 ++---
 src/LinearAlgebra/Models/Vector.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LinearAlgebra/Models/Matrix.h b/src/LinearAlgebra/Models/Matrix.h
index 6693ec9..46ae833 100644
--- a/src/LinearAlgebra/Models/Matrix.h
+++ b/src/LinearAlgebra/Models/Matrix.h
@@ -93,6 +93,7 @@ protected:
     Matrix<T>::Matrix() {
         this->row = 0;
         this->col = 0;
+        this->values = nullptr;
     }
 
 
@@ -154,9 +155,7 @@ protected:
     template<class T>
     Matrix<T>& Matrix<T>::operator=(const Matrix<T>& _mat){
         if(this != &_mat){
-            if(this->row != 0 && this->col != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->row = _mat.row;
             this->col = _mat.col;
diff --git a/src/LinearAlgebra/Models/Vector.h b/src/LinearAlgebra/Models/Vector.h
index 9102884..48b78c4 100644
--- a/src/LinearAlgebra/Models/Vector.h
+++ b/src/LinearAlgebra/Models/Vector.h
@@ -83,6 +83,7 @@ protected:
     template<class T>
     Vector<T>::Vector(){
         this->size = 0;
+        this->values = nullptr;
     }
 
 
@@ -156,9 +157,7 @@ protected:
     template<class T>
     Vector<T>& Vector<T>::operator=(const Vector<T>& _vec){
         if(this != &_vec){
-            if(this->size != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->size = _vec.size;
             this->values = new T[this->size];
-- 
2.43.0


From 86199cb16fc69b47e027328cc7e1049920689dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:37 +0000
Subject: [PATCH 02/12] fix: ShapeFunction20Cubic::Points listed a corner twice
 (21 points for 20 functions)

---
 src/FEM/Controller/ShapeFunction.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/FEM/Controller/ShapeFunction.h b/src/FEM/Controller/ShapeFunction.h
index 19a14ab..b60ce5f 100644
--- a/src/FEM/Controller/ShapeFunction.h
+++ b/src/FEM/Controller/ShapeFunction.h
@@ -354,7 +354,6 @@ public:
 																	{ 1.0, T(), -1.0 },
 																	{ T(), 1.0, -1.0 },
 																	{ -1.0, T(), -1.0 },
-																	{ -1.0, 1.0, 1.0 },
 																	{ T(), -1.0, 1.0 },
 																	{ 1.0, T(), 1.0 },
 																	{ T(), 1.0, 1.0 },
-- 
2.43.0


From bc2029b2fb067beec16d7d94f5a1392ce4d5377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 03/12] fix: WeakSpring mapped every dof of a node to the same
 element row

---
 src/FEM/Equation/General.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FEM/Equation/General.h b/src/FEM/Equation/General.h
index 586f275..fad4b22 100644
--- a/src/FEM/Equation/General.h
+++ b/src/FEM/Equation/General.h
@@ -127,7 +127,7 @@ namespace PANSFEM2 {
 		_nodetoelement = std::vector<std::vector<std::pair<int, int> > >(_element.size(), std::vector<std::pair<int, int> >(n));
 		for(int i = 0; i < _element.size(); i++) {
             for(int j = 0; j < n; j++) {
-                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i);
+                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i + j);
             }
 		}
 
-- 
2.43.0


From 488d66ad044e8e0c70864d4818afbe4c33bd086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 04/12] fix: plane strain total/updated Lagrange stiffness and
 residual ignored the thickness

---
 src/FEM/Equation/PlaneStrain.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FEM/Equation/PlaneStrain.h b/src/FEM/Equation/PlaneStrain.h
index 9019649..260e2cd 100644
--- a/src/FEM/Equation/PlaneStrain.h
+++ b/src/FEM/Equation/PlaneStrain.h
@@ -287,7 +287,7 @@ namespace PANSFEM2 {
 				BL(2, 2*n) = F(0, 1)*dNdX(0, n) + F(0, 0)*dNdX(1, n);	BL(2, 2*n + 1) = F(1, 1)*dNdX(0, n) + F(1, 0)*dNdX(1, n);
 			}
 
-			_Ke += BL.Transpose()*D*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*D*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> E = (Z + Z.Transpose() + Z.Transpose()*Z)/2.0;
 			Vector<T> Ev = Vector<T>({ E(0, 0), E(1, 1), E(0, 1) + E(1, 0) });
@@ -305,9 +305,9 @@ namespace PANSFEM2 {
 			Matrix<T> S10 = Sv(2)*Identity<T>(2);	Matrix<T> S11 = Sv(1)*Identity<T>(2);
 			Matrix<T> S = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
 
-			_Ke += BNL.Transpose()*S*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*S*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
@@ -360,7 +360,7 @@ namespace PANSFEM2 {
 				BL(1, 2*n) = T();			BL(1, 2*n + 1) = dNdx(1, n);
 				BL(2, 2*n) = dNdx(1, n);	BL(2, 2*n + 1) = dNdx(0, n);
 			}
-			_Ke += BL.Transpose()*C*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*C*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> S = (mu0/detF)*(F*F.Transpose() - Identity<T>(2)) + (lambda0*log(detF)/detF)*Identity<T>(2);
 			Matrix<T> BNL = Matrix<T>(4, 2*_element.size());
@@ -373,10 +373,10 @@ namespace PANSFEM2 {
 			Matrix<T> S00 = S(0, 0)*Identity<T>(2);	Matrix<T> S01 = S(0, 1)*Identity<T>(2);
 			Matrix<T> S10 = S(1, 0)*Identity<T>(2);	Matrix<T> S11 = S(1, 1)*Identity<T>(2);
 			Matrix<T> Sm = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
-			_Ke += BNL.Transpose()*Sm*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*Sm*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Vector<T> Sv = { S(0, 0), S(1, 1), S(0, 1) };
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
-- 
2.43.0


From a956ac56dc439c710f3708959c936d7b0e9f8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 05/12] fix: NavierStokesTangent put the viscous cross terms in
 the wrong block, so Ke was not the derivative of the residual

---
 src/FEM/Equation/NavierStokes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FEM/Equation/NavierStokes.h b/src/FEM/Equation/NavierStokes.h
index b2b6dfa..bc63032 100644
--- a/src/FEM/Equation/NavierStokes.h
+++ b/src/FEM/Equation/NavierStokes.h
@@ -81,10 +81,10 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++){
                 for(int j = 0; j < m; j++){
-                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j) + _mu*dMdX(1, i)*dMdX(0, j);	
-					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0);																	
-                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1);																		
-					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(1, j) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
+                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);	
+					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0) + _mu*dMdX(1, i)*dMdX(0, j);																	
+                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1) + _mu*dMdX(0, i)*dMdX(1, j);																		
+					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
                 }
                 for(int j = 0; j < n; j++){
 					K(i, j + 2*m) = -dMdX(0, i)*N(j);
-- 
2.43.0


From 3caa9cf9ce4db414cef1e112f7b3310282b37b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:28 +0000
Subject: [PATCH 06/12] fix: remove the non-friend duplicate of scalar * CSR,
 which made the product with a scalar from the left fail to compile

---
 src/LinearAlgebra/Models/CSR.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/LinearAlgebra/Models/CSR.h b/src/LinearAlgebra/Models/CSR.h
index 85e8527..3f92bc3 100644
--- a/src/LinearAlgebra/Models/CSR.h
+++ b/src/LinearAlgebra/Models/CSR.h
@@ -167,16 +167,6 @@ inline T CSR<T>::get(int _row, int _col) const {
 }
 
 
-template<class F>
-inline CSR<F> operator*(F _a, const CSR<F>& _m) {
-	CSR<F> m = CSR<F>(_m);
-	for (auto& datai : m.data) {
-		datai *= _a;
-	}
-	return m;
-}
-
-
 template<class T1, class T2>
 inline const CSR<T1> operator+(const CSR<T1>& _m1, const CSR<T2>& _m2) {
 	assert(_m1.ROWS == _m2.ROWS && _m1.COLS == _m2.COLS);
-- 
2.43.0


From 62d3f9355c58eb5bfbef0e1cb6deb9b9336f980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:41 +0000
Subject: [PATCH 07/12] fix: SquareAnnulusMesh::GenerateFixedlist tested the
 nodes with the inner and outer rectangle swapped

---
 src/PrePost/Mesher/SquareAnnulusMesh.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PrePost/Mesher/SquareAnnulusMesh.h b/src/PrePost/Mesher/SquareAnnulusMesh.h
index 3d6cf8c..3818763 100644
--- a/src/PrePost/Mesher/SquareAnnulusMesh.h
+++ b/src/PrePost/Mesher/SquareAnnulusMesh.h
@@ -102,28 +102,28 @@ private:
         for(int i = 0; i < this->nt + 1; i++){
             T t = i/(T)this->nt;
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*0.5*this->a + t*0.5*this->c, (1 - t)*this->b*(j/(T)this->ny - 0.5) + t*this->d*(j/(T)this->ny - 0.5) }))) {
+                if(_iscorrespond(Vector<T>({ t*0.5*this->a + (1 - t)*0.5*this->c, t*this->b*(j/(T)this->ny - 0.5) + (1 - t)*this->d*(j/(T)this->ny - 0.5) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(0.5 - j/(T)this->nx) + t*this->c*(0.5 - j/(T)this->nx), (1 - t)*0.5*this->b + t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(0.5 - j/(T)this->nx) + (1 - t)*this->c*(0.5 - j/(T)this->nx), t*0.5*this->b + (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ -(1 - t)*0.5*this->a - t*0.5*this->c, (1 - t)*this->b*(0.5 - j/(T)this->ny) + t*this->d*(0.5 - j/(T)this->ny) }))) {
+                if(_iscorrespond(Vector<T>({ -t*0.5*this->a - (1 - t)*0.5*this->c, t*this->b*(0.5 - j/(T)this->ny) + (1 - t)*this->d*(0.5 - j/(T)this->ny) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny + this->nx, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(j/(T)this->nx - 0.5) + t*this->c*(j/(T)this->nx - 0.5), -(1 - t)*0.5*this->b - t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(j/(T)this->nx - 0.5) + (1 - t)*this->c*(j/(T)this->nx - 0.5), -t*0.5*this->b - (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + 2*this->ny + this->nx, ui }, T() });
                     }
-- 
2.43.0


From 2c078172d6e3077f9e86c588d31793a2a6351c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 08/12] fix: Krylov solvers divide zero by zero for a zero
 right hand side or an exact half step

---
 src/LinearAlgebra/Solvers/CG.h | 48 +++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 4f08b25..691a175 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -129,6 +129,10 @@ std::vector<T> CG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps) {
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T rkrk = std::inner_product(rk.begin(), rk.end(), rk.begin(), T());
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -165,13 +169,18 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, Apk);
 		std::vector<T> Ask = _A*sk;
-		T omega = std::inner_product(Ask.begin(), Ask.end(), sk.begin(), T())/std::inner_product(Ask.begin(), Ask.end(), Ask.begin(), T());
+		T AskAsk = std::inner_product(Ask.begin(), Ask.end(), Ask.begin(), T());
+		T omega = AskAsk == T() ? T() : std::inner_product(Ask.begin(), Ask.end(), sk.begin(), T())/AskAsk;
 		xeaxpbypcz(1.0, xk, alpha, pk, omega, sk);
 		rk = zeaxpby(1.0, sk, -omega, Ask);
 		T rdashrkp1 = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
@@ -209,6 +218,10 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for(int k = 0; k < _itrmax; k++) {
 		xeaxpbypcz(beta, pk, 1.0, rk, -beta, uk);
@@ -221,14 +234,15 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		T Att = std::inner_product(Atk.begin(), Atk.end(), tk.begin(), T());
 		T AtAt = std::inner_product(Atk.begin(), Atk.end(), Atk.begin(), T());
 		if(k%2 == 0) {
-			zeta = Att/AtAt;
+			zeta = AtAt == T() ? T() : Att/AtAt;
 			ita = T();
 		} else {
 			T yy = std::inner_product(yk.begin(), yk.end(), yk.begin(), T());
 			T yt = std::inner_product(yk.begin(), yk.end(), tk.begin(), T());
 			T Aty = std::inner_product(Atk.begin(), Atk.end(), yk.begin(), T());
-			zeta = (yy*Att - yt*Aty)/(AtAt*yy - Aty*Aty);
-			ita = (AtAt*yt - Aty*Att)/(AtAt*yy - Aty*Aty);
+			T det = AtAt*yy - Aty*Aty;
+			zeta = det == T() ? T() : (yy*Att - yt*Aty)/det;
+			ita = det == T() ? T() : (AtAt*yt - Aty*Att)/det;
 		}
 		zeawpbxmypcz(zeta, Apk, ita, tkm1, rk, beta, uk);
 		xeaxpbypcz(ita, zk, zeta, rk, -alpha, uk);
@@ -326,6 +340,10 @@ std::vector<T> ILU0CG(CSR<T>& _A, CSR<T>& _M, const std::vector<T>& _b, int _itr
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 	
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -363,6 +381,10 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Mpk = PreILU0(_M, pk);		//Preconditioning
@@ -371,7 +393,8 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
 		std::vector<T> Msk = PreILU0(_M, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
-		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
+		T AMskAMsk = std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
+		T omega = AMskAMsk == T() ? T() : std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/AMskAMsk;
 		xeaxpbypcz(1.0, xk, alpha, Mpk, omega, Msk);
 		rk = zeaxpby(1.0, sk, -omega, AMsk);
 		T rdashrkp1 = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
@@ -427,6 +450,10 @@ std::vector<T> ScalingCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _e
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -465,6 +492,10 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Mpk = Scaling(D, pk);		//Preconditioning
@@ -473,7 +504,8 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
 		std::vector<T> Msk = Scaling(D, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
-		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
+		T AMskAMsk = std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
+		T omega = AMskAMsk == T() ? T() : std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/AMskAMsk;
 		xeaxpbypcz(1.0, xk, alpha, Mpk, omega, Msk);
 		rk = zeaxpby(1.0, sk, -omega, AMsk);
 		T rdashrkp1 = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
@@ -542,6 +574,10 @@ std::vector<T> SORCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps,
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
+	if (bnorm == T()) {
+		return xk;
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
-- 
2.43.0


From 826eded7176a3c50b8d3415e12658ce715dc1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 09/12] fix: bisection for tridiagonal eigenvalues returned an
 uninitialised value for a zero matrix

---
 src/LinearAlgebra/Solvers/Lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index b0631fa..129785c 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -47,7 +47,7 @@ T BisectionMethod(const std::vector<T>& _alpha, const std::vector<T>& _beta, int
         }
     }
 
-    T a1 = -b, a2 = b, lambda;
+    T a1 = -b, a2 = b, lambda = T();
     while((a2 - a1) > 1.0e-13*b){
         //----------Update lambda----------
         lambda = 0.5*(a1 + a2);
-- 
2.43.0


From 0dae3747d86b4a7d2778baaa46bc670348cd5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 10/12] fix: general shifted-invert Lanczos starts from a
 B-normalised vector and reorthogonalises against the Lanczos vectors

---
 src/LinearAlgebra/Solvers/Lanczos.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 129785c..e4d3c3e 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -251,8 +251,10 @@ void GeneralShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>& _eigenv
     std::vector<T> beta = std::vector<T>(_m);                                                           //  Values of side of diagonal
     std::vector<std::vector<T> > q = std::vector<std::vector<T> >(_m, std::vector<T>(_A.ROWS, T()));    //  Orthogonal vectors
     q[0] = GetDiagonal(A);
-    xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T q0norm = sqrt(std::inner_product(q[0].begin(), q[0].end(), p.begin(), T()));
+    xexda(q[0], q0norm);
+    xexda(p, q0norm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
@@ -291,8 +293,10 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
     std::vector<T> beta = std::vector<T>(_m);                                                           //  Values of side of diagonal
     std::vector<std::vector<T> > q = std::vector<std::vector<T> >(_m, std::vector<T>(_A.ROWS, T()));    //  Orthogonal vectors
     q[0] = GetDiagonal(A);
-    xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T q0norm = sqrt(std::inner_product(q[0].begin(), q[0].end(), p.begin(), T()));
+    xexda(q[0], q0norm);
+    xexda(p, q0norm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
@@ -300,7 +304,7 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
         std::vector<T> s = ScalingCG(A, p, itrmax, 1.0e-10);
         for(int i = 0; i < k - 2; i++) {
             std::vector<T> Bq = _B*q[i];
-            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), Bq);
+            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), q[i]);
         }
         if(k != 0){
             xexpay(s, -beta[k - 1], q[k - 1]);
-- 
2.43.0


From deac86bfba957aed915e07f4503ec207c9a5ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 11/12] fix: optimisers reported convergence for every negative
 objective value

---
 src/Optimize/Solver/CONLIN.h | 2 +-
 src/Optimize/Solver/MMA.h    | 2 +-
 src/Optimize/Solver/OC.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index 19d4500..a2d8dcc 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -80,7 +80,7 @@ private:
 
     template<class T>
     bool CONLIN<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index e15daa3..4a6c692 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -106,7 +106,7 @@ private:
 
     template<class T>
     bool MMA<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index 7312ef1..bf93a63 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -66,7 +66,7 @@ private:
 
     template<class T>
     bool OC<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue)/(_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue)/fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
-- 
2.43.0


From 037d5f9b6b057a5e081cde076d4484da95a3a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 12/12] fix: MMA and CONLIN Newton matrix counted the z-z term
 n times when there are at least as many constraints as variables

---
 src/Optimize/Solver/CONLIN.h | 4 +++-
 src/Optimize/Solver/MMA.h    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index a2d8dcc..6a46e05 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -249,9 +249,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj];
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index 4a6c692..186687f 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -301,9 +301,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj];
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
-- 
2.43.0

