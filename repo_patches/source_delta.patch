From cf3fa326095aef2b7dc96f3eceaadae358c9a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 01/13] fix: reduce a negative one-limb coefficient before
 negating it modulo q[i]

CRT::icrt computed q[i]-ah with ah the unreduced absolute value when Z_Q has a
single limb (LOGQ 61..64), so the subtraction wrapped around and ring products
were wrong.
---
 include/HEAAN/arith/conv/crt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/conv/crt.h b/include/HEAAN/arith/conv/crt.h
index 937b5dc..d6beae7 100644
--- a/include/HEAAN/arith/conv/crt.h
+++ b/include/HEAAN/arith/conv/crt.h
@@ -101,7 +101,7 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A_abs.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A_abs[len-1];
+      uint64_t ah = A_abs[len-1] % q[i]; // when len == 1, the loop below does not reduce it
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A_abs[j], ah, q[i]);
       }
-- 
2.43.0


From 71156ddbfc0c6e9ea6100ec48913af3707f956c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 02/13] fix: build the transform tables of fftNR and ifftNR
 once when several threads use them first

---
 include/HEAAN/matrix/DFT.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/HEAAN/matrix/DFT.h b/include/HEAAN/matrix/DFT.h
index e130f22..23acdcc 100644
--- a/include/HEAAN/matrix/DFT.h
+++ b/include/HEAAN/matrix/DFT.h
@@ -69,13 +69,14 @@ void fftNR(
   double zr[1 << (LOGN - 1)],
   double zi[1 << (LOGN - 1)]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
-	if(!is_init) {
+	// built once, also when several threads get here first
+	static const bool is_init = []() {
   		splitU0NR<LOGN>(U0r, U0i);
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	for(int i = 0; i < N/2; ++i) {
 		zr[i] = m[i];
@@ -97,19 +98,20 @@ template<int LOGN>
 void ifftNR( const double zr[1 << (LOGN - 1)],
 		   const double zi[1 << (LOGN - 1)], double m[1 << LOGN]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 
-	if(!is_init) {
+	// built once, also when several threads get here first
+	static const bool is_init = []() {
 		splitU0NR<LOGN>(U0r, U0i);
     	for (int n = 0; n < LOGN - 1; n++) {
 			U0r[n].transpose();
 			U0i[n].transpose();
 			U0i[n].negate();
 		}
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	for(int i = 0; i < N/2; ++i) {
 		m[i] = zr[i];
-- 
2.43.0


From d990b7c7fdb00619761686a598d8335eb88442b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 03/13] fix: build the ring multiplication engine once when
 several threads use it first

---
 include/HEAAN/arith/conv.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/HEAAN/arith/conv.h b/include/HEAAN/arith/conv.h
index e78bc38..e06858e 100644
--- a/include/HEAAN/arith/conv.h
+++ b/include/HEAAN/arith/conv.h
@@ -141,11 +141,7 @@ void conv( const R_Q<LOGQ,N>& A,
         0xfffffffee8c0001ULL
     };
     const int L = (2*LOGQ + 17 + 59) / 60;
-	static CONV<L, LOGQ, N> *theConv = nullptr;
-    static bool theConv_initialized = false;
-    if(theConv_initialized == false) {
-        theConv = new CONV<L, LOGQ, N>(Q_primes);
-        theConv_initialized = true;
-    }
+    // built once, also when several threads get here first
+    static CONV<L, LOGQ, N> *const theConv = new CONV<L, LOGQ, N>(Q_primes);
     theConv->conv(A, B, C);
 }
\ No newline at end of file
-- 
2.43.0


From 549c0caceffb621d371697af81a3001c70ba4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 04/13] fix: linear_transform with given keys multiplied an
 uninitialised ciphertext for a diagonal at offset 0

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 2d3611d..019e55e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -134,7 +134,7 @@ void linear_transform( const SparseDiagonal<1 << (LOGN - 1),S>& Ar,
 			R_Q<LOGQ, N> pt;
 			encode<LOGQ, LOGN>(Ar.vec[s],
 							Ai.vec[s], 1ULL << LOGDELTA, pt);
-			R_Q_square<LOGQ, N> ct_rot;
+			R_Q_square<LOGQ, N> ct_rot(ct);
 			if (Ar.off[s] != 0)
 				rot_ct<LOGQ, N>(ct, Ar.off[s],*(rkey[s]), ct_rot);
 			ct_rot *= pt;
-- 
2.43.0


From abfa5136642c8abfd0a764eefb70ab6f10fd65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 05/13] fix: the dense linear_transform did not compile: pass
 the rotation amount to rot_ct

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 019e55e..1a33f3e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -110,7 +110,7 @@ void linear_transform( const double Ar[1 << (LOGN - 1)][1 << (LOGN - 1)],
 		ct_rot_pt *= pt;
 
 		Act += ct_rot_pt; R_Q_square<LOGQ,N> temp; 
-		rot_ct<LOGQ,N>(ct_rot, rkey, temp); // BUG
+		rot_ct<LOGQ,N>(ct_rot, 1, rkey, temp);
 		ct_rot = temp; 
 	}
 }
-- 
2.43.0


From 53c4cf72e106a63462087cbd85ff450cf14f2038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 06/13] fix: evaluate negative coefficients correctly in the
 polynomials of degree 3, 7 and 15

---
 include/HEAAN/poly.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 6538f21..1147373 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -12,9 +12,10 @@ void eval_poly_deg3( const double u[4],
 	R_Q<LOGQ,N> L0[4];
 	for(int n=0;n<4;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -51,9 +52,10 @@ void eval_poly_deg7( const double u[8],
 	R_Q<LOGQ,N> L0[8];
 	for(int n=0;n<8;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -114,9 +116,10 @@ void eval_poly_deg15( const double u[16],
 	R_Q<LOGQ,N> L0[16];
 	for(int n=0;n<16;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
-- 
2.43.0


From 382bc23d02c316a88e0d91c00a4bffb01f027599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 07/13] fix: eval_poly_deg7 aborted above 1300 bits in leftover
 debug output

---
 include/HEAAN/poly.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 1147373..89af53d 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -91,9 +91,6 @@ void eval_poly_deg7( const double u[8],
 		temp[0][0]-=one;
 		RS<LOGQ-LOGDELTA, LOGQ-LOGDELTA*2,N>(temp,T4);
 	}
-	T4.print();
-	L2[0].print();
-	L2[1].print();
 	{
 		R_Q_square<LOGQ-LOGDELTA*2,N> temp;
 		Mul<LOGQ-LOGDELTA*2,N>(T4, L2[1], evk3, temp);
-- 
2.43.0


From 2e2d29f2dac497062955d8659957a0bcb5bfcca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 08/13] fix: build the factor tables of CoeffToSlot and
 SlotToCoeff once when several threads use them first

---
 include/HEAAN/bootstrap.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/HEAAN/bootstrap.h b/include/HEAAN/bootstrap.h
index ad6122c..9255268 100644
--- a/include/HEAAN/bootstrap.h
+++ b/include/HEAAN/bootstrap.h
@@ -16,11 +16,11 @@ void CoeffToSlot (	const R_Q_square<  LOGQ,1<<LOGN>& ct,
 					const int s[1 << LOGN],
 					R_Q_square<  LOGQ,1<<LOGN> ct_[2]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 
-	if(!is_init) {
+	// built once, also when several threads get here first
+	static const bool is_init = []() {
 		splitU0NR<LOGN>(U0r, U0i);
     	for (int n = 0; n < LOGN - 1; n++) {
 			U0r[n].transpose();
@@ -29,8 +29,9 @@ void CoeffToSlot (	const R_Q_square<  LOGQ,1<<LOGN>& ct,
 			U0r[n] *= 1 / pow(N, 1.0 / (LOGN - 1));
 			U0i[n] *= 1 / pow(N, 1.0 / (LOGN - 1));
 		}
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	R_Q_square<LOGQ, N> U0ct;
 	grouped_serial_linear_transform<LOGQ, LOGN, LOGDELTA, 3, LOGN-1, G>(U0r, U0i, ct, s, U0ct);
@@ -54,13 +55,13 @@ void SlotToCoeff( const R_Q_square<  LOGQ,1<<LOGN>&  ct0,
 				  const int skey[1<<LOGN],
 					    R_Q_square<  LOGQ,1<<LOGN>& ct_ ){	
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 	static SparseDiagonal<N/2,3> iU0r[LOGN-1];
     static SparseDiagonal<N/2,3> iU0i[LOGN-1];
 
-	if(!is_init) {
+	// built once, also when several threads get here first
+	static const bool is_init = []() {
 		SparseDiagonal<N/2,3> U0r_temp[LOGN-1];
     	SparseDiagonal<N/2,3> U0i_temp[LOGN-1];
 
@@ -80,8 +81,9 @@ void SlotToCoeff( const R_Q_square<  LOGQ,1<<LOGN>&  ct0,
 				iU0i[i] = U0i_temp[LOGN - 2 - i];
 			}
 		}		
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	grouped_serial_linear_transform<LOGQ, LOGN, LOGDELTA, 3, LOGN-1, G>(U0r, U0i, ct0, skey, ct_);
 	R_Q_square<LOGQ, N> ct2;
-- 
2.43.0


From dc8f412f7b59ba6aaaff3360ed9dcaac5879026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 09/13] fix: convert_frc_tou leaked its first half when a later
 allocation failed

---
 include/HEAAN/poly.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 89af53d..5e52270 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -2,6 +2,8 @@
 
 #include "core.h"
 
+#include <vector>
+
 template< int LOGQ, int N, int LOGDELTA >
 void eval_poly_deg3( const double u[4],
 					 const R_Q_square<   LOGQ         ,N>&   ct,
@@ -550,13 +552,11 @@ void convert_frc_tou( const double* c, double* u, const int N ){
 			  u[1] = c[1]-c[3];
 			  u[2] = c[2];
 			  u[3] = c[3]*2;}
-	else    { double* c0=new double[N/2]; for(int i=0; i<N/2; i++) c0[i] = c[i    ];
-			  double* c1=new double[N/2]; for(int i=0; i<N/2; i++) c1[i] = c[i+N/2];
+	else    { std::vector<double> c0(c    , c+N/2); // freed also when a later allocation fails
+			  std::vector<double> c1(c+N/2, c+N  );
 			  for(int i=1; i<N/2; i++){
 				  c0[N/2-i]-=c1[i]; c1[i]*=2;}
-			  convert_frc_tou(c0,u    ,N/2);
-			  convert_frc_tou(c1,u+N/2,N/2);
-			  delete[] c0;
-			  delete[] c1;
+			  convert_frc_tou(c0.data(),u    ,N/2);
+			  convert_frc_tou(c1.data(),u+N/2,N/2);
 	}
 }
-- 
2.43.0


From e377eeb4f6283dfb9cd1fb8c429d7432496f5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 10/13] fix: print each timer report in one piece when several
 threads use timers

---
 include/util/util.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/util/util.h b/include/util/util.h
index 146be76..8360ecb 100644
--- a/include/util/util.h
+++ b/include/util/util.h
@@ -65,12 +65,13 @@ class Timer {
         Timer(std::string name) {
             name_ = name;
             begin_ = std::chrono::steady_clock::now();
-            std::cout << name_ << " start" << std::endl;
+            std::cout << name_ + " start\n" << std::flush;
         }
 
         void stop() {
             end_ = std::chrono::steady_clock::now();
-            std::cout << name_ << " : " << std::chrono::duration_cast<std::chrono::milliseconds>(end_ - begin_).count() << "[ms]" << std::endl;
+            // in one piece: other threads may be printing at the same time
+            std::cout << name_ + " : " + std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(end_ - begin_).count()) + "[ms]\n" << std::flush;
         }
 
     private:
-- 
2.43.0


From 1b5e8747ee841242652ffd7e294e2510c8732908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 11/13] fix: aggregate of two messages read past the end of the
 second one

---
 include/impl/message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/impl/message.h b/include/impl/message.h
index eca85d6..66bb7eb 100644
--- a/include/impl/message.h
+++ b/include/impl/message.h
@@ -133,7 +133,7 @@ void aggregate(
 ){
     const int N = 1 << LOGN;
     for(int i = 0; i < N; ++i) {
-        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i];
-        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i];
+        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i - N/2];
+        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i - N/2];
     }
 }
\ No newline at end of file
-- 
2.43.0


From 01cb1ae513babb781d490664396400d90310df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 12/13] fix: adding a number to itself lost the carries between
 its words

---
 include/HEAAN/arith/Z_Q.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 3fd671f..81effac 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -191,8 +191,9 @@ template<int LOGQ>
 void Z_Q<LOGQ>::operator+=(const Z_Q<LOGQ>& A) {
 	int length = (LOGQ + 63) / 64; bool c = 0;
 	for (int i = 0; i < length; i++) {
-		data[i] += A.data[i];
-		bool c_next = data[i] < A.data[i];
+		uint64_t a = A.data[i]; // A may be *this
+		data[i] += a;
+		bool c_next = data[i] < a;
 		if (c) data[i]++;
 		c = (c&&data[i] == 0) || c_next;
 	}
-- 
2.43.0


From 15774f03728ed418b3eb474520bfebc856e62efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 13/13] fix: adding to a diagonal flagged as zero clears the
 flag

SparseDiagonal += and -= left zero[s] set when a nonzero diagonal was added to one
flagged as zero, so that the linear transforms, which leave flagged diagonals out,
dropped it.
---
 include/HEAAN/matrix/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HEAAN/matrix/matrix.h b/include/HEAAN/matrix/matrix.h
index 28a07fc..7ff073e 100644
--- a/include/HEAAN/matrix/matrix.h
+++ b/include/HEAAN/matrix/matrix.h
@@ -98,6 +98,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] += B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
@@ -106,6 +107,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] -= B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
-- 
2.43.0

