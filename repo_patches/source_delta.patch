From 14dc6f416e38431e8e54771437bd8efb79ccff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 01/33] fix: slice unfolding accepted a slice index one past
 the end of the local grid

---
 lib/scalar/folder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/scalar/folder.cpp b/lib/scalar/folder.cpp
index 94bd2be..ff70583 100755
--- a/lib/scalar/folder.cpp
+++ b/lib/scalar/folder.cpp
@@ -105,7 +105,7 @@ void	Folder::unfoldField()
 template<typename cFloat>	// Only rank 0 can do this, and currently we quietly exist for any other rank. This can generate bugs if sZ > local Lz
 void	Folder::unfoldField2D (const size_t sZ)
 {
-	if ((sZ < 0) || (sZ > field->Depth()) || field->Device() == DEV_GPU)
+	if ((sZ < 0) || (sZ >= field->Depth()) || field->Device() == DEV_GPU)
 		return;
 
 	cFloat *mg1 = static_cast<cFloat *> ((void *) field->mFrontGhost());
@@ -152,7 +152,7 @@ void	Folder::unfoldField2D (const size_t sZ)
 template<typename cFloat>
 void	Folder::unfoldField2DYZ (const size_t sX)
 {
-	if ((sX < 0) || (sX > field->Length()) || field->Device() == DEV_GPU)
+	if ((sX < 0) || (sX >= field->Length()) || field->Device() == DEV_GPU)
 		return;
 
 	cFloat *mg1 = static_cast<cFloat *> (field->mFrontGhost());
@@ -293,7 +293,7 @@ void	Folder::unfoldField2DYZ (const size_t sX)
 template<typename cFloat>	// Only rank 0 can do this, and currently we quietly exist for any other rank. This can generate bugs if sZ > local Lz
 void	Folder::unfoldM22D (const size_t sZ)
 {
-	if ((sZ < 0) || (sZ > field->Depth()) || field->Device() == DEV_GPU)
+	if ((sZ < 0) || (sZ >= field->Depth()) || field->Device() == DEV_GPU)
 		return;
 
 	cFloat *mg1 = static_cast<cFloat *> ((void *) field->m2FrontGhost());
-- 
2.43.0


From 127fc7a957f17ce8615821c8c3d8d5a9d5b53ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 02/33] fix: double precision cosine potential force mixed up
 real and imaginary parts

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..03be42f 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0011));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 4189923136854b661890445715f637ec9113c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 03/33] fix: radial damping in double precision used the wrong
 partner for every second site

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..712e52c 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From 5cb95521bc296444c8e8c58e867db26fd0eda2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 04/33] fix: N=2 axion potential force had opposite signs in
 different precisions and memory modes

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 712e52c..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From 6d0f2bc595c1b6c20c1cda2abe855343bdfaae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 05/33] fix: third stage of the axion propagator used the mass
 and scale factor of the second one

---
 include/propagator/propClass.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..cf113db 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -532,6 +532,10 @@
 		for (int s = 0; s<nStages; s+=2) {
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
@@ -563,7 +567,7 @@
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
 
-			ppar.massA  = axion->AxionMassSq();
+			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-- 
2.43.0


From 38b56a89a135ffc4251c3dc9c0d85c52842346cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 06/33] fix: low memory propagator never moved the field and
 passed an unset R'

---
 include/propagator/propClass.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index cf113db..ed018c7 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -762,6 +762,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
@@ -772,7 +773,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
@@ -784,6 +785,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
-- 
2.43.0


From 118d097a9f31b52dd3816374ddb95a137f32e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 07/33] fix: shallow grids updated the overlap of the two
 borders twice and unordered ranges overran the field

---
 include/propagator/propClass.h   | 38 ++++++++++++++++++++------------
 include/propagator/propNaxXeon.h |  3 +++
 include/propagator/propPaxXeon.h |  3 +++
 include/propagator/propXeon.h    |  3 +++
 4 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index ed018c7..f3e0e13 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -513,6 +513,8 @@
 		ppar.beta  = axion->BckGnd()->ICData().beta;
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* The two borders overlap in grids shallower than twice the ghost size */
+		size_t VO = (V > 2*BO) ? V : 2*BO;
 
 		if (lastStage == PROP_FIRST) {
 			/* Last kick */
@@ -542,7 +544,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, VO, V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d1;
 			axion->updateR();
 			axion->sendGhosts(FIELD_M2, COMM_SDRV);
@@ -555,7 +557,7 @@
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, VO  , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -575,7 +577,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., VO  , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 		}
 
 	}
@@ -661,6 +663,8 @@
 
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* The two borders overlap in grids shallower than twice the ghost size */
+		size_t VO = (V > 2*BO) ? V : 2*BO;
 
 		auto *cD  = d;
 
@@ -691,7 +695,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d1;
 			axion->updateR();
 
@@ -707,7 +711,7 @@
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -728,7 +732,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 		}
 
 		axion->setM2     (M2_DIRTY);
@@ -754,6 +758,8 @@
 
 
 		size_t BO = ppar.Ng*S;
+		/* The two borders overlap in grids shallower than twice the ghost size */
+		size_t VO = (V > 2*BO) ? V : 2*BO;
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
@@ -771,7 +777,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 
 			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
@@ -792,7 +798,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 	}
@@ -1025,6 +1031,8 @@
 		ppar.beta  = axion->BckGnd()->ICData().beta;
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* The two borders overlap in grids shallower than twice the ghost size */
+		size_t VO = (V > 2*BO) ? V : 2*BO;
 		size_t CO = V-2*ppar.Ng*S;
 
 		LogMsg(VERB_PARANOID,"[propNax] Ng %d",ppar.Ng);
@@ -1042,7 +1050,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 
@@ -1054,7 +1062,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d2;
 			axion->updateR();
 		}
@@ -1070,7 +1078,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 		axion->setM2     (M2_DIRTY);
@@ -1094,6 +1102,8 @@
 
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* The two borders overlap in grids shallower than twice the ghost size */
+		size_t VO = (V > 2*BO) ? V : 2*BO;
 
 		LogMsg(VERB_PARANOID,"[propPax] Ng %d ood2 %e beta %f PC %f %f %f ",ppar.Ng,ppar.ood2a,ppar.beta,ppar.PC[0],ppar.PC[1],ppar.PC[2]);
 
@@ -1126,7 +1136,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 
 			axion->sendGhosts(FIELD_V, COMM_SDRV);
 
@@ -1138,7 +1148,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 		}
@@ -1156,7 +1166,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, VO  , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 
diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 15093c8..c906d3f 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -35,6 +35,9 @@ template<const VqcdType VQcd>
 inline	void	propagateNaxKernelXeon(const void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, PropParms ppar, const double dz, const double c, const double d,
 				const size_t Vo, const size_t Vf, FieldPrecision precision, const unsigned int bSizeX, const unsigned int bSizeY, const unsigned int bSizeZ)
 {
+	if (Vo>Vf)
+		return ;
+
 	const double ct  = ppar.ct;
 	const size_t NN  = ppar.Ng;
 	const size_t Lx  = ppar.Lx;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..a241a9e 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -35,6 +35,9 @@ template<const KickDriftType KDtype>
 inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, PropParms ppar, const double dz,
 				const size_t Vo, const size_t Vf, FieldPrecision precision, const unsigned int bSizeX, const unsigned int bSizeY, const unsigned int bSizeZ)
 {
+	if (Vo>Vf)
+		return ;
+
 	const double ct   = ppar.ct;
 	const size_t NN   = ppar.Ng;
 	const size_t Lx   = ppar.Lx;
diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index ca7cf02..445fcb7 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -1040,6 +1040,9 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 	const double Rp    = ppar.Rp ;
 	const double deti  = ppar.dectime ;
 
+	if (Vo>Vf)
+		return ;
+
 	if (precision == FIELD_DOUBLE)
 	{
 #if	defined(__AVX512F__)
-- 
2.43.0


From 9094dec97cfff2eb41596526d9437c2721983bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 08/33] fix: derivatives of R and of the axion mass follow
 R(ct) with gravity, and the tabulated log derivative

---
 lib/cosmos/cosmos.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 632cc03..b50f9b1 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -183,7 +183,11 @@ double  Cosmos::Rpp  (const double ct)
     // R = ct^frw
     // R''/R = frw(frw-1)/ct^2
   	//except in the case where frw = 0,1
-  	rpp = frw*(frw-1.0)/(ct*ct) ;
+    // and R = ct(1+g ct/4) with gravity
+    if (frw == 1 && icdatastruc.grav > 0.0)
+      rpp = 0.5*icdatastruc.grav/R(ct);
+    else
+      rpp = frw*(frw-1.0)/(ct*ct) ;
   }
 LogMsg(VERB_PARANOID,"[Cos:Rpp] Rpp %.2e ",rpp);
   return rpp;
@@ -199,7 +203,11 @@ double  Cosmos::Rp  (const double ct)
   else {
   // R = ct^frw
   // R'/R = frw/ct
-	rp = frw/(ct) ;
+  // and R = ct(1+g ct/4) with gravity
+    if (frw == 1 && icdatastruc.grav > 0.0)
+      rp = (1 + 0.5*ct*icdatastruc.grav)/R(ct);
+    else
+      rp = frw/(ct) ;
   LogMsg(VERB_PARANOID,"[Cos] Rp = %e ",rp);
   }
   return rp;
@@ -272,17 +280,17 @@ double  Cosmos::DAxionMass2Dct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
 
       if (RNow >= zThRes && RNow <= zRestore)
         dMass2 = 0;
 
       if (RNow > zRestore)
-        dMass2 = nQcdr*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcdr*Rp(ct)*AxionMass2(ct);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
       else
         dMass2 = 0.0;
     }
@@ -296,7 +304,7 @@ double  Cosmos::DlogMARDlogct (const double ct)
 {
   if (ueCosm){
     double e = 1.e-6;
-    return (ct*std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
+    return ct*(std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
   }
   else {
     /*(nqcd/2 + 1)*frw*/
@@ -306,19 +314,19 @@ double  Cosmos::DlogMARDlogct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcd/2+1);
 
       if (RNow >= zThRes && RNow <= zRestore)
-        dlmRlct = frw;
+        dlmRlct = ct*Rp(ct);
 
       if (RNow > zRestore)
-        dlmRlct = frw*(nQcdr/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcdr/2+1);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcd/2+1);
       else
-        dlmRlct = frw;
+        dlmRlct = ct*Rp(ct);
     }
 
 LogMsg(VERB_PARANOID,"[Cos:] DlogMARDlogct %.2e ",dlmRlct);
-- 
2.43.0


From acf10161c1c5f412cc6fb343e4d85754c189ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 09/33] fix: time integrals of the axion mass saturate at R =
 zThRes and keep the saturated mass

---
 lib/scalar/scalarField.cpp | 153 +++++++++++++------------------------
 1 file changed, 54 insertions(+), 99 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..007e071 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1220,114 +1220,69 @@ double	Scalar::AxionMassSq() {
 // and R = z^frw
 double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
-	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
-	double &indi3    = bckgnd->Indi3();
-	double &nQcd     = bckgnd->QcdExp();
+	double  frw    = bckgnd->Frw();
+	double &zThRes = bckgnd->ZThRes();
+	double &indi3  = bckgnd->Indi3();
+	double &nQcd   = bckgnd->QcdExp();
 
 	// assume zrestore is infty
-	// exponent of the time integral
-	if (z > z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z0 > zThRes && (z >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
+	// the mass saturates when R = zThRes, in Minkowski (R=1) it is constant
+	bool   mink = (frw == 0.);
+	double zT   = mink ? 0. : pow(zThRes, 1./frw);
+	double mTh2 = indi3*indi3*((mink && zThRes > 1.) ? 1. : pow(zThRes, nQcd));
+
+	// exponents of the time integral before and after saturation
+	double eB = frw*(nQcd+nn) + 1;
+	double eA = frw*nn + 1;
+
+	// integral from 0
+	auto prim = [&] (double x) {
+		if (mink)
+			return mTh2*x;
+		if (x <= zT)
+			return indi3*indi3*pow(x, eB)/eB;
+		return indi3*indi3*pow(zT, eB)/eB + mTh2*(pow(x, eA)-pow(zT, eA))/eA;
+	};
+
+	return prim(z) - prim(z0);
 }
 
 // 2nd time integral of the axion mass^2 R^n assuming it is a truncated power law
 // and R = z^frw
 double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
-	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
-	double &indi3    = bckgnd->Indi3();
-	double &nQcd     = bckgnd->QcdExp();
-
-	// assume zrestore is infty
-	// exponent of the time integral
-	if (z>z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
-
+	double  frw    = bckgnd->Frw();
+	double &zThRes = bckgnd->ZThRes();
+	double &indi3  = bckgnd->Indi3();
+	double &nQcd   = bckgnd->QcdExp();
+
+	// same conventions as IAxionMassSqn
+	bool   mink = (frw == 0.);
+	double zT   = mink ? 0. : pow(zThRes, 1./frw);
+	double mTh2 = indi3*indi3*((mink && zThRes > 1.) ? 1. : pow(zThRes, nQcd));
+	double eB = frw*(nQcd+nn) + 1;
+	double eA = frw*nn + 1;
+
+	// 1st and 2nd integral from 0
+	auto prim = [&] (double x) {
+		if (mink)
+			return mTh2*x;
+		if (x <= zT)
+			return indi3*indi3*pow(x, eB)/eB;
+		return indi3*indi3*pow(zT, eB)/eB + mTh2*(pow(x, eA)-pow(zT, eA))/eA;
+	};
+	auto prim2 = [&] (double x) {
+		if (mink)
+			return 0.5*mTh2*x*x;
+		if (x <= zT)
+			return indi3*indi3*pow(x, eB+1)/(eB*(eB+1));
+		return indi3*indi3*pow(zT, eB+1)/(eB*(eB+1)) + prim(zT)*(x-zT)
+			+ mTh2*((pow(x, eA+1)-pow(zT, eA+1))/(eA*(eA+1)) - pow(zT, eA)*(x-zT)/eA);
+	};
+
+	return prim2(z) - prim2(z0) - prim(z0)*(z-z0);
 }
+
 // Saxion mass squared, perhaps the following functions could be rewriten to use this one
 double  Scalar::SaxionMassSq  ()
 {
-- 
2.43.0


From da50073a9d8179fa9503498d3cc30dde2256c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 10/33] fix: a step that lands after saturation is never longer
 than the adaptive step

---
 lib/scalar/scalarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 007e071..c6101e2 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1353,7 +1353,7 @@ double	Scalar::dzSize	   (double zNow) {
 			// dct = pow(bckgnd->ZThRes(),1.0/bckgnd->Frw()) - zNow;
 			/* Rather, go a ministep ahead */
 			double zNext = zNow + dct;
-			dct = pow(bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes()),1.0/bckgnd->Frw()) - zNow;
+			dct = std::min(dct, pow(bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes()),1.0/bckgnd->Frw()) - zNow);
 			LogMsg(VERB_PARANOID,"[sca:ct] >> dct decreased to %e just jump over Rc [ct,ct_Next,ct+sct]",dct, zNow, zNext,zNow+dct);
 		}
 	LogMsg(VERB_HIGH,"[sca:ct] dct = %e ct = %e",dct,zNow);
-- 
2.43.0


From 99145ef8d1f6624f8a0892b204d76f4456487f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 11/33] fix: HubbleConformal is R'/R in radiation domination as
 well

---
 lib/scalar/scalarField.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index c6101e2..683f470 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1199,11 +1199,8 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
+	// R'/R
+	double Rp = bckgnd->Rp(*z);
 	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
 	return Rp ;
 }
-- 
2.43.0


From e1b13eafacce9fc273dd2ce46d14bae861f6a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 12/33] fix: no step back at the saturation threshold of power
 laws with a tabulated cosmology

---
 lib/scalar/scalarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 683f470..1ba2ece 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1344,7 +1344,7 @@ double	Scalar::dzSize	   (double zNow) {
 	// 	}
 
 	RNext = Rfromct(zNow + dct);
-	if ( (RNow < bckgnd->ZThRes()) && (RNext > bckgnd->ZThRes()) && (bckgnd->Frw() != 0.0))
+	if ( (RNow < bckgnd->ZThRes()) && (RNext > bckgnd->ZThRes()) && (bckgnd->Frw() != 0.0) && !bckgnd->UeC())
 		{
 			/*This would set the next point to Rc but it can be stuck*/
 			// dct = pow(bckgnd->ZThRes(),1.0/bckgnd->Frw()) - zNow;
-- 
2.43.0


From 682aabf3f3754af647a8a8fa20770743e7f407aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 13/33] fix: velocity of the conformal angle uses R' of the
 background, not frw R/ct

---
 lib/scalar/thetaXeon.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/scalar/thetaXeon.cpp b/lib/scalar/thetaXeon.cpp
index 9ead872..b12bd7c 100644
--- a/lib/scalar/thetaXeon.cpp
+++ b/lib/scalar/thetaXeon.cpp
@@ -28,9 +28,8 @@ void	toThetaKernelXeon (Scalar *sField, const Float shift)
 	Float *aField1  = static_cast<Float*>(sField->mFrontGhost()) ;
 	Float *aField2  = static_cast<Float*>(sField->mBackGhost()) ;
 
-	const Float z = static_cast<Float>(sField->zV()[0]);
 	const Float R = static_cast<Float>(sField->RV()[0]);
-	const Float F = static_cast<Float>(sField->BckGnd()->Frw())*R/z;
+	const Float F = static_cast<Float>(sField->BckGnd()->Rp(sField->zV()[0]))*R; // R' (Rp is R'/R)
 
 	for (size_t cZ = 0; cZ < Lz; cZ++)
 	{
-- 
2.43.0


From 9e9d6c2c3e43f870179f55bb2f597f5d59c9c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 14/33] fix: theta2Cmplx uses R'/R for the radial velocity, not
 1/R

---
 lib/scalar/theta2CmplxXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..d789026 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV()); // R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV()); // R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
-- 
2.43.0


From 840223ca56aa29bc41678dc84938120ce253cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 15/33] fix: adiabatic correction of the Paxion velocity is
 m'/(2m^2) of the conformal mass

---
 lib/scalar/theta2PaxionXeon.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/theta2PaxionXeon.cpp b/lib/scalar/theta2PaxionXeon.cpp
index e5c7b7b..c50b9ea 100644
--- a/lib/scalar/theta2PaxionXeon.cpp
+++ b/lib/scalar/theta2PaxionXeon.cpp
@@ -15,15 +15,14 @@ void	th2PaxionXeon (Scalar *sField)
 		const size_t S  = sField->Surf();
 
 		double mA    = sField->AxionMass();
-		double R2    = (*sField->RV())*(*sField->RV());
-		double ct    = (*sField->zV());
-		double frw   = (sField->BckGnd()->Frw());
+		double R     = (*sField->RV());
+		double Rp    = (sField->BckGnd()->Rp(*sField->zV())); // R'/R
 		double mA2   = (sField->AxionMassSq());
 		double DmA2ct= sField->BckGnd()->DAxionMass2Dct(*sField->zV());
 
 		Float sqcms1 = (Float) sqrt(0.5*mA*(*sField->RV()));
 		Float sqcms2 = (Float) sqrt(2.0*mA*(*sField->RV()));
-		Float adiab  = (Float) (DmA2ct + 2*frw*mA2*R2/ct)/(4*mA2*mA) ;
+		Float adiab  = (Float) ((DmA2ct + 2*mA2*Rp)/(4*mA2*mA*R)) ; // m'/(2 m^2) with m = mA R
 		Float *cfield = static_cast<Float*> (sField->mStart());
 		Float *cveloc = static_cast<Float*> (sField->vCpu());
 		Float *faxion = static_cast<Float*> (sField->m2Cpu());
-- 
2.43.0


From e81e36b73b25d5870b066fd34fd0fe072b98a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 16/33] fix: scaleField does not run past the end of v with
 more than one ghost slice

---
 lib/scalar/scaleXeon.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..6d72ebb 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -22,6 +22,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 				case FIELD_V:
 				field = static_cast<complex<double>*> (sField->vCpu());
+				vol = sField->Size(); // v has no ghost slices
 				break;
 
 				case FIELD_M2:
@@ -60,6 +61,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 				case FIELD_V:
 				field = static_cast<complex<float> *> (sField->vCpu());
+				vol = sField->Size(); // v has no ghost slices
 				break;
 
 				case FIELD_M2:
-- 
2.43.0


From c830518e88f7f6fb3ee467e0a0a1173e2748a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 17/33] fix: a Paxion field is not allocated a second time as
 Faxion

---
 lib/scalar/scalarField.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 1ba2ece..94ada16 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -240,6 +240,7 @@ const std::complex<float> If(0.,1.);
 			alignAlloc ((void**) &v,   mAlign, mBytes);
 			trackAlloc ((void**) &str, n3);
 			totalCPU += mBytes*2 + n3;
+			break;
 
 		case FIELD_FAXION:
 			LogMsg(VERB_NORMAL, "[sca] allocating theta, vheta, rho, vho, gra");
-- 
2.43.0


From b2bcb95f67a13fcb53d9fb45d3dd31b5f1a1abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 18/33] fix: velocity holds the ghosts of the Paxion and Naxion
 fields an axion becomes

---
 lib/scalar/scalarField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 94ada16..743bc10 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -207,7 +207,8 @@ const std::complex<float> If(0.,1.);
 
 	LogMsg(VERB_NORMAL, "[sca] Number of points to be allocatted: v3[m]  %llu n2(Lz+2)[v] %llu n3[str]", v3, (n2*(nLz + 2)),n3);
 	const size_t	mBytes = v3*fSize;
-	const size_t	vBytes = (n2*(nLz + 2))*fSize;
+	/* Two slices of padding for FFTs, and room for the ghosts of the non-relativistic fields */
+	const size_t	vBytes = (n2*(nLz + 2*(Ngg > 1 ? Ngg : 1)))*fSize;
 	LogMsg(VERB_NORMAL, "[sca] Bytes to be allocatted: mBytes %.3e GB, vBytes %.3e GB, strBytes %.3e GB", mBytes/1e9, vBytes/1e9, n3/1e9);
 	size_t totalCPU = 0;
 	switch (fieldType)
@@ -355,7 +356,7 @@ const std::complex<float> If(0.,1.);
 
 	LogMsg(VERB_NORMAL, "[sca] Setting m,v to 0");
 	memset (m, 0, fSize*v3);
-	memset (v, 0, fSize*(n2*(nLz + 2)));
+	memset (v, 0, vBytes);
 	if (fieldType == FIELD_FAXION){
 		memset (rho, 0, fSize*v3);
 		memset (vho, 0, fSize*v3);
-- 
2.43.0


From e26f8680b49400aaf8737a03afd84827d4f4b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 19/33] fix: the whole second buffer of an axion field starts
 zeroed

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 743bc10..18416c0 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -300,12 +300,12 @@ const std::complex<float> If(0.,1.);
 			if (!lowmemGPU){
 				LogMsg(VERB_NORMAL, "[sca] allocating 2mBytes for m2");
 				alignAlloc ((void**) &m2, mAlign, 2*mBytes);
-				memset (m2, 0, 2*fSize*n3);
+				memset (m2, 0, 2*mBytes);
 				totalCPU += mBytes*2;
 			} else {
 				LogMsg(VERB_NORMAL, "[sca] allocating mBytes for m2 [Experimental warning]");
 				alignAlloc ((void**) &m2, mAlign, mBytes);
-				memset (m2, 0, fSize*n3);
+				memset (m2, 0, mBytes);
 				totalCPU += mBytes;
 			}
 
-- 
2.43.0


From 42cf809d1daf86d3cf4dc7301dd46cb0db4036b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 20/33] fix: a field releases v and the auxiliary fields
 whatever it was created as or became

---
 include/scalar/scalarField.h |  1 +
 lib/scalar/scalarField.cpp   | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/scalar/scalarField.h b/include/scalar/scalarField.h
index 58855fa..24c547b 100755
--- a/include/scalar/scalarField.h
+++ b/include/scalar/scalarField.h
@@ -44,6 +44,7 @@
 		bool folded, M2folded;
 		bool	lowmem;
 		bool    lowmemgpu;
+		bool	vInM;		// v lives in the allocation of m
 		size_t Ng;
 
 		// conformal time
diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 18416c0..c5ec468 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -56,6 +56,8 @@ const std::complex<float> If(0.,1.);
 	Profiler &prof = getProfiler(PROF_SCALAR);
 
 	lowmemgpu = lowmemGPU;
+	vInM = false;
+	rho = vho = g = nullptr;
 	prof.start();
 
 	LogMsg(VERB_NORMAL,"[sca] Constructor Scalar");
@@ -232,6 +234,7 @@ const std::complex<float> If(0.,1.);
 			LogMsg(VERB_NORMAL, "[sca] allocating m, v");
 			alignAlloc ((void**) &m, mAlign, mBytes+vBytes);
 			v = static_cast<void *>(static_cast<char *>(m) + mBytes );
+			vInM = true;
 			trackAlloc ((void**) &str, n3);
 			totalCPU += mBytes+vBytes+n3;
 			break;
@@ -545,9 +548,18 @@ const std::complex<float> If(0.,1.);
 		trackFree(m);
 //printf("%d 1 FType %d\n",commRank(),fieldType);fflush(stdout);commSync();
 
-	if (v != nullptr && (fieldType & FIELD_SAXION))
+	if (v != nullptr && !vInM)
 		trackFree(v);
 
+	if (rho != nullptr)
+		trackFree(rho);
+
+	if (vho != nullptr)
+		trackFree(vho);
+
+	if (g != nullptr)
+		trackFree(g);
+
 //printf("%d 2\n",commRank());fflush(stdout);commSync();
 
 	if (m2 != nullptr)
-- 
2.43.0


From e64055ffb3df0400d221474435d4fa9714b3776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 21/33] fix: a low memory saxion gets the second buffer when it
 becomes an axion

---
 lib/scalar/scalarField.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index c5ec468..1b29621 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1086,6 +1086,13 @@ void	Scalar::setField (FieldType newType)
 
 			LogMsg(VERB_NORMAL,"[sca] fSize set to %d, shift set to %d ", fSize, shift);
 			LogMsg(VERB_NORMAL,"[sca] Field set to AXION (%)!",fieldType);
+			/* Axion fields need m2, which saxions do without in lowmem mode */
+			if (m2 == nullptr && device == DEV_CPU && !(fieldType & FIELD_REDUCED))
+			{
+				alignAlloc ((void**) &m2, mAlign, 2*fSize*v3);
+				memset (m2, 0, 2*fSize*v3);
+				lowmem = false;
+			}
 #ifdef  USE_GPU
 			if (device == DEV_GPU && lowmemgpu)
 			{
-- 
2.43.0


From 05aa1b103f10083dcacf27dcc42ec62e9ca99048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 22/33] fix: kinetic energy of the complex field in double
 precision (1/R^2 was truncated to an integer)

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From 9bf0da07abc380467a1776aec3ca7404d2e21c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 23/33] fix: mean modulus in double precision is returned, and
 its masked sum stays inside the vector

---
 lib/energy/energyXeon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..e255adb 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  +=  tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From 9e7956857bd84ca6039d96e6033bff033a3bd33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 24/33] fix: masked sums of the double precision energy are
 reduced over the threads

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index e255adb..8d56bb4 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
-- 
2.43.0


From 3119544b7110e54c8c3b1df68bfe6645e5709c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 25/33] fix: potential energy of the N=2 axion potential uses
 the real part of the field

---
 lib/energy/energyXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 8d56bb4..0e162f2 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -430,7 +430,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 					break;
 					case V_QCD2:
 						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1088,7 +1088,7 @@ if (emask & EN_ENE){
 					break;
 					case V_QCD2:
 						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From 7b4526928b72d00645d7d73591e1f106480560d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 26/33] fix: guard the log stack, which the writer thread and
 every other thread changed at the same time

---
 include/utils/logger.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index e643cd4..1e71bb3 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -12,6 +12,7 @@
 	#include<cstddef>
 	#include<algorithm>
 	#include<thread>
+	#include<mutex>
 
 	#include<cstdarg>
 	#include<cstring>
@@ -123,6 +124,7 @@
 				const VerbosityLevel	verbose;
 				bool			logRunning;
 				volatile bool		logWriting ;
+				std::recursive_mutex	logLock;	// Guards the stack and the file: they are used by every thread and by the writer thread
 
 				void	printMsg	(const Msg &myMsg) noexcept {
 					if (myMsg.time(logStart)/1000 < 1000000) {
@@ -257,6 +259,8 @@
 					if (omp_get_thread_num() != 0)
 						return;
 
+					std::lock_guard<std::recursive_mutex> guard(logLock);
+
 					// Get all the messages
 					if (mpiType == ALL_RANKS) {
 						getMpiMsg (LOG_MSG);
@@ -300,6 +304,8 @@
 					if (mpiType == ZERO_RANK && myRank != 0)
 						return;
 
+					std::lock_guard<std::recursive_mutex> guard(logLock);
+
 					switch	(level) {
 
 						case	LOG_MSG:
-- 
2.43.0


From 53dbb5ac17a1d91dbcc3f03153dd78df1df50c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 27/33] fix: kinetic energy of the angle subtracts the
 expansion rate of the actual background

energyThetaCpu used the exponent frw of a power law, R' = frw R/ct, also for
gravity-corrected and tabulated backgrounds; the complex-field energy already
takes Cosmos::Rp.
---
 lib/energy/energyThetaXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyThetaXeon.cpp b/lib/energy/energyThetaXeon.cpp
index 317dbc4..7040db7 100755
--- a/lib/energy/energyThetaXeon.cpp
+++ b/lib/energy/energyThetaXeon.cpp
@@ -496,7 +496,7 @@ void	energyThetaCpu	(Scalar *axionField, const double delta2, const double aMass
 	const double ood2 = 0.25/delta2;
 	double *R  = axionField->RV();
 	double *z  = axionField->zV();
-	double frw = axionField->BckGnd()->Frw();
+	double frw = axionField->BckGnd()->Rp(*z)*(*z);	/* d ln R/d ln ct for every background, frw only for a power law */
 
 	const FieldPrecision precision = axionField->Precision();
 	const size_t Lx = axionField->Length();
-- 
2.43.0


From 59e860c93641e6c4d0e6d07c32610b01d4666d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 28/33] fix: text attributes of configuration and measurement
 files have 32 bytes, so do their buffers

writeConf, createMeas and the readers handed 16 byte arrays to H5Awrite and
H5Aread with a 32 byte string type, which read and overwrote the stack behind
them; 'Parametric Resonance' did not fit into 16 bytes either.
---
 lib/io/readWrite.pHdf5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..16bb09a 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];	// text attributes have length bytes
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -762,7 +762,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];	// text attributes have length bytes
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1581,7 +1581,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -5356,7 +5356,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From 0d7c1e5a6ad3dd69cf36c30482cd926aed291ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 29/33] fix: readConf recognises the VPQ 2 and VPQ 3 potentials
 that writeConf writes

It compared with 'VPQ2' and 'VPQ3', so a restart fell back to VPQ 1.
---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 16bb09a..13269d2 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1088,9 +1088,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From cc4331192832f54b52ee23273ef569a387b7a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 30/33] fix: axiton and unspecified initial conditions survive
 writing and reading a configuration

The axiton configuration was labelled as a minicluster, and without initial
conditions the attribute that readConf compares was not written at all.
---
 lib/io/readWrite.pHdf5.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 13269d2..901defd 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -564,6 +564,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		default:
 		case	CONF_NONE:
 			sprintf(icStr, "None");
+			writeAttribute(icGrp_id, &icStr, "Initial conditions",   attr_type);
 			break;
 	}
 
@@ -601,7 +602,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			break;
 
 		case	CONF_AXITON:
-			sprintf(smStr, "Minicluster 0");
+			sprintf(smStr, "Axiton");
 			break;
 
 		case	CONF_PARRES:
@@ -1233,6 +1234,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 					smvarType = CONF_SAXNOISE;
 				} else if (!strcmp(icStr, "Axion one mode")) {
 					smvarType = CONF_AX1MODE;
+				} else if (!strcmp(icStr, "Axiton")) {
+					smvarType = CONF_AXITON;
 				} else if (!strcmp(icStr, "Parametric Resonance")) {
 					smvarType = CONF_PARRES;
 				} else if (!strcmp(icStr, "String + wave")) {
-- 
2.43.0


From 48a004eb420bc6e5bd7ee25e3947ce715ada1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:36 +0000
Subject: [PATCH 31/33] fix: non-relativistic kernels: skip rows beyond the
 slice when the block size does not divide it

---
 include/propagator/propNaxXeon.h | 4 ++--
 include/propagator/propPaxXeon.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index c906d3f..a70d98c 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -141,7 +141,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))	// blocks may exceed the slice
 				continue;
 			{
 				X[0] = xC;
@@ -350,7 +350,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))	// blocks may exceed the slice
 				continue;
 
 			X[0] = xC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index a241a9e..d4f3946 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -124,7 +124,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))	// blocks may exceed the slice
 				continue;
 			{
 				X[0] = xC;
@@ -327,7 +327,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))	// blocks may exceed the slice
 				continue;
 			{
 				X[0] = xC;
-- 
2.43.0


From 4e520ac83a62dc10b6799ba5e68bfa9b37e5f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:36 +0000
Subject: [PATCH 32/33] fix: non-relativistic kernels: self-interaction phase
 at frw = 1/2 without 0/0

---
 include/propagator/propNaxXeon.h | 3 ++-
 include/propagator/propPaxXeon.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index a70d98c..3bab3d1 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -72,7 +72,8 @@ inline	void	propagateNaxKernelXeon(const void * __restrict__ m_, void * __restri
 	// 	Kt = ct/(4.0*R*R)*log(1.0+dz*d/ct);
 	// }
 	const double u   = 2*ppar.frw - 1.0;
-	const double KKt = ct*beta*(pow(ct+dz*d,u)-pow(ct,u))/(4.0*R*R*u*pow(ct+dz*d,u));
+	const double tKt = (u == 0.) ? log(1.0+dz*d/ct) : (pow(ct+dz*d,u)-pow(ct,u))/(u*pow(ct+dz*d,u));
+	const double KKt = ct*beta*tKt/(4.0*R*R);
 
 	if (precision == FIELD_DOUBLE)
 	{
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index d4f3946..3edf439 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -48,7 +48,8 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 
 	const double beta = ppar.beta;
 	const double u    = 2.0*ppar.frw - 1.0;
-	const double KKt  = ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
+	const double tKt  = (u == 0.) ? log(1.0 + dz/ct) : (pow(ct+dz,u)-pow(ct,u))/(u*pow(ct+dz,u));
+	const double KKt  = ppar.sign*ppar.beta*ct*tKt/(8.0*R*R);
 	LogMsg(VERB_PARANOID,"PPX ct  %e dz  %e FRW %f R %e u %f sign %d beta %f",ct,dz,ppar.frw,R,u,ppar.sign,ppar.beta);
 	LogMsg(VERB_PARANOID,"PPX KKt %e ");
 	/* integrate in time assuming powerlaw int d z/ m_A R */
-- 
2.43.0


From aca804dfccd4eee9a7f35ca1616d9cf0fd7a40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 33/33] fix: string search covers the slices of the volume for
 any number of ghost slices

stringCpu passed the range S..V+S and the kernel mapped slice X[2] to X[2]-1,
both right only for one ghost slice per side. With --Ng > 1 the search started
in the ghost zone, missed the last slices and shifted the map along z.
---
 lib/strings/stringXeon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..cd8efb8 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -618,7 +618,7 @@ StringData	stringKernelXeon(const void * __restrict__ m_, const size_t Lx, const
 				// Tienes los 7 puntos que definen las 3 plaquetas
 
 				//size_t nIdx = (X[0]/step + X[1]*Lx + (X[2]-1)*Sf);
-				size_t nIdx = (((size_t)(((double) (X[0]/step))*ratio)) + ((size_t)(((double) X[1])*ratio))*rLx + ((size_t)(((double) (X[2]-1))*datio))*rSf);
+				size_t nIdx = (((size_t)(((double) (X[0]/step))*ratio)) + ((size_t)(((double) X[1])*ratio))*rLx + ((size_t)(((double) (X[2]-Vo/Sf))*datio))*rSf);
 
 				// Plaqueta XY
 
@@ -907,7 +907,7 @@ StringData	stringKernelXeon(const void * __restrict__ m_, const size_t Lx, const
 				stringHandS (mPy, mel, hand);
 
 				//size_t nIdx = (X[0]/step + X[1]*Lx + (X[2]-1)*Sf);
-				size_t nIdx = (((size_t)(((double) (X[0]/step))*ratio)) + ((size_t)(((double) X[1])*ratio))*rLx + ((size_t)(((double) (X[2]-1))*datio))*rSf);
+				size_t nIdx = (((size_t)(((double) (X[0]/step))*ratio)) + ((size_t)(((double) X[1])*ratio))*rLx + ((size_t)(((double) (X[2]-Vo/Sf))*datio))*rSf);
 
 				#pragma unroll
 				for (int ih=0; ih<step; ih++)
@@ -1042,7 +1042,7 @@ StringData	stringKernelXeon(const void * __restrict__ m_, const size_t Lx, const
 
 StringData	stringCpu	(Scalar *field)
 {
-	const size_t S = field->Surf();
+	const size_t S = field->Surf()*field->getNg();
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-- 
2.43.0

