From 84742bdb55d7d2657ff9e6092058539f7d21786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 01/69] fix: clamp argument of the smooth interpolation
 function below 0

interp_func computed the clamped argument but did not use it, so the
function was not zero for negative phase values and did not match
deriv_interp_func.
---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 3ab5965..87289d7 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -74,7 +74,7 @@ c Moleans 2011
       else if ( type(1:1) .eq. 's' ) then
 
          phit = max( 0.d0, phi )
-         interp_func = log ( cosh (gamma*phi) )/log(cosh(gamma))
+         interp_func = log ( cosh (gamma*phit) )/log(cosh(gamma))
 
       else if ( type(1:1) .eq. 'c' ) then
 
-- 
2.43.0


From 7143b28fe3c6aa3a0d87bd68b49557932d167dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 02/69] fix: derivative of the linear interpolation function is
 0 outside [0,1]

The test for being inside of the interval used .or. and was always true,
while interp_func is constant outside of [0,1].
---
 source/fortran/functions.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 87289d7..0b4ddcd 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -133,8 +133,8 @@ c-----------------------------------------------------------------------
 
       else if ( type(1:1) .eq. 'l' ) then
 
-         if( phi .gt. 0.d0 .or.
-     &       phi .lt. 1.d0 )then
+         if( phi .ge. 0.d0 .and.
+     &       phi .le. 1.d0 )then
             deriv_interp_func = 1.d0
          else
              deriv_interp_func = 0.d0
-- 
2.43.0


From 8082bc077b81798059de9113613833b30a959da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 03/69] fix: two entries of the derivative of the rotation
 matrix

d/dq(2) of R(3,2)=2*(q(1)*q(2)+q(3)*q(4)) is 2*q(1), and
d/dq(3) of R(3,1)=2*(q(2)*q(4)-q(1)*q(3)) is -2*q(1).
---
 source/fortran/quat.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/quat.f b/source/fortran/quat.f
index cd6a21c..13d60ce 100644
--- a/source/fortran/quat.f
+++ b/source/fortran/quat.f
@@ -1367,7 +1367,7 @@ c d/dq2
 
       matrixdRdq(1,2,2)= 2.d0*q(3)
       matrixdRdq(2,2,2)=-2.d0*q(2)
-      matrixdRdq(3,2,2)= 2.d0*q(2)
+      matrixdRdq(3,2,2)= 2.d0*q(1)
 
       matrixdRdq(1,3,2)= 2.d0*q(4)
       matrixdRdq(2,3,2)=-2.d0*q(1)
@@ -1376,7 +1376,7 @@ c d/dq2
 c d/dq3
       matrixdRdq(1,1,3)=-2.d0*q(3)
       matrixdRdq(2,1,3)= 2.d0*q(2)
-      matrixdRdq(3,1,3)= 2.d0*q(1)
+      matrixdRdq(3,1,3)=-2.d0*q(1)
 
       matrixdRdq(1,2,3)= 2.d0*q(2)
       matrixdRdq(2,2,3)= 2.d0*q(3)
-- 
2.43.0


From 378a097a8cc23599aa0a41a9b9c0e6722440d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 04/69] fix: isotropic y-side gradient averages along x, not
 along y

grad_side_isotropic smoothed diff_x on x-sides in the transverse (y)
direction but diff_y on y-sides in the normal direction.
---
 source/fortran/2d/grad.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/grad.m4 b/source/fortran/2d/grad.m4
index 8b49dfb..f93dd04 100644
--- a/source/fortran/2d/grad.m4
+++ b/source/fortran/2d/grad.m4
@@ -194,9 +194,9 @@ c              X component of gradient at "Y" side
 
 c              Y component of gradient at "Y" side
             grad_y_yside(i,j) = p12_dyinv * (
-     &          diff_y(i,j-1) +
+     &          diff_y(i-1,j) +
      &          diff_y(i,j)*10.d0 +
-     &          diff_y(i,j+1) )
+     &          diff_y(i+1,j) )
 
          enddo
       enddo
-- 
2.43.0


From 118eb5a75f23adba0c0d07c1adfcbaf98987b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 05/69] fix: isotropic symmetry-aware gradient read past the
 last component for depth 1

---
 source/fortran/2d/quatgrad.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fortran/2d/quatgrad.m4 b/source/fortran/2d/quatgrad.m4
index 96f1986..4cc17ca 100644
--- a/source/fortran/2d/quatgrad.m4
+++ b/source/fortran/2d/quatgrad.m4
@@ -554,8 +554,8 @@ c                 Y component of gradient at "X" side
                
             else
 
-               d1prime(1) = diff_x(i,j-1,m)
-               d2prime(1) = diff_x(i,j+1,m)
+               d1prime(1) = diff_x(i,j-1,1)
+               d2prime(1) = diff_x(i,j+1,1)
 
             endif
 
@@ -625,8 +625,8 @@ c                 X component of gradient at "Y" side
 
             else
 
-               d1prime(1) = diff_y(i-1,j,m)
-               d2prime(1) = diff_y(i+1,j,m)
+               d1prime(1) = diff_y(i-1,j,1)
+               d2prime(1) = diff_y(i+1,j,1)
 
             endif
 
-- 
2.43.0


From a296f8f9b770dc39378cb525583774cf650fcab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 06/69] fix: z-face flux of the eta equation declared with
 y-face extents

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index ac7a4ac..a7dbf58 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -658,7 +658,7 @@ c variables in 3d side indexed
       double precision 
      &     flux0(SIDE3d0(ifirst,ilast,ngflux)),
      &     flux1(SIDE3d1(ifirst,ilast,ngflux)),
-     &     flux2(SIDE3d1(ifirst,ilast,ngflux))
+     &     flux2(SIDE3d2(ifirst,ilast,ngflux))
 c
 c***********************************************************************
 c***********************************************************************     
-- 
2.43.0


From b18baec460c3da0607ac500cf51933dc14ce7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 07/69] fix: multi-order coupling term must exclude the square
 of the order parameter itself

---
 source/fortran/2d/multiorder.m4 | 3 ++-
 source/fortran/3d/multiorder.m4 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/multiorder.m4 b/source/fortran/2d/multiorder.m4
index 90f6959..a17261c 100644
--- a/source/fortran/2d/multiorder.m4
+++ b/source/fortran/2d/multiorder.m4
@@ -92,7 +92,8 @@ c  Phase energy well
                g_prime =
      &            phi(ic0,ic1,ip)*phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
      &            - phi(ic0,ic1,ip)
-               dsum = phi2sum(ic0,ic1) - phi(ic0,ic1,ip)
+               dsum = phi2sum(ic0,ic1)
+     &            - phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
                g_prime = g_prime + 2.*phi(ic0,ic1,ip)*dgamma*dsum
 
                rhs(ic0,ic1,ip) = rhs(ic0,ic1,ip) - m * g_prime
diff --git a/source/fortran/3d/multiorder.m4 b/source/fortran/3d/multiorder.m4
index a09b30c..e99a6b1 100644
--- a/source/fortran/3d/multiorder.m4
+++ b/source/fortran/3d/multiorder.m4
@@ -107,7 +107,8 @@ c  Phase energy well
                   g_prime =
      &               phi(ic0,ic1,ic2,ip)
      &               * (phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)-1.d0)
-                  dsum = phi2sum(ic0,ic1,ic2) - phi(ic0,ic1,ic2,ip)
+                  dsum = phi2sum(ic0,ic1,ic2)
+     &               - phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)
                   g_prime = g_prime + 2.*phi(ic0,ic1,ic2,ip)*dgamma*dsum
 
                   rhs(ic0,ic1,ic2,ip) = rhs(ic0,ic1,ic2,ip) - m*g_prime
-- 
2.43.0


From bed5bd701fbb8d193fe81c7e2b3d95f08b5d9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 08/69] fix: liquid fraction at y- and z-faces of the
 multi-order diffusion averages the two adjacent cells

---
 source/fortran/2d/concentrationdiffusion.m4 | 2 +-
 source/fortran/3d/concentrationdiffusion.m4 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index da11f8b..27a6b11 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -502,7 +502,7 @@ c
             phis = interp_func( vphi, interp_type )
 
             vphi = average_func(
-     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1-1,nphi), avg_type )
+     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1,nphi), avg_type )
             phil = interp_func( vphi, interp_type )
 
             invT = 2.0d0 / ( temp(ic0,ic1-1) + temp(ic0,ic1) )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 1e18855..b54ddb9 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1000,7 +1000,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
@@ -1027,7 +1027,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
-- 
2.43.0


From 6d8d67ba2cda9c8538c1fd1c60d46a2f78515ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 09/69] fix: three-phase diffusion at z-faces sums over all
 order parameters of phase B

---
 source/fortran/3d/concentrationdiffusion.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index b54ddb9..79391d2 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -573,7 +573,7 @@ c
 
                vphi = 0.d0
                do ip = 1, nphiB
-                  vphi = average_func(
+                  vphi = vphi + average_func(
      &               phiB(ic0,ic1,ic2-1,ip), phiB(ic0,ic1,ic2,ip),
      &               avg_type )
                enddo
-- 
2.43.0


From 63c3e1315b68304a5823149864d8709a7ca26dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/69] fix: z-face spinodal flux accumulated on, and cleared,
 the y-face flux

---
 source/fortran/3d/concentrationrhs.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 54acfec..b4d6812 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -381,14 +381,14 @@ c      print*,kappa
          do ic2 = ifirst2, ilast2+1
          do ic1 = ifirst1, ilast1
          do ic0 = ifirst0, ilast0
-            flux1(ic0,ic1,ic2,ic) = 0.d0
+            flux2(ic0,ic1,ic2,ic) = 0.d0
             do jc = 1, ncomp
                ijc=ic+(jc-1)*ncomp
                sideca = 0.5*(
      &            conca(ic0,ic1,ic2-1,jc)+conca(ic0,ic1,ic2,jc) )
                sidecb = 0.5*(
      &            concb(ic0,ic1,ic2-1,jc)+concb(ic0,ic1,ic2,jc) )
-               flux2(ic0,ic1,ic2,ic) = flux1(ic0,ic1,ic2,ic)
+               flux2(ic0,ic1,ic2,ic) = flux2(ic0,ic1,ic2,ic)
      &         + dzinv*(
      &           diffconc2(ic0,ic1,ic2,ijc) *
      &           ( conc(ic0,ic1,ic2,jc) - conc(ic0,ic1,ic2-1,jc) )
-- 
2.43.0


From ffe79866bbd8cc4f15c2ed96a45e6ae26478fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 11/69] fix: interface diffusion at faces on the patch boundary
 includes the contribution of the adjacent ghost cell

---
 source/fortran/2d/concentrationdiffusion.m4 | 38 ++++++-----
 source/fortran/3d/concentrationdiffusion.m4 | 70 ++++++++++++++-------
 2 files changed, 73 insertions(+), 35 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 27a6b11..f37f23c 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -910,6 +910,7 @@ c variables in 2d cell indexed
       double precision diffB1(SIDE2d1(ifirst,ilast,ngdiff))
 c
       integer ic0, ic1, ipa, ipb, ipbmin
+      logical in0, in1
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -920,8 +921,13 @@ c
       factor = factor**4
       q0_invR = q0 / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
-        do ic0 = ifirst0, ilast0
+c loop over cells adjacent to the patch too since they contribute to
+c the faces on its boundary
+      do ic1 = ifirst1-1, ilast1+1
+        in1 = ( ic1.ge.ifirst1 .and. ic1.le.ilast1 )
+        do ic0 = ifirst0-1, ilast0+1
+          in0 = ( ic0.ge.ifirst0 .and. ic0.le.ilast0 )
+          if( .not.in0 .and. .not.in1 ) cycle
           invT = 1.0d0 / temp(ic0,ic1)
           factorT = d0c*exp(-q0_invR*invT)
 
@@ -942,19 +948,23 @@ c factor 0.5 for two contributions, one from each side
                   dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
 c add contribution to four sides of each cell
-                  diffA0(ic0,ic1)   = diffA0(ic0,ic1) + dAB
-                  diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
-                  diffA1(ic0,ic1)   = diffA1(ic0,ic1) + dAB
-                  diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
+                  if( in1 .and. ic0.ge.ifirst0 )
+     &              diffA0(ic0,ic1) = diffA0(ic0,ic1) + dAB
+                  if( in1 .and. ic0.le.ilast0 )
+     &              diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
+                  if( in0 .and. ic1.ge.ifirst1 )
+     &              diffA1(ic0,ic1) = diffA1(ic0,ic1) + dAB
+                  if( in0 .and. ic1.le.ilast1 )
+     &              diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
                   if( same_phase.eq.0 )then
-                    diffB0(ic0,ic1)   = diffB0(ic0,ic1)
-     &                                    + dAB
-                    diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1)   = diffB1(ic0,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1)
-     &                                    + dAB
+                    if( in1 .and. ic0.ge.ifirst0 )
+     &                diffB0(ic0,ic1) = diffB0(ic0,ic1) + dAB
+                    if( in1 .and. ic0.le.ilast0 )
+     &                diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1) + dAB
+                    if( in0 .and. ic1.ge.ifirst1 )
+     &                diffB1(ic0,ic1) = diffB1(ic0,ic1) + dAB
+                    if( in0 .and. ic1.le.ilast1 )
+     &                diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1) + dAB
                   endif
                 endif
               end do
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 79391d2..f734768 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1080,6 +1080,7 @@ c variables in 3d cell indexed
       double precision diffB2(SIDE3d2(ifirst,ilast,ngdiff))
 c
       integer ic0, ic1, ic2, ipa, ipb, ipbmin
+      logical in0, in1, in2, in01, in02, in12
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -1090,9 +1091,18 @@ c
       factor = factor**4
       q0_invR = q0 / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-        do ic1 = ifirst1, ilast1
-          do ic0 = ifirst0, ilast0
+c loop over cells adjacent to the patch too since they contribute to
+c the faces on its boundary
+      do ic2 = ifirst2-1, ilast2+1
+        in2 = ( ic2.ge.ifirst2 .and. ic2.le.ilast2 )
+        do ic1 = ifirst1-1, ilast1+1
+          in1 = ( ic1.ge.ifirst1 .and. ic1.le.ilast1 )
+          in12 = ( in1 .and. in2 )
+          do ic0 = ifirst0-1, ilast0+1
+            in0 = ( ic0.ge.ifirst0 .and. ic0.le.ilast0 )
+            in01 = ( in0 .and. in1 )
+            in02 = ( in0 .and. in2 )
+            if( .not.in01 .and. .not.in02 .and. .not.in12 ) cycle
             invT = 1.0d0 / temp(ic0,ic1,ic2)
             factorT = d0*exp(-q0_invR*invT)
 
@@ -1113,25 +1123,43 @@ c factor 0.5 for two contributions, one from each side
                     dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
 c add contribution to six sides of each cell
-                    diffA0(ic0,ic1,ic2)   = diffA0(ic0,ic1,ic2) + dAB
-                    diffA0(ic0+1,ic1,ic2) = diffA0(ic0+1,ic1,ic2) + dAB
-                    diffA1(ic0,ic1,ic2)   = diffA1(ic0,ic1,ic2) + dAB
-                    diffA1(ic0,ic1+1,ic2) = diffA1(ic0,ic1+1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2)   = diffA2(ic0,ic1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2+1) = diffA2(ic0,ic1,ic2+1) + dAB
+                    if( in12 .and. ic0.ge.ifirst0 )
+     &                diffA0(ic0,ic1,ic2) =
+     &                diffA0(ic0,ic1,ic2) + dAB
+                    if( in12 .and. ic0.le.ilast0 )
+     &                diffA0(ic0+1,ic1,ic2) =
+     &                diffA0(ic0+1,ic1,ic2) + dAB
+                    if( in02 .and. ic1.ge.ifirst1 )
+     &                diffA1(ic0,ic1,ic2) =
+     &                diffA1(ic0,ic1,ic2) + dAB
+                    if( in02 .and. ic1.le.ilast1 )
+     &                diffA1(ic0,ic1+1,ic2) =
+     &                diffA1(ic0,ic1+1,ic2) + dAB
+                    if( in01 .and. ic2.ge.ifirst2 )
+     &                diffA2(ic0,ic1,ic2) =
+     &                diffA2(ic0,ic1,ic2) + dAB
+                    if( in01 .and. ic2.le.ilast2 )
+     &                diffA2(ic0,ic1,ic2+1) =
+     &                diffA2(ic0,ic1,ic2+1) + dAB
                     if( same_phase.eq.0 )then
-                      diffB0(ic0,ic1,ic2)   = diffB0(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB0(ic0+1,ic1,ic2) = diffB0(ic0+1,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1,ic2)   = diffB1(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1+1,ic2) = diffB1(ic0,ic1+1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2)   = diffB2(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2+1) = diffB2(ic0,ic1,ic2+1)
-     &                                      + dAB
+                      if( in12 .and. ic0.ge.ifirst0 )
+     &                  diffB0(ic0,ic1,ic2) =
+     &                  diffB0(ic0,ic1,ic2) + dAB
+                      if( in12 .and. ic0.le.ilast0 )
+     &                  diffB0(ic0+1,ic1,ic2) =
+     &                  diffB0(ic0+1,ic1,ic2) + dAB
+                      if( in02 .and. ic1.ge.ifirst1 )
+     &                  diffB1(ic0,ic1,ic2) =
+     &                  diffB1(ic0,ic1,ic2) + dAB
+                      if( in02 .and. ic1.le.ilast1 )
+     &                  diffB1(ic0,ic1+1,ic2) =
+     &                  diffB1(ic0,ic1+1,ic2) + dAB
+                      if( in01 .and. ic2.ge.ifirst2 )
+     &                  diffB2(ic0,ic1,ic2) =
+     &                  diffB2(ic0,ic1,ic2) + dAB
+                      if( in01 .and. ic2.le.ilast2 )
+     &                  diffB2(ic0,ic1,ic2+1) =
+     &                  diffB2(ic0,ic1,ic2+1) + dAB
                     endif
                   endif
                 end do
-- 
2.43.0


From 763a707ce2a1e4f3b99f1b7a2d6dcbc7e6519f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 12/69] fix: 3D multi-order antitrapping flux: centred
 transverse gradients, full solid gradient, z-face terms

---
 source/fortran/3d/concentrationrhs.m4 | 132 +++++++++++++-------------
 1 file changed, 65 insertions(+), 67 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index b4d6812..9385552 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -957,8 +957,6 @@ c
       integer          ic0, ic1, ic2, ip
       double precision tol, tol2, dpdt
       double precision ac(2)
-c storage for values at +-1,+-1
-      double precision vmm, vmp, vpm, vpp
 
       tol = 1.e-8
       tol2 = tol*tol
@@ -974,16 +972,16 @@ c x-faces
 c compute gradient liquid phase first
                dphix = dxinv*( phase(ic0,  ic1,ic2,norderp)
      &                       - phase(ic0-1,ic1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0  ,ic1-1,ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1-1,ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphiy = dyinv*0.25d0*(
+     &             phase(ic0-1,ic1+1,ic2,norderp)
+     &            -phase(ic0-1,ic1-1,ic2,norderp)
+     &            +phase(ic0,ic1+1,ic2,norderp)
+     &            -phase(ic0,ic1-1,ic2,norderp))
+               dphiz = dzinv*0.25d0*(
+     &             phase(ic0-1,ic1,ic2+1,norderp)
+     &            -phase(ic0-1,ic1,ic2-1,norderp)
+     &            +phase(ic0,ic1,ic2+1,norderp)
+     &            -phase(ic0,ic1,ic2-1,norderp))
 
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
@@ -1001,20 +999,20 @@ c loop over solid order parameters
                   do ip = 1, norderp-1
                      dphipx = dphipx + dxinv*(phase(ic0,ic1,ic2,ip)
      &                                       -phase(ic0-1,ic1,ic2,ip))
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0  ,ic1-1,ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1-1,ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipy = dphipy + dyinv*0.25d0*(
+     &                   phase(ic0-1,ic1+1,ic2,ip)
+     &                  -phase(ic0-1,ic1-1,ic2,ip)
+     &                  +phase(ic0,ic1+1,ic2,ip)
+     &                  -phase(ic0,ic1-1,ic2,ip))
+                     dphipz = dphipz + dzinv*0.25d0*(
+     &                   phase(ic0-1,ic1,ic2+1,ip)
+     &                  -phase(ic0-1,ic1,ic2-1,ip)
+     &                  +phase(ic0,ic1,ic2+1,ip)
+     &                  -phase(ic0,ic1,ic2-1,ip))
                      dpdt = dpdt + 0.5d0*( dphidt(ic0-1,ic1,ic2,ip)
      &                                    +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphiz*dphiz
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1033,16 +1031,16 @@ c y-faces
 c compute gradient liquid phase first
                dphiy = dyinv * ( phase(ic0,ic1,  ic2,norderp)
      &                         - phase(ic0,ic1-1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphix = dxinv*0.25d0*(
+     &             phase(ic0+1,ic1-1,ic2,norderp)
+     &            -phase(ic0-1,ic1-1,ic2,norderp)
+     &            +phase(ic0+1,ic1,ic2,norderp)
+     &            -phase(ic0-1,ic1,ic2,norderp))
+               dphiz = dzinv*0.25d0*(
+     &             phase(ic0,ic1-1,ic2+1,norderp)
+     &            -phase(ic0,ic1-1,ic2-1,norderp)
+     &            +phase(ic0,ic1,ic2+1,norderp)
+     &            -phase(ic0,ic1,ic2-1,norderp))
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1059,20 +1057,20 @@ c loop over solid order parameters
                   do ip = 1, norderp-1
                      dphipy = dphipy + dyinv*( phase(ic0,ic1,  ic2,ip)
      &                                       - phase(ic0,ic1-1,ic2,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipz = dphipz + dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipx = dphipx + dxinv*0.25d0*(
+     &                   phase(ic0+1,ic1-1,ic2,ip)
+     &                  -phase(ic0-1,ic1-1,ic2,ip)
+     &                  +phase(ic0+1,ic1,ic2,ip)
+     &                  -phase(ic0-1,ic1,ic2,ip))
+                     dphipz = dphipz + dzinv*0.25d0*(
+     &                   phase(ic0,ic1-1,ic2+1,ip)
+     &                  -phase(ic0,ic1-1,ic2-1,ip)
+     &                  +phase(ic0,ic1,ic2+1,ip)
+     &                  -phase(ic0,ic1,ic2-1,ip))
                      dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
@@ -1091,16 +1089,16 @@ c z-faces
 c compute gradient liquid phase first
                dphiz = dzinv * ( phase(ic0,ic1,ic2,norderp)
      &                         - phase(ic0,ic1,ic2-1,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1-1,ic2,  norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1-1,ic2,  norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiy = dyinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphix = dxinv*0.25d0*(
+     &             phase(ic0+1,ic1,ic2-1,norderp)
+     &            -phase(ic0-1,ic1,ic2-1,norderp)
+     &            +phase(ic0+1,ic1,ic2,norderp)
+     &            -phase(ic0-1,ic1,ic2,norderp))
+               dphiy = dyinv*0.25d0*(
+     &             phase(ic0,ic1+1,ic2-1,norderp)
+     &            -phase(ic0,ic1-1,ic2-1,norderp)
+     &            +phase(ic0,ic1+1,ic2,norderp)
+     &            -phase(ic0,ic1-1,ic2,norderp))
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1117,25 +1115,25 @@ c loop over solid order parameters
                   do ip = 1, norderp-1
                      dphipz = dphipz + dzinv*( phase(ic0,ic1,ic2,ip)
      &                                       - phase(ic0,ic1,ic2-1,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1-1,ic2,  ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1-1,ic2,  ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipy = dphipy + dyinv*0.25d0*(vpp+vmp-vpm-vmm)
-                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
+                     dphipx = dphipx + dxinv*0.25d0*(
+     &                   phase(ic0+1,ic1,ic2-1,ip)
+     &                  -phase(ic0-1,ic1,ic2-1,ip)
+     &                  +phase(ic0+1,ic1,ic2,ip)
+     &                  -phase(ic0-1,ic1,ic2,ip))
+                     dphipy = dphipy + dyinv*0.25d0*(
+     &                   phase(ic0,ic1+1,ic2-1,ip)
+     &                  -phase(ic0,ic1-1,ic2-1,ip)
+     &                  +phase(ic0,ic1+1,ic2,ip)
+     &                  -phase(ic0,ic1-1,ic2,ip))
+                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1,ic2-1,ip)
      &                                     +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
                      dphipn = sqrt(dphip2)
                      flux2(ic0,ic1,ic2) = flux2(ic0,ic1,ic2) -
-     &                  alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
+     &                  alpha*(dphiz/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
-- 
2.43.0


From 2778e05c7ea5c27f936c0aac3b8fa33271a63184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 13/69] fix: energy contributions summed over all patches
 instead of keeping the last one

---
 source/fortran/2d/quatenergy.m4 | 3 ---
 source/fortran/3d/quatenergy.m4 | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index e8d388b..6ba8478 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -375,7 +375,6 @@ c                 factor 0.25 because of cell average and double counting
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do j = lo1, hi1
             do i = lo0, hi0
@@ -431,8 +430,6 @@ c
       integer i, j
       double precision interp_func
 
-      total_free_e = 0.d0
-
       do j = lo1, hi1
          do i = lo0, hi0
 
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index b9684ce..82aec3d 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -331,7 +331,6 @@ c
 c Orientational energy: average over 2 cell faces in each direction
 c
       if ( misorientation_factor .gt. 0.d0 ) then
-         total_orient_e = 0.d0
          do k = lo2, hi2
             do j = lo1, hi1
                do i = lo0, hi0
@@ -426,7 +425,6 @@ c        factor 1/6 because of cell averaging
 c
 c q interface energy
 c
-         total_qint_e = 0.d0
          epsilonq2 = 0.5d0 * epsilon_q * epsilon_q
          do k = lo2, hi2
             do j = lo1, hi1
@@ -462,7 +460,6 @@ c                 factor 1/6 because of cell average
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do k = lo2, hi2
             do j = lo1, hi1
@@ -520,8 +517,6 @@ c
       integer i, j, k
       double precision interp_func
 
-      total_free_e = 0.d0
-
        do k = lo2, hi2
           do j = lo1, hi1
              do i = lo0, hi0
-- 
2.43.0


From 72ba7c0d0c16b9c2c761c7007ad4ec8421ec85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 14/69] fix: gradient floor missing in the orientation energy
 at upper y-faces

---
 source/fortran/3d/quatenergy.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 82aec3d..bd7bc99 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -382,8 +382,8 @@ c
                         o2 = o2 + gqy(i,j+1,k,m,n) * gqy(i,j+1,k,m,n)
                      enddo
                   enddo
-                  e = e + sqrt(o2) * p_phi
                   o2 = o2 + floor2
+                  e = e + sqrt(o2) * p_phi
 c
                   aphi = average_func(phi(i,j,k,1),phi(i,j,k-1,1),
      &                                   avg_type)
-- 
2.43.0


From 8833d6b79a07f7490fbf3cde1ce61d25f4db1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 15/69] fix: pair energies summed over patches, and their
 density over pairs

---
 source/fortran/2d/quatenergy.m4 | 3 +--
 source/fortran/3d/quatenergy.m4 | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index 6ba8478..904a835 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -527,14 +527,13 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do j = lo1, hi1
                do i = lo0, hi0
                   e = phi(i,j,p1)*phi(i,j,p1)
      &              * phi(i,j,p2)*phi(i,j,p2)
                   e = e * factor
                   if ( eval_per_cell /= 0 ) then
-                     edensity(i,j) = e
+                     edensity(i,j) = edensity(i,j) + e
                   endif
                   e = e * weight(i,j)
 
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index bd7bc99..e5bf7c9 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -621,7 +621,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do k = lo2, hi2
                do j = lo1, hi1
                   do i = lo0, hi0
@@ -629,7 +628,7 @@ c
      &                 * phi(i,j,k,p2)*phi(i,j,k,p2)
                      e = e * factor
                      if ( eval_per_cell /= 0 ) then
-                        edensity(i,j,k) = e
+                        edensity(i,j,k) = edensity(i,j,k) + e
                      endif
                      e = e * weight(i,j,k)
 
-- 
2.43.0


From 753a95ee1f3b6d12675eb3c74c76dbe76ff8070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 16/69] fix: derivative of the capped inverse mobility is zero
 where the cap applies

---
 source/fortran/2d/mobility.m4 | 6 +++++-
 source/fortran/3d/mobility.m4 | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/mobility.m4 b/source/fortran/2d/mobility.m4
index 10d85d7..b144754 100644
--- a/source/fortran/2d/mobility.m4
+++ b/source/fortran/2d/mobility.m4
@@ -152,7 +152,11 @@ c
 
                phi = max( 1.d-6, min( 1.d0, phi ) )
                
-               dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+               if( ( 1.d0 - phi ) .lt. alt_scale_factor*phi*phi )then
+                  dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+               else
+                  dqfunc = 0.d0
+               endif
 
             else
 
diff --git a/source/fortran/3d/mobility.m4 b/source/fortran/3d/mobility.m4
index 2d5dd28..333f60f 100644
--- a/source/fortran/3d/mobility.m4
+++ b/source/fortran/3d/mobility.m4
@@ -157,7 +157,11 @@ c
 
                   phi = max( 1.d-6, min( 1.d0, phi ) )
                
-                  dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+                  if( ( 1.d0 - phi ) .lt. alt_scale_factor*phi*phi )then
+                     dqfunc = ( phi - 2.d0 ) / ( phi * phi * phi )
+                  else
+                     dqfunc = 0.d0
+                  endif
 
                else
 
-- 
2.43.0


From f9cb63dcf004135c2fa2d26145066901df46c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 17/69] fix: exponential orientation mobility overflowed to NaN
 for large scale factors

---
 source/fortran/2d/mobility.m4 | 6 ++++--
 source/fortran/3d/mobility.m4 | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/fortran/2d/mobility.m4 b/source/fortran/2d/mobility.m4
index b144754..6c01ec6 100644
--- a/source/fortran/2d/mobility.m4
+++ b/source/fortran/2d/mobility.m4
@@ -64,7 +64,8 @@ c               c = 10.d0
 
                phi = max( 0.d0, min( 1.d0, phi ) )
             
-               qfunc = ( 1.d0 - exp( c * phi ) ) / ( 1.d0 - exp( c ) )
+               qfunc = ( exp( c * ( phi - 1.d0 ) ) - exp( -c ) )
+     &                  / ( 1.d0 - exp( -c ) )
 
                qfunc = 1.d0 - qfunc
 
@@ -145,7 +146,8 @@ c
 
                phi = max( 0.d0, min( 1.d0, phi ) )
             
-               dqfunc = ( c * exp( c * phi ) ) / ( 1. - exp( c ) )
+               dqfunc = -c * exp( c * ( phi - 1.d0 ) )
+     &                  / ( 1.d0 - exp( -c ) )
 
             elseif ( func_type(1:1) == 'i' .or.
      &               func_type(1:1) == 'I' ) then
diff --git a/source/fortran/3d/mobility.m4 b/source/fortran/3d/mobility.m4
index 333f60f..c6c70a3 100644
--- a/source/fortran/3d/mobility.m4
+++ b/source/fortran/3d/mobility.m4
@@ -65,8 +65,8 @@ c
 
                   phi = max( 0.d0, min( 1.d0, phi ) )
             
-                  qfunc = ( 1.d0 - exp( c * phi ) ) 
-     &                  / ( 1.d0 - exp( c ) )
+                  qfunc = ( exp( c * ( phi - 1.d0 ) ) - exp( -c ) )
+     &                     / ( 1.d0 - exp( -c ) )
 
                   qfunc = 1.d0 - qfunc
 
@@ -150,7 +150,8 @@ c
 
                   phi = max( 0.d0, min( 1.d0, phi ) )
             
-                  dqfunc = ( c * exp( c * phi ) ) / ( 1. - exp( c ) )
+                  dqfunc = -c * exp( c * ( phi - 1.d0 ) )
+     &                     / ( 1.d0 - exp( -c ) )
 
                elseif ( func_type(1:1) == 'i' .or.
      &                  func_type(1:1) == 'I' ) then
-- 
2.43.0


From ef810e8278075c81e0104af871c837dbb90b4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 18/69] fix: 3D pair forces stored at 2D offsets and not
 weighted by the cell volume

---
 source/fortran/3d/forces.m4 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fortran/3d/forces.m4 b/source/fortran/3d/forces.m4
index 06b5b84..51d1153 100644
--- a/source/fortran/3d/forces.m4
+++ b/source/fortran/3d/forces.m4
@@ -48,7 +48,7 @@ c
       do p1 = 1, nphases
          do p2 = 1, nphases
             if( p1 .ne. p2 )then
-              offset = NDIM*nphases*(p1-1)+p2*2-1
+              offset = NDIM*(nphases*(p1-1)+p2-1)+1
 c integral over domain
                do k = lo2, hi2
                   do j = lo1, hi1
@@ -66,8 +66,11 @@ c integral over domain
                         fy = f*diffy
                         fz = f*diffz
                         forces(offset)   = forces(offset) + fx
+     &                     *weight(i,j,k)
                         forces(offset+1) = forces(offset+1) + fy
+     &                     *weight(i,j,k)
                         forces(offset+2) = forces(offset+2) + fz
+     &                     *weight(i,j,k)
                      enddo
                   enddo
                enddo
-- 
2.43.0


From 7b58c7fd2b83e5acd7cdad73013499f829be4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 19/69] fix: symmetry-aware orientation coarsening stopped
 instead of using the nearest equivalent

---
 source/fortran/2d/quatcoarsen.m4 | 3 ++-
 source/fortran/3d/quatcoarsen.m4 | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/fortran/2d/quatcoarsen.m4 b/source/fortran/2d/quatcoarsen.m4
index 4209d30..1eb924a 100644
--- a/source/fortran/2d/quatcoarsen.m4
+++ b/source/fortran/2d/quatcoarsen.m4
@@ -83,7 +83,8 @@ c
                         do m = 1, depth
                            q1(m) = qfine(if0,if1,m)
                         enddo
-                        call quatsymmrotate( q1, iq, q1_prime, depth )
+                        call quatfindsymm( q0, q1, iq, q1_prime,
+     &                     depth )
                      endif
                   else
                      do m = 1, depth
diff --git a/source/fortran/3d/quatcoarsen.m4 b/source/fortran/3d/quatcoarsen.m4
index 6e32c5e..c20f260 100644
--- a/source/fortran/3d/quatcoarsen.m4
+++ b/source/fortran/3d/quatcoarsen.m4
@@ -91,8 +91,8 @@ c
                               do m = 1, depth
                                  q1(m) = qfine(if0,if1,if2,m)
                               enddo
-                              call quatsymmrotate( q1, iq, q1_prime,
-     &                           depth )
+                              call quatfindsymm( q0, q1, iq,
+     &                           q1_prime, depth )
                            endif
                         else
                            do m = 1, depth
-- 
2.43.0


From b0ac875b88b78d86ba29af49322c6917934cf9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 20/69] fix: orientation refinement stopped instead of using
 the nearest equivalent

---
 source/fortran/2d/quatlinrefine.m4 |  8 ++++----
 source/fortran/3d/quatlinrefine.m4 | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/fortran/2d/quatlinrefine.m4 b/source/fortran/2d/quatlinrefine.m4
index f8c8a81..4d5d604 100644
--- a/source/fortran/2d/quatlinrefine.m4
+++ b/source/fortran/2d/quatlinrefine.m4
@@ -94,10 +94,10 @@ c
                q3(m) = arrayc(ic0+1,ic1,m)
                q4(m) = arrayc(ic0+1,ic1+1,m)
             enddo
-            call quatsymmrotate( q1, iq, q1_prime, depth )
-            call quatsymmrotate( q2, iq, q2_prime, depth )
-            call quatsymmrotate( q3, iq, q3_prime, depth )
-            call quatsymmrotate( q4, iq, q4_prime, depth )
+            call quatfindsymm( qref, q1, iq, q1_prime, depth )
+            call quatfindsymm( qref, q2, iq, q2_prime, depth )
+            call quatfindsymm( qref, q3, iq, q3_prime, depth )
+            call quatfindsymm( qref, q4, iq, q4_prime, depth )
             do m = 1, depth
                q1(m)=
      &            (q1_prime(m)+(q3_prime(m)-q1_prime(m))*x)*(one-y)
diff --git a/source/fortran/3d/quatlinrefine.m4 b/source/fortran/3d/quatlinrefine.m4
index 43007da..bed7471 100644
--- a/source/fortran/3d/quatlinrefine.m4
+++ b/source/fortran/3d/quatlinrefine.m4
@@ -123,14 +123,14 @@ c
                   q7(m) = arrayc(ic0+1,ic1,  ic2+1,m)
                   q8(m) = arrayc(ic0+1,ic1+1,ic2+1,m)
                enddo
-               call quatsymmrotate( q1, iq, q1_prime, depth )
-               call quatsymmrotate( q2, iq, q2_prime, depth )
-               call quatsymmrotate( q3, iq, q3_prime, depth )
-               call quatsymmrotate( q4, iq, q4_prime, depth )
-               call quatsymmrotate( q5, iq, q5_prime, depth )
-               call quatsymmrotate( q6, iq, q6_prime, depth )
-               call quatsymmrotate( q7, iq, q7_prime, depth )
-               call quatsymmrotate( q8, iq, q8_prime, depth )
+               call quatfindsymm( qref, q1, iq, q1_prime, depth )
+               call quatfindsymm( qref, q2, iq, q2_prime, depth )
+               call quatfindsymm( qref, q3, iq, q3_prime, depth )
+               call quatfindsymm( qref, q4, iq, q4_prime, depth )
+               call quatfindsymm( qref, q5, iq, q5_prime, depth )
+               call quatfindsymm( qref, q6, iq, q6_prime, depth )
+               call quatfindsymm( qref, q7, iq, q7_prime, depth )
+               call quatfindsymm( qref, q8, iq, q8_prime, depth )
                do m = 1, depth
                   q1(m)=
      &               ( (q1_prime(m)
-- 
2.43.0


From 35bd7530da28c197a795d350edd319525400c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 21/69] fix: red-black smoothing skipped half of the cells at
 negative indices

---
 source/fortran/2d/ellipticfacops.m4 | 8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index fb09065..cfcb64c 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -107,7 +107,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -178,7 +178,7 @@ c      print*,'efo_rbgswithfluxmaxcondcvarsf2d'
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -250,7 +250,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -319,7 +319,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( modulo(jfirst+j,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index 11d48f7..a978239 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -150,7 +150,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -238,7 +238,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -332,7 +332,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -418,7 +418,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( modulo(ifirst+j+k,2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
-- 
2.43.0


From 4e869b4e6fc433cf2f7304049df349ea5f537078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:03 +0000
Subject: [PATCH 22/69] fix: elliptic residual addressed with the ghost widths
 of the right-hand side

---
 source/fortran/2d/ellipticfacops.m4 | 10 ++++++----
 source/fortran/3d/ellipticfacops.m4 | 14 ++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index cfcb64c..88789ad 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -368,8 +368,9 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(
+     &                     ifirst-residualgi:ilast+residualgi,
+     &                     jfirst-residualgj:jlast+residualgj)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj)
       double precision dx(0:1)
@@ -419,8 +420,9 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(
+     &                     ifirst-residualgi:ilast+residualgi,
+     &                     jfirst-residualgj:jlast+residualgj)
       double precision scalar_field
       double precision dx(0:1)
 
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index a978239..a731f3a 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -479,9 +479,10 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(
+     &                     ifirst-residualgi:ilast+residualgi,
+     &                     jfirst-residualgj:jlast+residualgj,
+     &                     kfirst-residualgk:klast+residualgk)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj,
      &                              kfirst-sfgk:klast+sfgk)
@@ -544,9 +545,10 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(
+     &                     ifirst-residualgi:ilast+residualgi,
+     &                     jfirst-residualgj:jlast+residualgj,
+     &                     kfirst-residualgk:klast+residualgk)
       double precision scalar_field
       double precision dx(0:2)
 
-- 
2.43.0


From b99d4d856d4e8e832506407027ff65f65e142af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 23/69] fix: derivative of the harmonic average with respect to
 a cell value was inverted

---
 source/fortran/functions.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 0b4ddcd..3cf0227 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -387,8 +387,8 @@ c-----------------------------------------------------------------------
          if ( avg_phi .lt. threshold ) then
             deriv_average_func = 0.d0
          else
-            deriv_average_func = 0.5d0 * next_phi * next_phi
-     &                                 / (avg_phi * avg_phi)
+            deriv_average_func = 0.5d0 * avg_phi * avg_phi
+     &                                 / (next_phi * next_phi)
          endif
 
       else
-- 
2.43.0


From ca1626e7439189705e52dd630fa7982da93aeb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 24/69] fix: quat.py: conjugate index of symmetry rotation 40

---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index d1c063c..43707e7 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -322,7 +322,7 @@ iq_qr4_conj[36] = 40
 iq_qr4_conj[37] = 44
 iq_qr4_conj[38] = 45
 iq_qr4_conj[39] = 46
-iq_qr4_conj[40] = 38
+iq_qr4_conj[40] = 36
 iq_qr4_conj[41] = 35
 iq_qr4_conj[42] = 34
 iq_qr4_conj[43] = 32
-- 
2.43.0


From c83e7b16d6a79e0924443898ef7d382792ea7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 25/69] fix: quat.py: multiplyQuat without an output argument

---
 utils/quat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index 43707e7..eb3c0cf 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -75,11 +75,11 @@ def subtractQuat( q1, q2, q ) :
 
 #=======================================================================
 
-def multiplyQuat( q1, q2, q=0 ) :
+def multiplyQuat( q1, q2, q=None ) :
   assert( len( q1 ) == len( q2 ) )
   qlen = len( q1 )
   assert( qlen == 2 or qlen == 4 )
-  if ( len(q)>1 ) :
+  if ( not q is None ) :
     assert( len( q ) == qlen )
     q_tmp = duplicateQuat( q )
   else :
@@ -116,7 +116,7 @@ def multiplyQuat( q1, q2, q=0 ) :
     q_tmp[1] = q1[0] * q2[1] \
                + q1[1] * q2[0]
 
-  if ( len(q)>1 ) :
+  if ( not q is None ) :
     copyQuat( q_tmp, q )
   else :
     return q_tmp
-- 
2.43.0


From 4ffbb4facbece79e46e6076129428a90fb91352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 26/69] fix: quat.py: conjugateQuat with and without an output
 argument

---
 utils/quat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index eb3c0cf..ce4c76b 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -130,13 +130,13 @@ def rotateQuat( q, q_rotation ) :
 
 #=======================================================================
 
-def conjugateQuat( q1, q2=0 ) :
+def conjugateQuat( q1, q2=None ) :
   qlen = len( q1 )
 
   ret_q = 0
-  if ( q2 == 0 ) :
+  if ( q2 is None ) :
     ret_q = 1
-    q2 = duplicateQuat( q )
+    q2 = duplicateQuat( q1 )
   else :
     assert( len( q2 ) == qlen )
     
-- 
2.43.0


From 46863758f8eca1fb8a1bab33350a116addf1ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 27/69] fix: quat.py: quatSymm1 returns the angle when no
 rotation is needed

---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index ce4c76b..f0d825a 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -484,7 +484,7 @@ def quatSymm1( q1, q2, iq=0 ) :
 
   # Test qr(:,iq) first
   diff, q2_prime = quatDiff1( q1, q2, qr1[iq] )
-  if ( diff <= CRIT_DIFF ) : return
+  if ( diff <= CRIT_DIFF ) : return q2_prime
 
   min_diff = diff
   min_iq = iq
-- 
2.43.0


From 731008e40d78ed07fefc299d0795799b97f89ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 28/69] fix: quat.py: ignore rotation index hints past the end
 of the table

---
 utils/quat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index f0d825a..d9cf6cc 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -444,7 +444,7 @@ def quatSymm( q1, q2, iq=0 ) :
     CRIT_DIFF = 2.0 * math.sin( math.pi / 8.0 )
     N_ROTATIONS = 4
 
-  if ( iq > N_ROTATIONS or iq < -N_ROTATIONS ) : iq = 0
+  if ( iq >= N_ROTATIONS or iq <= -N_ROTATIONS ) : iq = 0
 
   if ( iq < 0 ) : iq = iq_qr_conj[-iq]
 
@@ -478,7 +478,7 @@ def quatSymm1( q1, q2, iq=0 ) :
   CRIT_DIFF = math.pi / 4.0
   N_ROTATIONS = 9
 
-  if ( iq > N_ROTATIONS or iq < -N_ROTATIONS ) : iq = 0
+  if ( iq >= N_ROTATIONS or iq <= -N_ROTATIONS ) : iq = 0
 
   if ( iq < 0 ) : iq = iq_qr1_conj[-iq]
 
-- 
2.43.0


From 32eefa7e4d7ccf9e04551d6fb4360f6e7d5019df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 29/69] fix: generators: species with equal concentrations are
 different species

---
 utils/make_multi_spheres.py | 2 +-
 utils/make_nuclei.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/make_multi_spheres.py b/utils/make_multi_spheres.py
index 7165a59..1a00008 100644
--- a/utils/make_multi_spheres.py
+++ b/utils/make_multi_spheres.py
@@ -111,7 +111,7 @@ if ( not options.concentration_out is None ) :
     concB = [float(i) for i in tmp]
     print(concB)
 
-  nspecies = len(set(concA))
+  nspecies = len(concA)
 else:
   nspecies = 0
 
diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 847151b..eae0325 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -142,7 +142,7 @@ nspecies=0
 if ( not ( nomconc is None ) ):
   tmp = options.nomconc.split( ',' )
   c = [float(i) for i in tmp]
-  nspecies=len(set(c))
+  nspecies=len(c)
   print ("Nominal composition={}".format(c))
 if ( not ( conc_inside is None ) ):
   tmp = options.concentration_in.split( ',' )
-- 
2.43.0


From a40e1af02d9340474d7ac34d2101575d99ae49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 30/69] fix: make_nuclei.py: nominal concentration without
 concentration-in

---
 utils/make_nuclei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index eae0325..97ffb94 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -145,7 +145,7 @@ if ( not ( nomconc is None ) ):
   nspecies=len(c)
   print ("Nominal composition={}".format(c))
 if ( not ( conc_inside is None ) ):
-  tmp = options.concentration_in.split( ',' )
+  tmp = conc_inside.split( ',' )
   ci = [float(i) for i in tmp]
   if nspecies==0:
     nspecies=len(ci)
-- 
2.43.0


From d0efc559f3d163f6c920f714dbd98613256f80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 31/69] fix: generators: composition inside from the nominal
 and outside ones

---
 utils/make_bilayer.py |  7 ++++---
 utils/make_nuclei.py  | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index dbb0b1b..087cbc8 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -512,10 +512,11 @@ if ( not ( conc_inside is None ) ):
     for s in range(nspecies):
       co[s] = (c[s]*vol-ci[s]*vs)/vl
     print("Calculated composition outside={}".format(co))
-if ( not ( options.concentration_out is None ) ):
+elif ( not ( conc_outside is None ) ):
   if ( not ( nomconc is None ) and vs>0 ):
-    conc_inside = (c[0]*vol-conc_outside*vl)/vs
-    print("Calculated composition inside={}".format(conc_inside))
+    for s in range(nspecies):
+      ci[s] = (c[s]*vol-co[s]*vl)/vs
+    print("Calculated composition inside={}".format(ci))
 if( ( conc_outside is None ) and ( conc_inside is None ) ):
   conc_inside = nomconc
   conc_outside = nomconc
diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 97ffb94..7a9a0c1 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -714,15 +714,16 @@ if QLEN>0:
 
 #fill conc values
 if nspecies>0:
-  if ( not ( conc_inside is None ) ):
+  if ( options.concentration_in is None and not ( conc_outside is None ) ):
+    if ( not ( nomconc is None ) and vs>0 ):
+      for s in range(nspecies):
+        ci[s] = (c[s]*vol-co[s]*vl)/vs
+      print ("Calculated composition inside={}".format(ci))
+  elif ( not ( conc_inside is None ) ):
     if ( not ( nomconc is None ) and vl>0 ):
       for s in range(nspecies):
         co[s] = (c[s]*vol-ci[s]*vs)/vl
       print ("Calculated composition outside={}".format(co))
-  if ( not ( options.concentration_out is None ) ):
-    if ( not ( nomconc is None ) and vs>0 ):
-      conc_inside = (c[0]*vol-conc_outside*vl)/vs
-      print ("Calculated composition inside={}".format(conc_inside))
   if( ( conc_outside is None ) and ( conc_inside is None ) ):
     conc_inside = nomconc
     conc_outside = nomconc
-- 
2.43.0


From e21c2fd40a7a5bc01e2467880c227a0f79d08729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 32/69] fix: make_bilayer.py: uniform composition when only the
 nominal one is given

---
 utils/make_bilayer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index 087cbc8..513075b 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -520,6 +520,9 @@ elif ( not ( conc_outside is None ) ):
 if( ( conc_outside is None ) and ( conc_inside is None ) ):
   conc_inside = nomconc
   conc_outside = nomconc
+  for s in range(nspecies):
+    ci[s] = c[s]
+    co[s] = c[s]
 
 if ( not ( conc_outside is None ) and not ( conc_inside is None ) ):
   for s in range(nspecies):
-- 
2.43.0


From 1dc844571df9f0a79b44dcc7da6569ac1d3fe59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 33/69] fix: make_nuclei.py: solid volume counts overlapping
 grains once and the phase outside

---
 utils/make_nuclei.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 7a9a0c1..7ff4097 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -622,10 +622,8 @@ if( options.three ):
 
 
 vol=nx*ny*nz
-vs=0.
-vl=0.;
 
-#fill phase value and compute volume solid
+#fill phase value
 for g in range(n_spheres):
   r_sq = r[g]**2
   threshold = (r[g]+5.*width)**2
@@ -649,16 +647,16 @@ for g in range(n_spheres):
             if( width>0. ):
               if( d<8.*width ):
                 phase[k,j,i] = phase_inside*0.5*(1.+N.tanh(-1.*d/(2.*width)))
-                vs=vs+phase[k,j,i]
                 if( options.three ):
                   eta[k,j,i] = g%2
             else:
               if( d<0. ):
                 phase[k,j,i] = phase_inside
-                vs=vs+phase[k,j,i]
                 if( options.three ):
                   eta[k,j,i] = g%2
 
+#compute volume solid, counting each cell once
+vs=float(N.sum(phase, dtype=N.float64))
 vl=vol-vs
 
 #fill quat values
-- 
2.43.0


From c6a60db84b135e963c845758cbee4b726c67d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 34/69] fix: substituteInputParameter.py: parameter present on
 several lines

---
 utils/substituteInputParameter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/substituteInputParameter.py b/utils/substituteInputParameter.py
index 117ccd4..09a8aac 100644
--- a/utils/substituteInputParameter.py
+++ b/utils/substituteInputParameter.py
@@ -8,7 +8,6 @@ lines = open(sys.argv[1],'r')
 
 parameter_name = sys.argv[2]
 parameter_val  = sys.argv[3]
-newline = " "
 
 # loop over lines of file
 for line in lines:
@@ -16,7 +15,7 @@ for line in lines:
   if len(words)>0:
     if words[0]==parameter_name:
       words[2]=parameter_val
-      newline = newline.join(words)
+      newline = " ".join(words)
       print("  {}".format(newline))
     else:
       print(line, end = '')
-- 
2.43.0


From be6795f74cc69f982afa918a479b37199f287fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 35/69] fix: make_nuclei.py: quat-out with Python 3

---
 utils/make_nuclei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 7ff4097..31fd00b 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -132,7 +132,7 @@ temperature_outside  = options.temperature_out
 
 quat_outside  = options.quat_out
 if( not(quat_outside is None) ):
-  qout = map( float, options.quat_out.split( ',' ) )
+  qout = list(map( float, options.quat_out.split( ',' ) ))
   print ("qout={}".format(qout))
 
 periodic = options.periodic.split( ',')
-- 
2.43.0


From 6633dcd3dfcf53eb810b1d14c9417ffddbe05e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 36/69] fix: make_nuclei.py: quat-out applies outside of every
 grain, not outside of the first one

---
 utils/make_nuclei.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 31fd00b..c5f1424 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -681,12 +681,13 @@ if QLEN>0:
         z = k + 0.5
         d2min=distance2(x,y,z,cx[gmin],cy[gmin],cz[gmin])
         if( not(quat_outside is None)):
-          if( d2min<radius*radius ):
-            qi=quat_inside[gmin]
-          else:
-            qi=[]
-            for m in range(QLEN):
-              qi.append(qout[m])
+          qi=[]
+          for m in range(QLEN):
+            qi.append(qout[m])
+          for g in range(n_spheres):
+            if( distance2(x,y,z,cx[g],cy[g],cz[g])<r[g]*r[g] ):
+              qi=quat_inside[g]
+              break
         else:
           if d2min>halfmind2:
             for g in range(n_spheres):
-- 
2.43.0


From 864863d76e52ec28ebc15a9b74d047ec8a61b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 37/69] fix: make_sphere.py: quaternion options with Python 3

---
 utils/make_sphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index a5f9a6b..49ca261 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -183,7 +183,7 @@ if ( not options.quat_in is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, options.quat_in.split( ',' ) )
+  q = list(map( float, options.quat_in.split( ',' ) ))
   if ( QLEN == 4 ) :
     quat_inside.append( Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] ) )
   else :
@@ -207,7 +207,7 @@ if ( not options.quat_in_two is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, options.quat_in_two.split(',') )
+  q = list(map( float, options.quat_in_two.split(',') ))
   if ( QLEN == 4 ) :
     quat_inside.append( Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] ) )
   else :
@@ -231,7 +231,7 @@ if ( not options.quat_out is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, string.split( options.quat_out, ',' ) )
+  q = list(map( float, options.quat_out.split( ',' ) ))
   if ( QLEN == 4 ) :
     quat_outside = Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] )
   else :
-- 
2.43.0


From d89429b01c1f320599800e59246a9741aaa74af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 38/69] fix: make_sphere.py: option two places two spheres

---
 utils/make_sphere.py | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index 49ca261..6b2acd0 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -404,21 +404,6 @@ phase = N.ones( (nz,ny,nx), N.float64 )
 quat = N.zeros( (QLEN,nz,ny,nx), N.float64 )
 conc = N.ones( (nz,ny,nx), N.float64 )
 
-if ( n_spheres == "two" ) :
-  r_sq_two = radius_two**2
-
-  cx = nx / 2
-  cy = ny / 2
-  cz = nz / 2
-
-  cx_one = 3 * cx / 4
-  cy_one = 3 * cy / 4
-  cz_one = cz
-
-  cx_two = 5 * cx / 4
-  cy_two = 5 * cy / 4
-  cz_two = cz
-
 #-----------------------------------------------------------------------
 # Variables and functions for symmetry rotations
 
-- 
2.43.0


From dec63f6f647e6e1d78797b29b2f2220f44dc7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:55 +0000
Subject: [PATCH 39/69] fix: make_initial_grains_on_boundary.py: random angles
 with current Python

---
 utils/make_initial_grains_on_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index dfd43f0..fa2cbb0 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -116,7 +116,7 @@ if conc_inside is None :
 # generate quaternions corresponding to random orientations
 random.seed( 112345 )
 quat_inside=[]
-nangles = 20. #actually means fewer different angles if symmetry is on
+nangles = 20 #actually means fewer different angles if symmetry is on
 h = 2.*math.pi/nangles
 
 #-----------------------------------------------------------------------
-- 
2.43.0


From ab855f466240c6f62559ce37467cadda704d263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 40/69] fix: Quadratic ternary: second derivatives, convert all
 four matrix elements

---
 ...uadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc b/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc
index e9d11f1..bb1579c 100644
--- a/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc
+++ b/source/QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.cc
@@ -565,7 +565,7 @@ void QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase::
    d_quadratic_fenergy->computeSecondDerivativeFreeEnergy(
        0., &c_l[0], Thermo4PFM::PhaseIndex::phaseL, &d2fdc2[0]);
    if (use_internal_units)
-      for (short i = 0; i < 3; i++)
+      for (short i = 0; i < 4; i++)
          d2fdc2[i] *= d_energy_conv_factor_L;
 }
 
@@ -579,7 +579,7 @@ void QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase::
    d_quadratic_fenergy->computeSecondDerivativeFreeEnergy(
        0., &c_a[0], Thermo4PFM::PhaseIndex::phaseA, &d2fdc2[0]);
    if (use_internal_units)
-      for (short i = 0; i < 3; i++)
+      for (short i = 0; i < 4; i++)
          d2fdc2[i] *= d_energy_conv_factor_A;
 }
 
@@ -593,6 +593,6 @@ void QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase::
    d_quadratic_fenergy->computeSecondDerivativeFreeEnergy(
        0., &c_b[0], Thermo4PFM::PhaseIndex::phaseB, &d2fdc2[0]);
    if (use_internal_units)
-      for (short i = 0; i < 3; i++)
+      for (short i = 0; i < 4; i++)
          d2fdc2[i] *= d_energy_conv_factor_B;
 }
-- 
2.43.0


From 6b09cc2069c892ac4eef4ee3873ee87a331f8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 41/69] fix: CALPHADFreeEnergyStrategyBinary: weight solid
 phases with h(eta), not its derivative

---
 source/CALPHADFreeEnergyStrategyBinary.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/CALPHADFreeEnergyStrategyBinary.cc b/source/CALPHADFreeEnergyStrategyBinary.cc
index 8c4fd6a..ab24f31 100644
--- a/source/CALPHADFreeEnergyStrategyBinary.cc
+++ b/source/CALPHADFreeEnergyStrategyBinary.cc
@@ -655,7 +655,9 @@ void CALPHADFreeEnergyStrategyBinary<FreeEnergyFunctionType>::addDrivingForce(
                f_b = ptr_f_b[idx_f_i];
                c_b = ptr_c_b[idx_c_i];
 
-               heta = hprime(eta);
+               const char interpf =
+                   Thermo4PFM::energyInterpChar(d_energy_interp_func_type);
+               heta = INTERP_FUNC(eta, &interpf);
             }
 
             ptr_rhs[idx_rhs] +=
-- 
2.43.0


From 83d8140e96f9086a125c303b0fa2e88e14e75cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 42/69] fix: diffusion matrix of ternary alloys was passed
 transposed to the flux kernels

---
 source/MobilityCompositionDiffusionStrategy.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/MobilityCompositionDiffusionStrategy.cc b/source/MobilityCompositionDiffusionStrategy.cc
index 913b2fc..91e1154 100644
--- a/source/MobilityCompositionDiffusionStrategy.cc
+++ b/source/MobilityCompositionDiffusionStrategy.cc
@@ -62,7 +62,9 @@ void MobilityCompositionDiffusionStrategy::computeLocalDiffusionMatrixL(
    d_mobilities_strategy->computeDiffusionMobilityPhaseL(c, temperature,
                                                          d_mobmat);
 
-   small_mat_mult(d_ncompositions, &d_mobmat[0], &d_d2f[0], &d_local_dmat[0]);
+   // D=M*d2f stored by columns, as expected by the flux kernels
+   // (M and d2f are symmetric, thus d2f*M by rows)
+   small_mat_mult(d_ncompositions, &d_d2f[0], &d_mobmat[0], &d_local_dmat[0]);
 
    for (short i = 0; i < d_ncompositions * d_ncompositions; i++)
       assert(d_local_dmat[i] == d_local_dmat[i]);
@@ -85,7 +87,9 @@ void MobilityCompositionDiffusionStrategy::computeLocalDiffusionMatrixA(
    //   std::cout<<d_mobmat[i]<<"  ";
    // std::cout<<endl;
 
-   small_mat_mult(d_ncompositions, &d_mobmat[0], &d_d2f[0], &d_local_dmat[0]);
+   // D=M*d2f stored by columns, as expected by the flux kernels
+   // (M and d2f are symmetric, thus d2f*M by rows)
+   small_mat_mult(d_ncompositions, &d_d2f[0], &d_mobmat[0], &d_local_dmat[0]);
    // std::cout<<"c="<<c[0]<<","<<c[1]<<endl;
    // std::cout<<"d_local_dmat: ";
    // for(short i=0;i<d_ncompositions*d_ncompositions;i++)
-- 
2.43.0


From 13187b7643bb45926b0b5dd57c0a49c4d1bd70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 43/69] fix: neighbor cell of the partition coefficient on y
 and z faces

---
 source/BeckermannCompositionRHSStrategy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index ef77481..a29448f 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -328,7 +328,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
             const int idx_k =
                 (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-            const int idxm1_k = idx_k - 1;
+            const int idxm1_k = idx_k - jp_k;
 
             // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
             double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
@@ -366,7 +366,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
                const int idx_k =
                    (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-               const int idxm1_k = idx_k - 1;
+               const int idxm1_k = idx_k - kp_k;
 
                // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
                double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
-- 
2.43.0


From 07be738622175fd8fb2a815cee530edcbfe07416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:29 +0000
Subject: [PATCH 44/69] fix: refresh diffusion coefficients of the Beckermann
 composition model

---
 source/QuatIntegrator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 594e1bd..aa7560b 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -26,6 +26,7 @@
 #include "QuatGradStrategy.h"
 #include "QuatRefinePatchStrategy.h"
 #include "QuatMobilityStrategy.h"
+#include "BeckermannCompositionRHSStrategy.h"
 #include "CompositionRHSStrategy.h"
 #include "PhaseFluxStrategy.h"
 #include "PhaseConcentrationsStrategy.h"
@@ -2414,6 +2415,13 @@ void QuatIntegrator::setDiffusionCoeffForConcentration(
       kks_rhs->setDiffusionCoeff(hierarchy, time);
    }
 
+   std::shared_ptr<BeckermannCompositionRHSStrategy> beckermann_rhs =
+       std::dynamic_pointer_cast<BeckermannCompositionRHSStrategy>(
+           d_composition_rhs_strategy);
+   if (beckermann_rhs) {
+      beckermann_rhs->setDiffusionCoeff(hierarchy, time);
+   }
+
    std::shared_ptr<WangSinteringCompositionRHSStrategy> ws_rhs =
        std::dynamic_pointer_cast<WangSinteringCompositionRHSStrategy>(
            d_composition_rhs_strategy);
-- 
2.43.0


From 0f3ae46b85d1da56936a643574c60433d7e04316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 45/69] fix: index composition with its own ghost box in the
 Beckermann model

---
 source/BeckermannCompositionRHSStrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index a29448f..8a2c444 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -249,7 +249,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
    kp_k = jp_k * k_gbox.numberCells(1);
 #endif
 
-   const hier::Box& c_i_gbox = cd_k->getGhostBox();
+   const hier::Box& c_i_gbox = cd_c->getGhostBox();
    int imin_c_i = c_i_gbox.lower(0);
    int jmin_c_i = c_i_gbox.lower(1);
    int jp_c_i = c_i_gbox.numberCells(0);
-- 
2.43.0


From 06bddc0d4f400a41220d970a1f28d66a03513aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 46/69] fix: diffusion of multi-order and three-phase models in
 the ghost layers used by the isotropic stencil

---
 source/fortran/2d/concentrationdiffusion.m4 |  8 +++----
 source/fortran/3d/concentrationdiffusion.m4 | 24 ++++++++++-----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index f37f23c..53c86f7 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -468,7 +468,7 @@ c
       q0_liquid_invR = q0_liquid / gas_constant_R
       q0_solid_invR  = q0_solid / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
+      do ic1 = ifirst1-ngdiff, ilast1+ngdiff
          do ic0 = ifirst0, ilast0+1
             vphi = 0.d0
 c assuming the first nphi-1 order parameters are solid phase
@@ -493,7 +493,7 @@ c assuming the first nphi-1 order parameters are solid phase
       end do
 c
       do ic1 = ifirst1, ilast1+1
-         do ic0 = ifirst0, ilast0
+         do ic0 = ifirst0-ngdiff, ilast0+ngdiff
             vphi = 0.d0
             do ip = 1, nphi-1
                vphi = vphi + average_func(
@@ -569,7 +569,7 @@ c
       q0_solidA_invR = q0_solidA / gas_constant_R
       q0_solidB_invR = q0_solidB / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
+      do ic1 = ifirst1-ngdiff, ilast1+ngdiff
          do ic0 = ifirst0, ilast0+1
 
             vphi = 0.d0
@@ -603,7 +603,7 @@ c
       end do
 c
       do ic1 = ifirst1, ilast1+1
-         do ic0 = ifirst0, ilast0
+         do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
             vphi = 0.d0
             do ip = 1, nphiA
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index f734768..8cce694 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -481,8 +481,8 @@ c
       q0_solidA_invR = q0_solidA / gas_constant_R
       q0_solidB_invR = q0_solidB / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-         do ic1 = ifirst1, ilast1
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
             do ic0 = ifirst0, ilast0+1
 
                vphi = 0.d0
@@ -520,9 +520,9 @@ c
          end do
       end do
 c
-      do ic2 = ifirst2, ilast2
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
          do ic1 = ifirst1, ilast1+1
-            do ic0 = ifirst0, ilast0
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
                vphi = 0.d0
                do ip = 1, nphiA
@@ -560,8 +560,8 @@ c
       end do
 c
       do ic2 = ifirst2, ilast2+1
-         do ic1 = ifirst1, ilast1
-            do ic0 = ifirst0, ilast0
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
                vphi = 0.d0
                do ip = 1, nphiA
@@ -960,8 +960,8 @@ c
       q0_liquid_invR = q0_liquid / gas_constant_R
       q0_solid_invR  = q0_solid / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-         do ic1 = ifirst1, ilast1
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
             do ic0 = ifirst0, ilast0+1
                vphi = 0.d0
 c assuming the first nphi-1 order parameters are solid phase
@@ -988,9 +988,9 @@ c assuming the first nphi-1 order parameters are solid phase
          end do
       end do
 c
-      do ic2 = ifirst2, ilast2
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
          do ic1 = ifirst1, ilast1+1
-            do ic0 = ifirst0, ilast0
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
                vphi = 0.d0
                do ip = 1, nphi-1
                   vphi = vphi + average_func(
@@ -1016,8 +1016,8 @@ c
       end do
 c
       do ic2 = ifirst2, ilast2+1
-         do ic1 = ifirst1, ilast1
-            do ic0 = ifirst0, ilast0
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
                vphi = 0.d0
                do ip = 1, nphi-1
                   vphi = vphi + average_func(
-- 
2.43.0


From e4a42e8e46a69ef6f6a9e2881cae893391e279f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 47/69] fix: no composition flux through physical boundaries in
 Cahn-Hilliard and Wang sintering models

---
 source/CahnHilliardDoubleWell.cc              |  3 +++
 source/CompositionRHSStrategy.cc              | 12 ++++++------
 source/WangSinteringCompositionRHSStrategy.cc |  3 +++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/CahnHilliardDoubleWell.cc b/source/CahnHilliardDoubleWell.cc
index 30a86c2..569daac 100644
--- a/source/CahnHilliardDoubleWell.cc
+++ b/source/CahnHilliardDoubleWell.cc
@@ -106,4 +106,7 @@ void CahnHilliardDoubleWell::computeFluxOnPatch(hier::Patch& patch,
                                       flux->getPointer(2, ic),
 #endif
                                       flux->getGhostCellWidth()[0]);
+
+   // chemical potential not available beyond physical boundaries
+   setZeroFluxAtBoundaryOnPatch(patch, flux_id);
 }
diff --git a/source/CompositionRHSStrategy.cc b/source/CompositionRHSStrategy.cc
index aabe19a..f4f0856 100644
--- a/source/CompositionRHSStrategy.cc
+++ b/source/CompositionRHSStrategy.cc
@@ -76,8 +76,6 @@ void CompositionRHSStrategy::setZeroFluxAtBoundaryOnPatch(hier::Patch& patch,
    const hier::Index pup(pbox.upper());
 
    const hier::Index glo(gbox.lower());
-   for (int i = 0; i < NDIM; i++)
-      assert(glo(i) == plo(i));
 
    for (size_t i = 0; i < bdry.size(); i++) {
 
@@ -103,14 +101,16 @@ void CompositionRHSStrategy::setZeroFluxAtBoundaryOnPatch(hier::Patch& patch,
             up(dir) = pup(dir) + 1;
          }
 
+         for (int ic = 0; ic < flux->getDepth(); ic++) {
 #if (NDIM == 3)
-         SETTOZERO(lo(0), lo(1), lo(2), up(0), up(1), up(2), glo(0), glo(1),
-                   glo(2), gup(0), gup(1), gup(2), flux->getPointer(dir));
+            SETTOZERO(lo(0), lo(1), lo(2), up(0), up(1), up(2), glo(0), glo(1),
+                      glo(2), gup(0), gup(1), gup(2), flux->getPointer(dir, ic));
 #endif
 #if (NDIM == 2)
-         SETTOZERO(lo(0), lo(1), up(0), up(1), glo(0), glo(1), gup(0), gup(1),
-                   flux->getPointer(dir));
+            SETTOZERO(lo(0), lo(1), up(0), up(1), glo(0), glo(1), gup(0),
+                      gup(1), flux->getPointer(dir, ic));
 #endif
+         }
       }
    }  // loop over bdry boxes
 }
diff --git a/source/WangSinteringCompositionRHSStrategy.cc b/source/WangSinteringCompositionRHSStrategy.cc
index b40da5a..c597108 100644
--- a/source/WangSinteringCompositionRHSStrategy.cc
+++ b/source/WangSinteringCompositionRHSStrategy.cc
@@ -142,4 +142,7 @@ void WangSinteringCompositionRHSStrategy::computeFluxOnPatch(hier::Patch& patch,
 #endif
                            flux->getGhostCellWidth()[0], tmp1.data(),
                            tmp2.data());
+
+   // chemical potential not available beyond physical boundaries
+   setZeroFluxAtBoundaryOnPatch(patch, flux_id);
 }
-- 
2.43.0


From b71a7df790249edc887852e3af12f70895b46923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 48/69] fix: initial restart file follows the Restart interval,
 not the Regrid one

---
 source/PFModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/PFModel.cc b/source/PFModel.cc
index 7469bd7..f86eac8 100644
--- a/source/PFModel.cc
+++ b/source/PFModel.cc
@@ -450,7 +450,7 @@ void PFModel::Run(void)
       tbox::pout << "cycle # " << d_cycle << " : t = " << d_time << std::endl;
    }
 
-   if (d_regrid_interval->includeInitial(d_time)) {
+   if (d_restart_interval->includeInitial(d_time)) {
       writeRestartFile();
    }
 
-- 
2.43.0


From 7cba14f662e83155ffaf6e838030c26b59b62dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:28 +0000
Subject: [PATCH 49/69] fix: options not given in the input file were left
 uninitialized

---
 source/QuatModelParameters.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/QuatModelParameters.cc b/source/QuatModelParameters.cc
index db33ce1..50e5f60 100644
--- a/source/QuatModelParameters.cc
+++ b/source/QuatModelParameters.cc
@@ -131,6 +131,12 @@ QuatModelParameters::QuatModelParameters() : d_moving_frame_velocity(def_val)
    d_vd = -1.;
    d_with_velocity = false;
    d_use_diffs_to_compute_flux = false;
+   d_grand_potential = false;
+   d_bias_well_beckermann = false;
+   d_extra_visit_output = false;
+   d_visit_energy_output = false;
+   d_visit_grain_output = false;
+   d_rhs_visit_output = false;
 }
 
 //=======================================================================
-- 
2.43.0


From abf16d4c7240c1297bbb2d0a55556cd57bf757a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:53 +0000
Subject: [PATCH 50/69] fix: composition mobility applied twice in the Wang
 sintering model

---
 source/CompositionRHSStrategyFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/CompositionRHSStrategyFactory.h b/source/CompositionRHSStrategyFactory.h
index 9fe2971..2626232 100644
--- a/source/CompositionRHSStrategyFactory.h
+++ b/source/CompositionRHSStrategyFactory.h
@@ -87,10 +87,10 @@ class CompositionRHSStrategyFactory
              model_parameters.CH_well_scale(),
              model_parameters.avg_func_type()));
       } else if (model_parameters.isConcentrationModelWangSintering()) {
+         // use mobility = 1. since multiplied by mobility outside
          strategy.reset(new WangSinteringCompositionRHSStrategy(
              conc_scratch_id, phase_scratch_id, temperature_scratch_id,
-             conc_pfm_diffusion_id[0], model_parameters.conc_mobility(),
-             model_parameters.WangSintering_A(),
+             conc_pfm_diffusion_id[0], 1., model_parameters.WangSintering_A(),
              model_parameters.WangSintering_B(),
              model_parameters.WangSintering_beta_rho(),
              model_parameters.avg_func_type(), diffusion_for_conc_in_phase));
-- 
2.43.0


From 3471ba58a9d124d91cceb4eb8b6450e30ab400ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:53 +0000
Subject: [PATCH 51/69] fix: interface diffusion missing on the ghost faces
 used by the isotropic stencil

---
 source/fortran/2d/concentrationdiffusion.m4 | 35 ++++++++-------
 source/fortran/3d/concentrationdiffusion.m4 | 48 ++++++++++++---------
 2 files changed, 48 insertions(+), 35 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 53c86f7..3e4d065 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -909,8 +909,8 @@ c variables in 2d cell indexed
       double precision diffB0(SIDE2d0(ifirst,ilast,ngdiff))
       double precision diffB1(SIDE2d1(ifirst,ilast,ngdiff))
 c
-      integer ic0, ic1, ipa, ipb, ipbmin
-      logical in0, in1
+      integer ic0, ic1, ng, ipa, ipb, ipbmin
+      logical in0, in1, lo0, lo1, up0, up1
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -922,11 +922,16 @@ c
       q0_invR = q0 / gas_constant_R
 c
 c loop over cells adjacent to the patch too since they contribute to
-c the faces on its boundary
-      do ic1 = ifirst1-1, ilast1+1
-        in1 = ( ic1.ge.ifirst1 .and. ic1.le.ilast1 )
-        do ic0 = ifirst0-1, ilast0+1
-          in0 = ( ic0.ge.ifirst0 .and. ic0.le.ilast0 )
+c the faces on its boundary, and over the ghost layers of the diffusion
+      ng = max( 1, ngdiff )
+      do ic1 = ifirst1-ng, ilast1+ng
+        in1 = ( ic1.ge.ifirst1-ngdiff .and. ic1.le.ilast1+ngdiff )
+        lo1 = ( ic1.ge.ifirst1 .and. ic1.le.ilast1+1 )
+        up1 = ( ic1.ge.ifirst1-1 .and. ic1.le.ilast1 )
+        do ic0 = ifirst0-ng, ilast0+ng
+          in0 = ( ic0.ge.ifirst0-ngdiff .and. ic0.le.ilast0+ngdiff )
+          lo0 = ( ic0.ge.ifirst0 .and. ic0.le.ilast0+1 )
+          up0 = ( ic0.ge.ifirst0-1 .and. ic0.le.ilast0 )
           if( .not.in0 .and. .not.in1 ) cycle
           invT = 1.0d0 / temp(ic0,ic1)
           factorT = d0c*exp(-q0_invR*invT)
@@ -948,22 +953,22 @@ c factor 0.5 for two contributions, one from each side
                   dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
 c add contribution to four sides of each cell
-                  if( in1 .and. ic0.ge.ifirst0 )
+                  if( in1 .and. lo0 )
      &              diffA0(ic0,ic1) = diffA0(ic0,ic1) + dAB
-                  if( in1 .and. ic0.le.ilast0 )
+                  if( in1 .and. up0 )
      &              diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
-                  if( in0 .and. ic1.ge.ifirst1 )
+                  if( in0 .and. lo1 )
      &              diffA1(ic0,ic1) = diffA1(ic0,ic1) + dAB
-                  if( in0 .and. ic1.le.ilast1 )
+                  if( in0 .and. up1 )
      &              diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
                   if( same_phase.eq.0 )then
-                    if( in1 .and. ic0.ge.ifirst0 )
+                    if( in1 .and. lo0 )
      &                diffB0(ic0,ic1) = diffB0(ic0,ic1) + dAB
-                    if( in1 .and. ic0.le.ilast0 )
+                    if( in1 .and. up0 )
      &                diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1) + dAB
-                    if( in0 .and. ic1.ge.ifirst1 )
+                    if( in0 .and. lo1 )
      &                diffB1(ic0,ic1) = diffB1(ic0,ic1) + dAB
-                    if( in0 .and. ic1.le.ilast1 )
+                    if( in0 .and. up1 )
      &                diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1) + dAB
                   endif
                 endif
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 8cce694..51bb723 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1079,8 +1079,9 @@ c variables in 3d cell indexed
       double precision diffB1(SIDE3d1(ifirst,ilast,ngdiff))
       double precision diffB2(SIDE3d2(ifirst,ilast,ngdiff))
 c
-      integer ic0, ic1, ic2, ipa, ipb, ipbmin
+      integer ic0, ic1, ic2, ng, ipa, ipb, ipbmin
       logical in0, in1, in2, in01, in02, in12
+      logical lo0, lo1, lo2, up0, up1, up2
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -1092,14 +1093,21 @@ c
       q0_invR = q0 / gas_constant_R
 c
 c loop over cells adjacent to the patch too since they contribute to
-c the faces on its boundary
-      do ic2 = ifirst2-1, ilast2+1
-        in2 = ( ic2.ge.ifirst2 .and. ic2.le.ilast2 )
-        do ic1 = ifirst1-1, ilast1+1
-          in1 = ( ic1.ge.ifirst1 .and. ic1.le.ilast1 )
+c the faces on its boundary, and over the ghost layers of the diffusion
+      ng = max( 1, ngdiff )
+      do ic2 = ifirst2-ng, ilast2+ng
+        in2 = ( ic2.ge.ifirst2-ngdiff .and. ic2.le.ilast2+ngdiff )
+        lo2 = ( ic2.ge.ifirst2 .and. ic2.le.ilast2+1 )
+        up2 = ( ic2.ge.ifirst2-1 .and. ic2.le.ilast2 )
+        do ic1 = ifirst1-ng, ilast1+ng
+          in1 = ( ic1.ge.ifirst1-ngdiff .and. ic1.le.ilast1+ngdiff )
+          lo1 = ( ic1.ge.ifirst1 .and. ic1.le.ilast1+1 )
+          up1 = ( ic1.ge.ifirst1-1 .and. ic1.le.ilast1 )
           in12 = ( in1 .and. in2 )
-          do ic0 = ifirst0-1, ilast0+1
-            in0 = ( ic0.ge.ifirst0 .and. ic0.le.ilast0 )
+          do ic0 = ifirst0-ng, ilast0+ng
+            in0 = ( ic0.ge.ifirst0-ngdiff .and. ic0.le.ilast0+ngdiff )
+            lo0 = ( ic0.ge.ifirst0 .and. ic0.le.ilast0+1 )
+            up0 = ( ic0.ge.ifirst0-1 .and. ic0.le.ilast0 )
             in01 = ( in0 .and. in1 )
             in02 = ( in0 .and. in2 )
             if( .not.in01 .and. .not.in02 .and. .not.in12 ) cycle
@@ -1123,41 +1131,41 @@ c factor 0.5 for two contributions, one from each side
                     dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
 c add contribution to six sides of each cell
-                    if( in12 .and. ic0.ge.ifirst0 )
+                    if( in12 .and. lo0 )
      &                diffA0(ic0,ic1,ic2) =
      &                diffA0(ic0,ic1,ic2) + dAB
-                    if( in12 .and. ic0.le.ilast0 )
+                    if( in12 .and. up0 )
      &                diffA0(ic0+1,ic1,ic2) =
      &                diffA0(ic0+1,ic1,ic2) + dAB
-                    if( in02 .and. ic1.ge.ifirst1 )
+                    if( in02 .and. lo1 )
      &                diffA1(ic0,ic1,ic2) =
      &                diffA1(ic0,ic1,ic2) + dAB
-                    if( in02 .and. ic1.le.ilast1 )
+                    if( in02 .and. up1 )
      &                diffA1(ic0,ic1+1,ic2) =
      &                diffA1(ic0,ic1+1,ic2) + dAB
-                    if( in01 .and. ic2.ge.ifirst2 )
+                    if( in01 .and. lo2 )
      &                diffA2(ic0,ic1,ic2) =
      &                diffA2(ic0,ic1,ic2) + dAB
-                    if( in01 .and. ic2.le.ilast2 )
+                    if( in01 .and. up2 )
      &                diffA2(ic0,ic1,ic2+1) =
      &                diffA2(ic0,ic1,ic2+1) + dAB
                     if( same_phase.eq.0 )then
-                      if( in12 .and. ic0.ge.ifirst0 )
+                      if( in12 .and. lo0 )
      &                  diffB0(ic0,ic1,ic2) =
      &                  diffB0(ic0,ic1,ic2) + dAB
-                      if( in12 .and. ic0.le.ilast0 )
+                      if( in12 .and. up0 )
      &                  diffB0(ic0+1,ic1,ic2) =
      &                  diffB0(ic0+1,ic1,ic2) + dAB
-                      if( in02 .and. ic1.ge.ifirst1 )
+                      if( in02 .and. lo1 )
      &                  diffB1(ic0,ic1,ic2) =
      &                  diffB1(ic0,ic1,ic2) + dAB
-                      if( in02 .and. ic1.le.ilast1 )
+                      if( in02 .and. up1 )
      &                  diffB1(ic0,ic1+1,ic2) =
      &                  diffB1(ic0,ic1+1,ic2) + dAB
-                      if( in01 .and. ic2.ge.ifirst2 )
+                      if( in01 .and. lo2 )
      &                  diffB2(ic0,ic1,ic2) =
      &                  diffB2(ic0,ic1,ic2) + dAB
-                      if( in01 .and. ic2.le.ilast2 )
+                      if( in01 .and. up2 )
      &                  diffB2(ic0,ic1,ic2+1) =
      &                  diffB2(ic0,ic1,ic2+1) + dAB
                     endif
-- 
2.43.0


From 1e5914577731888f33ae362763613bd9de9760e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:53 +0000
Subject: [PATCH 52/69] fix: boundary conditions of a rescaled temperature not
 rescaled by the integrator

---
 source/QuatIntegrator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index aa7560b..c0afb9e 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -1347,7 +1347,9 @@ void QuatIntegrator::initializeCoarseRefineOperators(
                                       d_boundary_cond_db, phase_id,
                                       d_eta_scratch_id, d_quat_scratch_id,
                                       d_conc_scratch_id,
-                                      d_temperature_scratch_id, factor);
+                                      d_temperature_scratch_id,
+                                      d_model_parameters.nghosts_required(),
+                                      factor);
    }
 }
 
-- 
2.43.0


From 0f7eea40e2da382be836869467fa89653a0f1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:06 +0000
Subject: [PATCH 53/69] fix: orientation r.h.s. with symmetry wrong unless
 use_diffs_to_compute_flux is set

---
 source/QuatIntegrator.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index c0afb9e..6efbf5c 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -2708,8 +2708,10 @@ void QuatIntegrator::evaluateQuatRHS(
    assert(d_quat_grad_side_id >= 0);
 
    // tbox::plog<<"QuatIntegrator::evaluateQuatRHS()"<<std::endl;
+   // rotations are needed for gradients computed with symmetry, except for
+   // a scalar orientation
    int quat_symm_rotation_id =
-       d_use_gradq_for_flux ? d_quat_symm_rotation_id : -1;
+       (d_symmetry_aware && d_qlen > 1) ? d_quat_symm_rotation_id : -1;
 
    // compute RHS using the gradient of q at sides (d_quat_grad_side_id)
    // computed with physical BC
@@ -2747,13 +2749,6 @@ void QuatIntegrator::evaluateQuatRHS(
          }
       }
 
-   // correction needed if d_quat_sys_solver
-   // doesn't know about symmetry!
-   if (d_symmetry_aware && !d_use_gradq_for_flux) {
-      // tbox::pout<<"Correct r.h.s. for symmetry..."<<endl;
-      correctRhsForSymmetry(hierarchy, d_quat_scratch_id, quat_rhs_id);
-   }
-
    if (visit_flag && d_model_parameters.with_rhs_visit_output()) {
       for (int ln = 0; ln <= hierarchy->getFinestLevelNumber(); ln++) {
          std::shared_ptr<hier::PatchLevel> level = hierarchy->getPatchLevel(ln);
-- 
2.43.0


From aec628795c4a3d715cb24cb89bf78d483199ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 54/69] fix: give every solid grain a rigid-body force and a
 velocity (forces were sized for order parameters A only; the last Wang grain
 never moved)

---
 source/PhaseRigidBodyForces.cc   | 2 +-
 source/QuatIntegrator.cc         | 2 +-
 source/RigidBodyForces.cc        | 3 ++-
 source/RigidBodyMotionConcRHS.cc | 4 +++-
 source/RigidBodyMotionRHS.cc     | 4 +++-
 source/WangRigidBodyForces.cc    | 2 +-
 6 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/PhaseRigidBodyForces.cc b/source/PhaseRigidBodyForces.cc
index ae748f8..82f37b1 100644
--- a/source/PhaseRigidBodyForces.cc
+++ b/source/PhaseRigidBodyForces.cc
@@ -56,7 +56,7 @@ void PhaseRigidBodyForces::evaluatePairForces(
                  ifirst(2), ilast(2),
 #endif
                  dx, phase->getPointer(), phase->getGhostCellWidth()[0],
-                 phase->getDepth() - 1, d_model_parameters.gamma(),
+                 d_forces.size(), d_model_parameters.gamma(),
                  d_model_parameters.m_moelans2011(), weight->getPointer(),
                  &forces[0]);
 }
diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 6efbf5c..f9e5b1c 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -2516,7 +2516,7 @@ void QuatIntegrator::evaluatePhaseRHS(
 
       assert(d_rigid_body_forces);
       d_rigid_body_forces->evaluatePairForces(hierarchy);
-      for (int i = 0; i < d_model_parameters.norderp() - 1; i++) {
+      for (int i = 0; i < nop; i++) {
          // sum up forces contributions from all other particles
          for (int j = 0; j < nop; j++) {
             if (j != i) {
diff --git a/source/RigidBodyForces.cc b/source/RigidBodyForces.cc
index 9a24814..4ac6fd6 100644
--- a/source/RigidBodyForces.cc
+++ b/source/RigidBodyForces.cc
@@ -24,7 +24,8 @@ RigidBodyForces::RigidBodyForces(const QuatModelParameters& model_parameters,
 {
    // forces between solid particles only, not liquid phase (last order
    // parameter)
-   const int nforces = d_model_parameters.norderpA();
+   const int nforces =
+       d_model_parameters.norderpA() + d_model_parameters.norderpB();
    d_forces.resize(nforces);
    for (auto& f : d_forces)
       f.resize(nforces);
diff --git a/source/RigidBodyMotionConcRHS.cc b/source/RigidBodyMotionConcRHS.cc
index 058c1dc..a1e2e8f 100644
--- a/source/RigidBodyMotionConcRHS.cc
+++ b/source/RigidBodyMotionConcRHS.cc
@@ -82,7 +82,9 @@ void RigidBodyMotionConcRHS::addRHS(
          assert(data->getGhostCellWidth()[0] > 0);
          assert(data_rhs->getDepth() == 1);
 
-         const short nfield = data->getDepth() - 1;
+         // one field per body, the last one may be the liquid phase
+         const short nfield = velocities.size();
+         assert(nfield <= data->getDepth());
 
          // div ( c v ) = div ( sum_i eta_i * v_i )
          for (short i = 0; i < nfield; i++) {
diff --git a/source/RigidBodyMotionRHS.cc b/source/RigidBodyMotionRHS.cc
index 604da1a..951891b 100644
--- a/source/RigidBodyMotionRHS.cc
+++ b/source/RigidBodyMotionRHS.cc
@@ -83,7 +83,9 @@ void RigidBodyMotionRHS::addRHS(
          assert(data->getGhostCellWidth()[0] > 0);
          assert(data->getDepth() == data_rhs->getDepth());
 
-         const short nfield = data->getDepth() - 1;
+         // one field per body, the last one may be the liquid phase
+         const short nfield = velocities.size();
+         assert(nfield <= data->getDepth());
 
          for (short i = 0; i < nfield; i++) {
             const double* const velocity = velocities[i].data();
diff --git a/source/WangRigidBodyForces.cc b/source/WangRigidBodyForces.cc
index 389a091..3fe58ab 100644
--- a/source/WangRigidBodyForces.cc
+++ b/source/WangRigidBodyForces.cc
@@ -23,7 +23,7 @@ WangRigidBodyForces::WangRigidBodyForces(
 {
    tbox::plog << "WangRigidBodyForces..." << std::endl;
 
-   d_norderp = model_parameters.norderpA();
+   d_norderp = model_parameters.norderpA() + model_parameters.norderpB();
 }
 
 void WangRigidBodyForces::evaluatePairForces(std::shared_ptr<hier::Patch> patch,
-- 
2.43.0


From 24801bac820b8cc56c76eeb594bf4977efd2986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 55/69] fix: compute the heat capacity before the thermal
 energy that uses it (initial thermal energy was reported as 0)

---
 source/QuatModel.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index d545241..856012f 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -5375,6 +5375,10 @@ double QuatModel::computeThermalEnergy(
 {
    math::HierarchyCellDataOpsReal<double> cellops(hierarchy);
 
+   // not set yet when called before the first time step
+   assert(d_heat_capacity_strategy);
+   d_heat_capacity_strategy->setCurrentValue(hierarchy);
+
    double lenergy = 0.;
    if (d_model_parameters.with_phase()) {
       lenergy = cellops.integral(d_phase_id, d_weight_id);
-- 
2.43.0


From 100e6ba00b63e59cc7dac4b24d9cdb8cea5995f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:03 +0000
Subject: [PATCH 56/69] fix: elliptic fluxes on refined levels used the grid
 spacing of the coarsest level

---
 source/EllipticFACOps.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/EllipticFACOps.cc b/source/EllipticFACOps.cc
index 03ae99d..fd9f173 100644
--- a/source/EllipticFACOps.cc
+++ b/source/EllipticFACOps.cc
@@ -1247,10 +1247,9 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
 
    const int patch_ln = patch.getPatchLevelNumber();
    const hier::GlobalId id = patch.getGlobalId();
-   std::shared_ptr<geom::CartesianGridGeometry> patch_geom(
-       SAMRAI_SHARED_PTR_CAST<geom::CartesianGridGeometry,
-                              hier::BaseGridGeometry>(
-           d_hierarchy->getGridGeometry()));
+   std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
+       SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
+                              hier::PatchGeometry>(patch.getPatchGeometry()));
    const double *dx = patch_geom->getDx();
    const hier::Box &patch_box(patch.getBox());
    const hier::Index &plower = patch_box.lower();
@@ -1955,10 +1954,9 @@ void EllipticFACOps::computeFluxOnPatch(
    TBOX_ASSERT(w_data.getDepth() > depth);
    TBOX_ASSERT(Dgradw_data.getDepth() > depth);
 
-   std::shared_ptr<geom::CartesianGridGeometry> patch_geom(
-       SAMRAI_SHARED_PTR_CAST<geom::CartesianGridGeometry,
-                              hier::BaseGridGeometry>(
-           d_hierarchy->getGridGeometry()));
+   std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
+       SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
+                              hier::PatchGeometry>(patch.getPatchGeometry()));
    TBOX_ASSERT(patch_geom);
    const hier::Box &box = patch.getBox();
    const int *lower = &box.lower()[0];
-- 
2.43.0


From 11e4de2c329fc7d1a2739a5e12436ca56686ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:03 +0000
Subject: [PATCH 57/69] fix: the orientation-phase block of the preconditioner
 used the square root of the mobility

---
 source/QuatFACOps.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/QuatFACOps.cc b/source/QuatFACOps.cc
index c50cf61..c2c8fc7 100644
--- a/source/QuatFACOps.cc
+++ b/source/QuatFACOps.cc
@@ -1949,10 +1949,16 @@ void QuatFACOps::multiplyDQuatDPhiBlock(const int phase_id, const int out_id)
    computeDQuatDPhiFaceCoefs(d_face_coef_deriv_id, phase_id,
                              d_face_coef_scratch_id);
 
+   // The operator is to be multiplied by the mobility, of which only the square
+   // root is stored
+   divideMobilitySqrt(out_id);
+
    for (int ln = d_ln_max; ln >= d_ln_min; ln--) {
       accumulateOperatorOnLevel(d_sqrt_m_id, d_face_coef_scratch_id,
                                 d_q_local_id, -1, out_id, ln, false, false);
    }
+
+   multiplyMobilitySqrt(out_id);
 }
 
 
-- 
2.43.0


From a1e281571a78c3bcd7d849de311075b70b258f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:07 +0000
Subject: [PATCH 58/69] fix: coarse-fine flux correction used the first
 component's diffusion for every component

---
 source/EllipticFACOps.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/EllipticFACOps.cc b/source/EllipticFACOps.cc
index fd9f173..f34474e 100644
--- a/source/EllipticFACOps.cc
+++ b/source/EllipticFACOps.cc
@@ -1267,11 +1267,11 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
    const double *flux2 = flux_data.getPointer(2, depth);
 #endif
 
-   if (d_poisson_spec[0].dIsVariable()) {
+   if (d_poisson_spec[depth].dIsVariable()) {
 
       std::shared_ptr<pdat::SideData<double> > diffcoef_data(
           SAMRAI_SHARED_PTR_CAST<pdat::SideData<double>, hier::PatchData>(
-              patch.getPatchData(d_poisson_spec[0].getDPatchDataId())));
+              patch.getPatchData(d_poisson_spec[depth].getDPatchDataId())));
 
       for (bn = 0; bn < nboxes; ++bn) {
          const hier::BoundaryBox &boundary_box = bboxes[bn];
@@ -1311,7 +1311,7 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
       }
    } else {
 
-      const double diffcoef_constant = d_poisson_spec[0].getDConstant();
+      const double diffcoef_constant = d_poisson_spec[depth].getDConstant();
 
       for (bn = 0; bn < nboxes; ++bn) {
          const hier::BoundaryBox &boundary_box = bboxes[bn];
-- 
2.43.0


From fd08f4905405310659b01ece0bf90f71f484ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:21 +0000
Subject: [PATCH 59/69] fix: make the finer levels after the initial fields are
 read, not before

---
 source/PFModel.cc   | 8 ++++++++
 source/PFModel.h    | 2 ++
 source/QuatModel.cc | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/source/PFModel.cc b/source/PFModel.cc
index f86eac8..b1ff6b4 100644
--- a/source/PFModel.cc
+++ b/source/PFModel.cc
@@ -421,7 +421,15 @@ void PFModel::setupHierarchy(void)
    tbox::plog << "\nPFModel::setupHierarchy..." << std::endl;
    double init_time = 0.;
    d_gridding_algorithm->makeCoarsestLevel(init_time);
+}
+
+//=======================================================================
+// Add the finer levels, once the coarsest one holds the initial data (which
+// determines what is refined, and is what the finer levels are filled from)
 
+void PFModel::setupFinerLevels(void)
+{
+   double init_time = 0.;
    bool done = false;
    bool initial_time = true;
    for (int ln = 0; d_patch_hierarchy->levelCanBeRefined(ln) && !done; ln++) {
diff --git a/source/PFModel.h b/source/PFModel.h
index ac0f7da..a483b45 100644
--- a/source/PFModel.h
+++ b/source/PFModel.h
@@ -52,6 +52,8 @@ class PFModel : public tbox::Serializable,
 
    virtual void setupHierarchy(void);
 
+   void setupFinerLevels(void);
+
    virtual void Run(void);
 
    // pure virtual functions to be implemented by model
diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 856012f..722f258 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -642,6 +642,8 @@ void QuatModel::Initialize(std::shared_ptr<tbox::MemoryDatabase>& input_db,
          d_tag_buffer_array[ll] = 1;
       }
 
+      setupFinerLevels();
+
       if (d_model_parameters.concentrationModelNeedsPhaseConcentrations())
          setAuxilliaryCompositions();
 
-- 
2.43.0


From cc7b4b36e09682083e05f44371d4b25a07ad1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:21 +0000
Subject: [PATCH 60/69] fix: make the phase right-hand side again when the
 hierarchy changes

---
 source/QuatIntegrator.cc | 75 +++++++++++++++++++++++-----------------
 source/QuatIntegrator.h  |  2 ++
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index f9e5b1c..aa23de3 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -1721,6 +1721,9 @@ void QuatIntegrator::resetIntegrator(
 
    d_sundials_solver->initialize(y);
 
+   if (d_phase_rhs_strategy) createPhaseRHSStrategy(hierarchy);
+   if (d_diffusion4quatderiv) d_diffusion4quatderiv->setup(hierarchy);
+
    // Reset the cumulative counters
    d_cum_newton_iter = 0;
    d_cum_lin_iter = 0;
@@ -1936,40 +1939,12 @@ void QuatIntegrator::initializeSolvers(
 }
 
 //-----------------------------------------------------------------------
+// The strategy refers to the integrator's solver and to the levels of the
+// hierarchy: it has to be made again when either is replaced
 
-// The way things are now (MEW, 08-08-04) the ::resetIntegrator method
-// will have been called from resetHierarchyConfiguration before this
-// is ever called.
-
-void QuatIntegrator::initialize(
+void QuatIntegrator::createPhaseRHSStrategy(
     const std::shared_ptr<hier::PatchHierarchy>& hierarchy)
 {
-   // tbox::pout<<"QuatIntegrator::initialize()"<<endl;
-
-   initializeNonPeriodicBC();
-
-   int finest = hierarchy->getFinestLevelNumber();
-
-   resetIntegrator(hierarchy, 0, finest);
-
-   if (d_evolve_quat) {
-      if (d_precond_has_dquatdphi) {
-         d_diffusion4quatderiv.reset(new DerivDiffusionCoeffForQuat(
-             d_grid_geometry, d_H_parameter, d_quat_grad_floor, d_qlen,
-             d_orient_interp_func_type1, d_avg_func_type,
-             d_quat_smooth_floor_type, d_quat_diffusion_deriv_id));
-         d_diffusion4quatderiv->setup(hierarchy);
-      }
-   }
-
-   if (d_temperature_strategy) d_temperature_strategy->initialize(hierarchy);
-
-   initializeSolvers(hierarchy);
-
-   d_sundials_solver->setInitialConditionVector(
-       (Sundials_SAMRAIVector*)Sundials_SAMRAIVector::createSundialsVector(
-           d_solution_vec));
-
    if (d_model_parameters.with_three_phases())
       d_phase_rhs_strategy.reset(new ThreePhasesRHSStrategy(
           d_model_parameters, d_phase_scratch_id, d_conc_scratch_id,
@@ -2004,6 +1979,44 @@ void QuatIntegrator::initialize(
    }
 
    d_phase_rhs_strategy->setup(hierarchy);
+}
+
+//-----------------------------------------------------------------------
+
+// The way things are now (MEW, 08-08-04) the ::resetIntegrator method
+// will have been called from resetHierarchyConfiguration before this
+// is ever called.
+
+void QuatIntegrator::initialize(
+    const std::shared_ptr<hier::PatchHierarchy>& hierarchy)
+{
+   // tbox::pout<<"QuatIntegrator::initialize()"<<endl;
+
+   initializeNonPeriodicBC();
+
+   int finest = hierarchy->getFinestLevelNumber();
+
+   resetIntegrator(hierarchy, 0, finest);
+
+   if (d_evolve_quat) {
+      if (d_precond_has_dquatdphi) {
+         d_diffusion4quatderiv.reset(new DerivDiffusionCoeffForQuat(
+             d_grid_geometry, d_H_parameter, d_quat_grad_floor, d_qlen,
+             d_orient_interp_func_type1, d_avg_func_type,
+             d_quat_smooth_floor_type, d_quat_diffusion_deriv_id));
+         d_diffusion4quatderiv->setup(hierarchy);
+      }
+   }
+
+   if (d_temperature_strategy) d_temperature_strategy->initialize(hierarchy);
+
+   initializeSolvers(hierarchy);
+
+   d_sundials_solver->setInitialConditionVector(
+       (Sundials_SAMRAIVector*)Sundials_SAMRAIVector::createSundialsVector(
+           d_solution_vec));
+
+   createPhaseRHSStrategy(hierarchy);
 
    if (d_with_unsteady_temperature)
       d_temperature_rhs_strategy.reset(
diff --git a/source/QuatIntegrator.h b/source/QuatIntegrator.h
index bfae898..cf89ce8 100644
--- a/source/QuatIntegrator.h
+++ b/source/QuatIntegrator.h
@@ -574,6 +574,8 @@ class QuatIntegrator : public mesh::StandardTagAndInitStrategy,
                         int phi_dot_id);
 
    void initializeNonPeriodicBC();
+   void createPhaseRHSStrategy(
+       const std::shared_ptr<hier::PatchHierarchy>& hierarchy);
    void initializeSolvers(
        const std::shared_ptr<hier::PatchHierarchy>& hierarchy);
 
-- 
2.43.0


From ba432bea6d2fd547e039c971e49db2422375558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:21 +0000
Subject: [PATCH 61/69] fix: regrid models without a phase field

---
 source/QuatModel.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 722f258..ff90d14 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -2736,10 +2736,11 @@ void QuatModel::Regrid(const std::shared_ptr<hier::PatchHierarchy> hierarchy)
 {
    d_regrid_refine_alg.reset(new xfer::RefineAlgorithm());
 
-   d_regrid_refine_alg->registerRefine(d_phase_id,          // destination
-                                       d_phase_id,          // source
-                                       d_phase_scratch_id,  // temporary
-                                       d_phase_refine_op);
+   if (d_model_parameters.with_phase())
+      d_regrid_refine_alg->registerRefine(d_phase_id,          // destination
+                                          d_phase_id,          // source
+                                          d_phase_scratch_id,  // temporary
+                                          d_phase_refine_op);
 
    d_regrid_refine_alg->registerRefine(d_temperature_id,          // destination
                                        d_temperature_id,          // source
-- 
2.43.0


From fc3628f2b3f9cb93aa5b17fa7b43a8eddb3f8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:21 +0000
Subject: [PATCH 62/69] fix: set the heat capacity on levels made after the
 first step

---
 source/ConstantHeatCapacityStrategy.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/ConstantHeatCapacityStrategy.cc b/source/ConstantHeatCapacityStrategy.cc
index 8bf827b..da9a6a1 100644
--- a/source/ConstantHeatCapacityStrategy.cc
+++ b/source/ConstantHeatCapacityStrategy.cc
@@ -25,12 +25,7 @@ void ConstantHeatCapacityStrategy::setCurrentValue(
 {
    assert(d_cp_id >= 0);
 
-   static bool first_time = true;
-
-   if (first_time) {
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_cp_id, d_cp);
-   }
-
-   first_time = false;
+   // levels made since the last call have no value yet
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_cp_id, d_cp);
 }
-- 
2.43.0


From 7d23d764c84f257e1fa91a67c7832ed7af0977de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:21 +0000
Subject: [PATCH 63/69] fix: set prescribed temperatures on levels made after
 the first step

---
 source/GaussianTemperatureStrategy.cc | 37 +++++++++++++--------------
 source/ScalarTemperatureStrategy.cc   | 13 +++++-----
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/source/GaussianTemperatureStrategy.cc b/source/GaussianTemperatureStrategy.cc
index d3eb95c..7b31a98 100644
--- a/source/GaussianTemperatureStrategy.cc
+++ b/source/GaussianTemperatureStrategy.cc
@@ -129,32 +129,31 @@ void GaussianTemperatureStrategy::setCurrentTemperature(
       }
    }
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   // set even when it does not change with time: the center may move, and the
+   // hierarchy may have levels made since the last call
+   double tgaussian = getCurrentTemperature(time);
 
-      double tgaussian = getCurrentTemperature(time);
+   int maxln = patch_hierarchy->getFinestLevelNumber();
 
-      int maxln = patch_hierarchy->getFinestLevelNumber();
+   for (int ln = 0; ln <= maxln; ln++) {
 
-      for (int ln = 0; ln <= maxln; ln++) {
+      std::shared_ptr<hier::PatchLevel> level =
+          patch_hierarchy->getPatchLevel(ln);
 
-         std::shared_ptr<hier::PatchLevel> level =
-             patch_hierarchy->getPatchLevel(ln);
+      for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
+           p++) {
 
-         for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
-              p++) {
+         std::shared_ptr<hier::Patch> patch = *p;
 
-            std::shared_ptr<hier::Patch> patch = *p;
+         std::shared_ptr<pdat::CellData<double> > t_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                 patch->getPatchData(d_temperature_id)));
+         setCurrentTemperaturePrivatePatch(*patch, t_data, tgaussian);
 
-            std::shared_ptr<pdat::CellData<double> > t_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_temperature_id)));
-            setCurrentTemperaturePrivatePatch(*patch, t_data, tgaussian);
-
-            std::shared_ptr<pdat::CellData<double> > ts_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_temperature_scratch_id)));
-            setCurrentTemperaturePrivatePatch(*patch, ts_data, tgaussian);
-         }
+         std::shared_ptr<pdat::CellData<double> > ts_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                 patch->getPatchData(d_temperature_scratch_id)));
+         setCurrentTemperaturePrivatePatch(*patch, ts_data, tgaussian);
       }
    }
 
diff --git a/source/ScalarTemperatureStrategy.cc b/source/ScalarTemperatureStrategy.cc
index 5d62a94..80aefca 100644
--- a/source/ScalarTemperatureStrategy.cc
+++ b/source/ScalarTemperatureStrategy.cc
@@ -79,12 +79,11 @@ void ScalarTemperatureStrategy::setCurrentTemperature(
    assert(d_temperature_id >= 0);
    assert(d_temperature_scratch_id >= 0);
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   double t = getCurrentTemperature(time);
 
-      double t = getCurrentTemperature(time);
-
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_temperature_id, t);
-      mathops.setToScalar(d_temperature_scratch_id, t, false);
-   }
+   // set even when it does not change with time: the hierarchy may have
+   // levels made since the last call
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_temperature_id, t);
+   mathops.setToScalar(d_temperature_scratch_id, t, false);
 }
-- 
2.43.0


From b5055bdba59b39fac4b6a263573b0f1fefe3a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:11 +0000
Subject: [PATCH 64/69] fix: keep the integrated temperature, not that of the
 last trial state

---
 source/QuatIntegrator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index aa23de3..539af7a 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -2119,7 +2119,10 @@ double QuatIntegrator::Advance(
    // Take one step
    int return_code = d_sundials_solver->solve();
 
-   updateDependentVariables(hierarchy, d_scratch, d_current);
+   // the temperature of a heat equation is part of the solution: scratch holds
+   // the one of some trial state
+   if (!d_with_unsteady_temperature)
+      updateDependentVariables(hierarchy, d_scratch, d_current);
 
    // Check the return code
    if (return_code != 0) {
-- 
2.43.0


From 7da431c9da91dac001326c552caf0751953e9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:15 +0000
Subject: [PATCH 65/69] fix: override the tagging method of the mesh library
 instead of hiding it

---
 source/QuatModel.cc | 2 +-
 source/QuatModel.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index ff90d14..8062846 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -3438,7 +3438,7 @@ void QuatModel::resetHierarchyConfiguration(
 // Method inherited from StandardTagAndInitStrategy
 
 void QuatModel::applyGradientDetector(
-    std::shared_ptr<hier::PatchHierarchy>& hierarchy, int level_number,
+    const std::shared_ptr<hier::PatchHierarchy>& hierarchy, int level_number,
     double time, int tag_index, const bool initial_time,
     const bool uses_richardson_extrapolation_too)
 {
diff --git a/source/QuatModel.h b/source/QuatModel.h
index 1c766fe..e7c3539 100644
--- a/source/QuatModel.h
+++ b/source/QuatModel.h
@@ -271,7 +271,7 @@ class QuatModel : public PFModel
        const int coarsest_level, const int finest_level);
 
    virtual void applyGradientDetector(
-       std::shared_ptr<hier::PatchHierarchy>& hierarchy, int level_number,
+       const std::shared_ptr<hier::PatchHierarchy>& hierarchy, int level_number,
        double time, int tag_index, const bool initial_time,
        const bool uses_richardson_extrapolation_too);
 
-- 
2.43.0


From f95f42fdb6adba238cf4c45fd10da16095e03d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:30 +0000
Subject: [PATCH 66/69] fix: initialise the boundary helper of dphi/dt

---
 source/QuatIntegrator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 539af7a..d909827 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -122,6 +122,7 @@ QuatIntegrator::QuatIntegrator(
       d_show_conc_sys_stats(false),
       d_conc_bc_coefs(nullptr),
       d_dphidt_bc_coefs(nullptr),
+      d_dphidt_bc_helper(nullptr),
       // private data members
       d_name(name),
       d_model_parameters(model_parameters),
-- 
2.43.0


From fc5915c9f558d11c33cdf84f8f6de37b28224125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:39 +0000
Subject: [PATCH 67/69] fix: symmetry-aware transfer of orientations between
 levels required rotation indexes its temporary data does not have

---
 source/QuatLinearRefine.cc    | 19 ++++--------
 source/QuatWeightedAverage.cc | 55 +++++++++--------------------------
 2 files changed, 19 insertions(+), 55 deletions(-)

diff --git a/source/QuatLinearRefine.cc b/source/QuatLinearRefine.cc
index 901537d..ca5c1a9 100644
--- a/source/QuatLinearRefine.cc
+++ b/source/QuatLinearRefine.cc
@@ -124,7 +124,6 @@ void QuatLinearRefine::refine(hier::Patch& fine, const hier::Patch& coarse,
    TBOX_ASSERT(cdata);
    TBOX_ASSERT(fdata);
    TBOX_ASSERT(cdata->getDepth() == fdata->getDepth());
-   TBOX_ASSERT(cdata->getDepth() == 4);
    TBOX_ASSERT_OBJDIM_EQUALITY3(fine, coarse, ratio);
 
    const hier::Box& cgbox = cdata->getGhostBox();
@@ -145,30 +144,22 @@ void QuatLinearRefine::refine(hier::Patch& fine, const hier::Patch& coarse,
    const hier::Index& ifirstf = fine_box.lower();
    const hier::Index& ilastf = fine_box.upper();
 
-   std::shared_ptr<pdat::SideData<int> > rotation_index(
-       SAMRAI_SHARED_PTR_CAST<pdat::SideData<int>, hier::PatchData>(
-           coarse.getPatchData(d_quat_symm_rotation_id)));
-   assert(rotation_index);
-   const hier::Box& rot_gbox = rotation_index->getGhostBox();
-   const hier::Index& r_lower = rot_gbox.lower();
-   const hier::Index& r_upper = rot_gbox.upper();
-
+   // The equivalent orientations are found on the fly: the routines do not
+   // reference the rotation indexes, which the temporary coarse data the
+   // refine schedules interpolate from does not have.
 #if (NDIM == 3)
    QUATLINREFINE3D(ifirstf(0), ifirstf(1), ifirstf(2), ilastf(0), ilastf(1),
                    ilastf(2), cilo(0), cilo(1), cilo(2), cihi(0), cihi(1),
                    cihi(2), filo(0), filo(1), filo(2), fihi(0), fihi(1),
                    fihi(2), &ratio[0], cgeom->getDx(), fgeom->getDx(),
                    cdata->getPointer(), fdata->getPointer(), fdata->getDepth(),
-                   rotation_index->getPointer(0), rotation_index->getPointer(1),
-                   rotation_index->getPointer(2), r_lower[0], r_upper[0],
-                   r_lower[1], r_upper[1], r_lower[2], r_upper[2]);
+                   nullptr, nullptr, nullptr, 0, 0, 0, 0, 0, 0);
 #endif
 #if (NDIM == 2)
    QUATLINREFINE2D(ifirstf(0), ifirstf(1), ilastf(0), ilastf(1), cilo(0),
                    cilo(1), cihi(0), cihi(1), filo(0), filo(1), fihi(0),
                    fihi(1), &ratio[0], cgeom->getDx(), fgeom->getDx(),
                    cdata->getPointer(), fdata->getPointer(), fdata->getDepth(),
-                   rotation_index->getPointer(0), rotation_index->getPointer(1),
-                   r_lower[0], r_upper[0], r_lower[1], r_upper[1]);
+                   nullptr, nullptr, 0, 0, 0, 0);
 #endif
 }
diff --git a/source/QuatWeightedAverage.cc b/source/QuatWeightedAverage.cc
index 2ea54ed..eb982d7 100644
--- a/source/QuatWeightedAverage.cc
+++ b/source/QuatWeightedAverage.cc
@@ -124,48 +124,21 @@ void QuatWeightedAverage::coarsen(hier::Patch& coarse, const hier::Patch& fine,
 
    const int sym_flag = (int)d_symmetry_aware;
 
-   if (d_symmetry_aware) {
-      std::shared_ptr<pdat::SideData<int> > rotation_index(
-          SAMRAI_SHARED_PTR_CAST<pdat::SideData<int>, hier::PatchData>(
-              coarse.getPatchData(d_quat_symm_rotation_id)));
-      assert(rotation_index);
-      const hier::Box& rot_gbox = rotation_index->getGhostBox();
-      const hier::Index r_lower = rot_gbox.lower();
-      const hier::Index r_upper = rot_gbox.upper();
-
-#if (NDIM == 2)
-      QUATCOARSEN(ifirstc(0), ifirstc(1), ilastc(0), ilastc(1), filo(0),
-                  filo(1), fihi(0), fihi(1), cilo(0), cilo(1), cihi(0), cihi(1),
-                  &ratio[0], fgeom->getDx(), cgeom->getDx(),
-                  fdata->getPointer(), cdata->getPointer(), cdata->getDepth(),
-                  sym_flag, rotation_index->getPointer(0),
-                  rotation_index->getPointer(1), r_lower[0], r_upper[0],
-                  r_lower[1], r_upper[1]);
-#else
-      QUATCOARSEN(ifirstc(0), ifirstc(1), ifirstc(2), ilastc(0), ilastc(1),
-                  ilastc(2), filo(0), filo(1), filo(2), fihi(0), fihi(1),
-                  fihi(2), cilo(0), cilo(1), cilo(2), cihi(0), cihi(1), cihi(2),
-                  &ratio[0], fgeom->getDx(), cgeom->getDx(),
-                  fdata->getPointer(), cdata->getPointer(), cdata->getDepth(),
-                  sym_flag, rotation_index->getPointer(0),
-                  rotation_index->getPointer(1), rotation_index->getPointer(2),
-                  r_lower[0], r_upper[0], r_lower[1], r_upper[1], r_lower[2],
-                  r_upper[2]);
-#endif
-   } else {
+   // The equivalent orientations are found on the fly: the routines do not
+   // reference the rotation indexes, which the temporary coarse data the
+   // coarsen schedules write to does not have.
 #if (NDIM == 2)
-      QUATCOARSEN(ifirstc(0), ifirstc(1), ilastc(0), ilastc(1), filo(0),
-                  filo(1), fihi(0), fihi(1), cilo(0), cilo(1), cihi(0), cihi(1),
-                  &ratio[0], fgeom->getDx(), cgeom->getDx(),
-                  fdata->getPointer(), cdata->getPointer(), cdata->getDepth(),
-                  sym_flag, 0, 0, 0, 0, 0, 0);
+   QUATCOARSEN(ifirstc(0), ifirstc(1), ilastc(0), ilastc(1), filo(0),
+               filo(1), fihi(0), fihi(1), cilo(0), cilo(1), cihi(0), cihi(1),
+               &ratio[0], fgeom->getDx(), cgeom->getDx(),
+               fdata->getPointer(), cdata->getPointer(), cdata->getDepth(),
+               sym_flag, 0, 0, 0, 0, 0, 0);
 #else
-      QUATCOARSEN(ifirstc(0), ifirstc(1), ifirstc(2), ilastc(0), ilastc(1),
-                  ilastc(2), filo(0), filo(1), filo(2), fihi(0), fihi(1),
-                  fihi(2), cilo(0), cilo(1), cilo(2), cihi(0), cihi(1), cihi(2),
-                  &ratio[0], fgeom->getDx(), cgeom->getDx(),
-                  fdata->getPointer(), cdata->getPointer(), cdata->getDepth(),
-                  sym_flag, 0, 0, 0, 0, 0, 0, 0, 0, 0);
+   QUATCOARSEN(ifirstc(0), ifirstc(1), ifirstc(2), ilastc(0), ilastc(1),
+               ilastc(2), filo(0), filo(1), filo(2), fihi(0), fihi(1),
+               fihi(2), cilo(0), cilo(1), cilo(2), cihi(0), cihi(1), cihi(2),
+               &ratio[0], fgeom->getDx(), cgeom->getDx(),
+               fdata->getPointer(), cdata->getPointer(), cdata->getDepth(),
+               sym_flag, 0, 0, 0, 0, 0, 0, 0, 0, 0);
 #endif
-   }
 }
-- 
2.43.0


From a75f62c37a8ea61f2e6cd5a7726908bb60f257b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:39 +0000
Subject: [PATCH 68/69] fix: interpolation of symmetric orientations left out
 the last cells of new boxes

---
 source/QuatLinearRefine.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/QuatLinearRefine.cc b/source/QuatLinearRefine.cc
index ca5c1a9..b7946c3 100644
--- a/source/QuatLinearRefine.cc
+++ b/source/QuatLinearRefine.cc
@@ -101,9 +101,7 @@ void QuatLinearRefine::refine(hier::Patch& fine, const hier::Patch& coarse,
    const hier::BoxContainer& boxes = t_overlap->getDestinationBoxContainer();
    for (hier::BoxContainer::const_iterator b = boxes.begin(); b != boxes.end();
         ++b) {
-      hier::Box fine_box(*b);
-      fine_box.growUpper(hier::IntVector(ratio.getDim(), -1));
-      refine(fine, coarse, dst_component, src_component, fine_box, ratio);
+      refine(fine, coarse, dst_component, src_component, *b, ratio);
    }
 }
 
-- 
2.43.0


From 4ba1e927388fb29bac2e77bbd504c9b84b11451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:39 +0000
Subject: [PATCH 69/69] fix: find the rotations between symmetric orientations
 on levels made anew

---
 source/QuatModel.cc | 102 +++++++++++++++++++++++++-------------------
 source/QuatModel.h  |   2 +
 2 files changed, 61 insertions(+), 43 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 8062846..f1c87ef 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -2860,6 +2860,10 @@ void QuatModel::Regrid(const std::shared_ptr<hier::PatchHierarchy> hierarchy)
 #endif
 
    PFModel::Regrid(hierarchy);
+
+   // levels made anew do not have the rotations between their cells yet
+   if (d_model_parameters.with_orientation() && d_symmetry_aware)
+      computeSymmetryRotations(hierarchy, d_time);
 }
 
 //=======================================================================
@@ -3462,6 +3466,9 @@ void QuatModel::applyGradientDetector(
    }
 
    if (d_tag_quat) {
+      // this level may be new, and not have the rotations between its cells
+      if (d_symmetry_aware) computeSymmetryRotations(level);
+
       computeQuatDiffs(level, d_quat_scratch_id, d_quat_diffs_id, time);
 
       computeQuatGradCell(level, d_quat_diffs_id, d_quat_grad_cell_id, time);
@@ -4995,63 +5002,72 @@ void QuatModel::computeSymmetryRotations(
    for (int ln = 0; ln <= maxln; ln++) {
       std::shared_ptr<hier::PatchLevel> level = hierarchy->getPatchLevel(ln);
 
-      for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
-           ++p) {
-         std::shared_ptr<hier::Patch> patch = *p;
+      computeSymmetryRotations(level);
+   }
+}
 
-         const hier::Box& pbox = patch->getBox();
-         const hier::Index& ifirst = pbox.lower();
-         const hier::Index& ilast = pbox.upper();
+//=======================================================================
 
-         std::shared_ptr<pdat::CellData<double> > quat(
-             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                 patch->getPatchData(d_quat_scratch_id)));
-         assert(quat);
-         assert(quat->getGhostCellWidth()[0] > 0);
+// the ghost values of the orientations are expected to be set
+void QuatModel::computeSymmetryRotations(
+    const std::shared_ptr<hier::PatchLevel> level)
+{
+   for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
+        ++p) {
+      std::shared_ptr<hier::Patch> patch = *p;
 
-         std::shared_ptr<pdat::SideData<int> > rotation_index(
-             SAMRAI_SHARED_PTR_CAST<pdat::SideData<int>, hier::PatchData>(
-                 patch->getPatchData(d_quat_symm_rotation_id)));
-         assert(rotation_index);
-         assert(rotation_index->getGhostCellWidth()[0] > 0);
+      const hier::Box& pbox = patch->getBox();
+      const hier::Index& ifirst = pbox.lower();
+      const hier::Index& ilast = pbox.upper();
 
-         QUAT_SYMM_ROTATION(ifirst(0), ilast(0), ifirst(1), ilast(1),
+      std::shared_ptr<pdat::CellData<double> > quat(
+          SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+              patch->getPatchData(d_quat_scratch_id)));
+      assert(quat);
+      assert(quat->getGhostCellWidth()[0] > 0);
+
+      std::shared_ptr<pdat::SideData<int> > rotation_index(
+          SAMRAI_SHARED_PTR_CAST<pdat::SideData<int>, hier::PatchData>(
+              patch->getPatchData(d_quat_symm_rotation_id)));
+      assert(rotation_index);
+      assert(rotation_index->getGhostCellWidth()[0] > 0);
+
+      QUAT_SYMM_ROTATION(ifirst(0), ilast(0), ifirst(1), ilast(1),
 #if (NDIM == 3)
-                            ifirst(2), ilast(2),
+                         ifirst(2), ilast(2),
 #endif
-                            quat->getPointer(), quat->getGhostCellWidth()[0],
-                            d_qlen, rotation_index->getPointer(0),
-                            rotation_index->getPointer(1),
+                         quat->getPointer(), quat->getGhostCellWidth()[0],
+                         d_qlen, rotation_index->getPointer(0),
+                         rotation_index->getPointer(1),
 #if (NDIM == 3)
-                            rotation_index->getPointer(2),
+                         rotation_index->getPointer(2),
 #endif
-                            rotation_index->getGhostCellWidth()[0]);
+                         rotation_index->getGhostCellWidth()[0]);
 
-         if (d_model_parameters.with_extra_visit_output()) {
-            assert(d_quat_symm_rotation_cell_id >= 0);
-            std::shared_ptr<pdat::CellData<int> > cell_rot_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<int>, hier::PatchData>(
-                    patch->getPatchData(d_quat_symm_rotation_cell_id)));
-            assert(cell_rot_data);
+      if (d_model_parameters.with_extra_visit_output()) {
+         assert(d_quat_symm_rotation_cell_id >= 0);
+         std::shared_ptr<pdat::CellData<int> > cell_rot_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<int>, hier::PatchData>(
+                 patch->getPatchData(d_quat_symm_rotation_cell_id)));
+         assert(cell_rot_data);
 
-            pdat::CellIterator iend(pdat::CellGeometry::end(pbox));
-            for (pdat::CellIterator i(pdat::CellGeometry::begin(pbox));
-                 i != iend; ++i) {
-               const pdat::CellIndex ccell = *i;
-               const pdat::SideIndex xside(ccell, pdat::SideIndex::X,
-                                           pdat::SideIndex::Lower);
-               const pdat::SideIndex yside(ccell, pdat::SideIndex::Y,
-                                           pdat::SideIndex::Lower);
+         pdat::CellIterator iend(pdat::CellGeometry::end(pbox));
+         for (pdat::CellIterator i(pdat::CellGeometry::begin(pbox));
+              i != iend; ++i) {
+            const pdat::CellIndex ccell = *i;
+            const pdat::SideIndex xside(ccell, pdat::SideIndex::X,
+                                        pdat::SideIndex::Lower);
+            const pdat::SideIndex yside(ccell, pdat::SideIndex::Y,
+                                        pdat::SideIndex::Lower);
 #if (NDIM == 3)
-               const pdat::SideIndex zside(ccell, pdat::SideIndex::Z,
-                                           pdat::SideIndex::Lower);
+            const pdat::SideIndex zside(ccell, pdat::SideIndex::Z,
+                                        pdat::SideIndex::Lower);
 #endif
-               (*cell_rot_data)(ccell, 0) = (*rotation_index)(xside);
-               (*cell_rot_data)(ccell, 1) = (*rotation_index)(yside);
+            (*cell_rot_data)(ccell, 0) = (*rotation_index)(xside);
+            (*cell_rot_data)(ccell, 1) = (*rotation_index)(yside);
 #if (NDIM == 3)
-               (*cell_rot_data)(ccell, 2) = (*rotation_index)(zside);
+            (*cell_rot_data)(ccell, 2) = (*rotation_index)(zside);
 #endif
-            }
          }
       }
    }
diff --git a/source/QuatModel.h b/source/QuatModel.h
index e7c3539..7b5ef03 100644
--- a/source/QuatModel.h
+++ b/source/QuatModel.h
@@ -152,6 +152,8 @@ class QuatModel : public PFModel
    void computeSymmetryRotations(
        const std::shared_ptr<hier::PatchHierarchy> hierarchy,
        const double time);
+   void computeSymmetryRotations(
+       const std::shared_ptr<hier::PatchLevel> level);
 
    void makeQuatFundamental(
        const std::shared_ptr<hier::PatchHierarchy> hierarchy,
-- 
2.43.0

