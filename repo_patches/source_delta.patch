From e4ae157e456180471679c36a0082c04e8c85169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:07 +0000
Subject: [PATCH 01/23] fix: double-precision constants in the cubic shape
 factors (1/6, 2/3, 1/3 were single precision)

---
 .../field_gathering_o1_2d.F90                 |  4 ++--
 .../field_gathering_o2_2d.F90                 |  4 ++--
 .../field_gathering_o3_2d.F90                 |  6 ++---
 .../field_gathering_on_2d.F90                 |  4 ++--
 .../field_gathering_on_3d.F90                 |  4 ++--
 .../field_gathering_on_circ.F90               |  4 ++--
 .../charge_deposition_2d.F90                  |  4 ++--
 .../esirkepov/esirkepov_2d.F90                | 22 +++++++++----------
 .../esirkepov/esirkepov_3d.F90                |  4 ++--
 9 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index 247fc3d..c599073 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -494,7 +494,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_1_1( np, xp, zp, ex, ey, ez, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -714,7 +714,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4929ffc..7d022d3 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -540,7 +540,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_2_2( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -798,7 +798,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index a51c6ec..61c8ccc 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -334,7 +334,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, oxint, zintsq, ozint, oxintsq, ozintsq
   real(num), DIMENSION(lvect, -1:2)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -915,7 +915,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_3_3( np, xp, zp, bx, by, bz, xmin
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
@@ -1268,7 +1268,7 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
index aba3e79..1c7825a 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
@@ -90,7 +90,7 @@ subroutine pxr_gete2dxz_n_energy_conserving( np, xp, yp, zp, ex, ey, ez, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -383,7 +383,7 @@ subroutine pxr_getb2dxz_n_energy_conserving( np, xp, yp, zp, bx, by, bz, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
index 4f16728..e66a655 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
@@ -723,7 +723,7 @@ subroutine pxr_getb3d_n_energy_conserving(np, xp, yp, zp, bx, by, bz, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -1068,7 +1068,7 @@ subroutine pxr_gete3d_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index a3888c0..ab0519c 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -96,7 +96,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
@@ -384,7 +384,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 6cacf2d..793bebf 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -59,7 +59,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
   real(num) :: dxi, dzi, xint, zint, oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: x, z, r, wq, invvol
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp) :: j, l, ip, jj, ll, ixmin, ixmax, izmin, izmax
 
   dxi = 1./dx
@@ -204,7 +204,7 @@ SUBROUTINE pxr_depose_rhoold_n_2dxz(rhoold, np, xp, zp, ux, uy, uz, gaminv, w, q
   real(num) :: x, z, xold, zold, wq, invvol, vx, vy, vz
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
   real(num) :: sxold(-int(nox/2):int((nox+1)/2)), szold(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp) :: j, l, ip, jj, ll, jold, lold, ixmin, ixmax, izmin, izmax, ndt, idt
   real(num) :: dxp, dzp, x0, z0, x1, z1
 
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 9726aeb..1f9878d 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -108,8 +108,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
   real(num) :: invvol, invdtdx, invdtdz
   real(num) :: oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter :: onesixth=1./6.
-  real(num), parameter :: twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num
+  real(num), parameter :: twothird=2.0_num/3.0_num
   real(num), dimension(:), allocatable :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp) :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz, i, k, ic, kc
   integer(idp) :: ixmin, ixmax, izmin, izmax, icell, ncells, ndtodx, ndtodz
@@ -474,8 +474,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_1_1( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: vx, vy, vz
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -689,8 +689,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: xintsq, zintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -910,7 +910,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -1138,8 +1138,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_svec_3_3(jx, jy, jz, np, xp, zp, uxp, u
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   real(num), dimension(:), allocatable  :: sx, sx0, dsx, sz, sz0, dsz
   integer(isp)                          :: iixp, ikxp, ip, dix, diz, idx, idz, i, k,  &
   ic, kc
@@ -1555,8 +1555,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_vecHV_3_3(jx, jy, jz, np, xp, zp, uxp,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   real(num), dimension(-2:3)            :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz,    &
   idx, idz, i, k, ic, kc
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
index 6a16f67..317b651 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
@@ -3869,7 +3869,7 @@ subroutine warp_depose_jxjyjz_esirkepov_n(jx, jy, jz, np, xp, yp, zp, uxp, uyp,
   tmp, vx, vy, vz, dts2dx, dts2dy, dts2dz, s1x, s2x, s1y, s2y, s1z, s2z, invvol,      &
   invdtdx, invdtdy, invdtdz, oxint, oyint, ozint, xintsq, yintsq, zintsq, oxintsq,    &
   oyintsq, ozintsq, dtsdx0, dtsdy0, dtsdz0, dts2dx0, dts2dy0, dts2dz0
-  real(kind=8), parameter :: onesixth=1./6., twothird=2./3.
+  real(kind=8), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(kind=8), DIMENSION(:), allocatable :: sx, sx0, dsx
   real(kind=8), DIMENSION(:), allocatable :: sy, sy0, dsy
   real(kind=8), DIMENSION(:), allocatable :: sz, sz0, dsz
@@ -4235,7 +4235,7 @@ subroutine picsar_depose_jxjyjz_esirkepov_n(cj, np, xp, yp, zp, uxp, uyp, uzp,
   tmp, vx, vy, vz, dts2dx, dts2dy, dts2dz, s1x, s2x, s1y, s2y, s1z, s2z, invvol,      &
   invdtdx, invdtdy, invdtdz, oxint, oyint, ozint, xintsq, yintsq, zintsq, oxintsq,    &
   oyintsq, ozintsq, dtsdx0, dtsdy0, dtsdz0, dts2dx0, dts2dy0, dts2dz0
-  real(kind=8), parameter :: onesixth=1./6., twothird=2./3.
+  real(kind=8), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(kind=8), DIMENSION(:), allocatable :: sx, sx0, dsx
   real(kind=8), DIMENSION(:), allocatable :: sy, sy0, dsy
   real(kind=8), DIMENSION(:), allocatable :: sz, sz0, dsz
-- 
2.43.0


From 0be3557ae199bc889d4036f98548371e850435d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 02/23] fix: clear the old-position shape factors in the 2D
 order-2 Esirkepov routine (read uninitialised when a particle changes cell)

---
 .../current_deposition/esirkepov/esirkepov_2d.F90               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 1f9878d..97e0fd0 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -720,6 +720,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
 !$acc&                         sdxi, sdxim1, &
 !$acc&                         sdzk(-2:2), sdzkm1(-2:2) )
   DO ip=1, np
+    sx0 = 0.0_num
+    sz0 = 0.0_num
 
     ! --- computes current position in grid units
     x = (xp(ip)-xmin)*dxi
-- 
2.43.0


From d2a6f7e7e97c55be0bfc06ec179dee3e86c97f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:34 +0000
Subject: [PATCH 03/23] fix: double-precision 1/3 in the 2D Esirkepov
 out-of-plane current

---
 .../current_deposition/esirkepov/esirkepov_2d.F90             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 97e0fd0..484e5f4 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -385,7 +385,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
           ! -- Jy (2D Esirkepov scheme)
           jy(ic, kc) = jy(ic, kc) + wq*vy*invvol/ncells* ( (sz0(k)+0.5*dsz(k))*sx0(i) &
-          + (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+          + (0.5*sz0(k)+1.0_num/3.0_num*dsz(k))*dsx(i) )
 
           ! -- Jz
           if(k<izmax) then
@@ -1062,7 +1062,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
         ! -- Jy (2D Esirkepov scheme)
         !$acc atomic update
         jy(ic, kc) = jy(ic, kc) + wq*vy*invvol* ( (sz0(k)+0.5*dsz(k))*sx0(i) +        &
-        (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+        (0.5*sz0(k)+1.0_num/3.0_num*dsz(k))*dsx(i) )
 
         ! --- Jz
         IF(k<izmax) THEN
-- 
2.43.0


From 9f2fa8235c02c20830e7616a975a1c30b6ea91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:40 +0000
Subject: [PATCH 04/23] fix: Davoine radial shape of the 2D Esirkepov routine
 is placed at the cell of the old position

---
 .../current_deposition/esirkepov/esirkepov_2d.F90           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 484e5f4..f348f25 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -240,7 +240,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
       ! --- computes coefficients for node centered quantities
       if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-        sx0(0) = 1. - xint  + 1./(4*iixp0+2)*( -xint + xint**2 )
+        sx0(0) = 1. - xint  + 1.0_num/(4*iixp0+2)*( -xint + xint**2 )
         sx0(1) = 1. - sx0(0)
       else! Standard method, canonical shapes in r
         select case(nox)
@@ -313,8 +313,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
       ! --- computes coefficients for quantities centered between nodes
       if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-        sx(0) = 1. - xint  + 1./(4*iixp+2)*( -xint + xint**2 )
-        sx(1) = 1. - sx(0)
+        sx(0+dix) = 1. - xint  + 1.0_num/(4*iixp+2)*( -xint + xint**2 )
+        sx(1+dix) = 1. - sx(0+dix)
       else! Standard method, canonical shapes in r
         select case(nox)
         case(0)
-- 
2.43.0


From 6b19d2314a7d0611789a6e55ead19ef48b16d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:04 +0000
Subject: [PATCH 05/23] fix: double-precision factor in the Davoine shape of
 the 2D charge deposition

---
 .../charge_deposition/charge_deposition_2d.F90                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 793bebf..8de4218 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -119,7 +119,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
 
     ! --- computes coefficients for node centered quantities
     if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-      sx(0) = 1. - xint  + 1./(4*j+2)*( -xint + xint**2 )
+      sx(0) = 1. - xint  + 1.0_num/(4*j+2)*( -xint + xint**2 )
       sx(1) = 1. - sx(0)
     else! Standard method, canonical shapes in r
       select case(nox)
-- 
2.43.0


From e1f9f9c208ccce4d1c2c841bdcdc5cf1a50d3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:13 +0000
Subject: [PATCH 06/23] fix: 2D order-1 vectorised B gather used the
 lower-order nodes without l_lower_order_in_v

---
 .../energy_conserving/field_gathering_o1_2d.F90            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index c599073..6854425 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -860,13 +860,20 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
         ! Compute Bx on particle
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 1)*bxg(j, 1, l0+1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
 
       ENDDO
     ENDDO
-- 
2.43.0


From 0a37b2b74cb1fad04e9cfb506b3fedc6c3167dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:13 +0000
Subject: [PATCH 07/23] fix: 2D order-2 vectorised B gather missed the -1
 staggered nodes

---
 .../energy_conserving/field_gathering_o2_2d.F90       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 7d022d3..e33c1fe 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -969,6 +969,9 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         sz0(n, 1) = 0.5_num*(0.5_num+zint)**2
 
         ! Compute Bx on particle
+        bx(nn) = bx(nn) + sx(n, -1)*sz0(n, -1)*bxg(j-1, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, -1)*bxg(j, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, -1)*bxg(j+1, 1, l0-1)
         bx(nn) = bx(nn) + sx(n, -1)*sz0(n, 0)*bxg(j-1, 1, l0)
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
@@ -977,16 +980,24 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, -1)*byg(j0-1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, -1)*byg(j0, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, -1)*byg(j0+1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 0)*byg(j0-1, 1, l0)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 1)*byg(j0-1, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, -1)*bzg(j0-1, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, -1)*bzg(j0, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, -1)*bzg(j0+1, 1, l-1)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 0)*bzg(j0-1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 1)*bzg(j0-1, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
       enddo
-- 
2.43.0


From ed17fd5d8f4fb1f721d8a1146e03df05f31c352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:13 +0000
Subject: [PATCH 08/23] fix: 2D order-3 vectorised gathers: partial sums,
 component names, block stride

---
 .../field_gathering_o3_2d.F90                 | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index 61c8ccc..dc10f1a 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -470,7 +470,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
     ! l_lower_order_in_v is false
   ELSE
 
-    DO ip=1, np
+    DO ip=1, np, lvect
 
 #if defined __INTEL_COMPILER
       !!DIR$ IVDEP
@@ -1521,13 +1521,13 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx0(n, -1)*exg(j0-1, 1, l-1) + sx0(n, 0)*exg(j0, 1, l-1) + sx0(n,        &
         1)*exg(j0+1, 1, l-1) + sx0(n, 2)*exg(j0+2, 1, l-1))
         ex(nn) = ex(nn) + a*sz(n, -1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
+        a = (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
         1)*exg(j0+1, 1, l) + sx0(n, 2)*exg(j0+2, 1, l))
         ex(nn) = ex(nn) + a*sz(n, 0)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
         1)*exg(j0+1, 1, l+1) + sx0(n, 2)*exg(j0+2, 1, l+1))
         ex(nn) = ex(nn) + a*sz(n, 1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
         1)*exg(j0+1, 1, l+2) + sx0(n, 2)*exg(j0+2, 1, l+2))
         ex(nn) = ex(nn) + a*sz(n, 2)
 
@@ -1535,29 +1535,29 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx(n, -1)*eyg(j-1, 1, l-1) + sx(n, 0)*eyg(j, 1, l-1) + sx(n, 1)*eyg(j+1, &
         1, l-1) + sx(n, 2)*eyg(j+2, 1, l-1))
         ey(nn) = ey(nn) + a*sz(n, -1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
+        a = (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
         1, l) + sx(n, 2)*eyg(j+2, 1, l))
         ey(nn) = ey(nn) + a*sz(n, 0)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
         1)*eyg(j+1, 1, l+1) + sx(n, 2)*eyg(j+2, 1, l+1))
         ey(nn) = ey(nn) + a*sz(n, 1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
         1)*eyg(j+1, 1, l+2) + sx(n, 2)*eyg(j+2, 1, l+2))
         ey(nn) = ey(nn) + a*sz(n, 2)
 
         ! Compute Ez on particle
         a = (sx(n, -1)*ezg(j-1, 1, l0-1) + sx(n, 0)*ezg(j, 1, l0-1) + sx(n,           &
         1)*ezg(j+1, 1, l0-1) + sx(n, 2)*ezg(j+2, 1, l0-1))
-        ey(nn) = ey(nn) + a*sz0(n, -1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
+        ez(nn) = ez(nn) + a*sz0(n, -1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
         1)*ezg(j+1, 1, l0) + sx(n, 2)*ezg(j+2, 1, l0))
-        ey(nn) = ey(nn) + a*sz0(n, 0)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 0)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
         1)*ezg(j+1, 1, l0+1) + sx(n, 2)*ezg(j+2, 1, l0+1))
-        ey(nn) = ey(nn) + a*sz0(n, 1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
         1)*ezg(j+1, 1, l0+2) + sx(n, 2)*ezg(j+2, 1, l0+2))
-        ey(nn) = ey(nn) + a*sz0(n, 2)
+        ez(nn) = ez(nn) + a*sz0(n, 2)
 
 
         ! Compute Bx on particle
@@ -1591,16 +1591,16 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         ! Compute Bz on particle
         a = (sx0(n, -1)*bzg(j0-1, 1, l-1) + sx0(n, 0)*bzg(j0, 1, l-1) + sx0(n,        &
         1)*bzg(j0+1, 1, l-1) + sx0(n, 2)*bzg(j0+2, 1, l-1))
-        bx(nn) = bx(nn) + a*sz(n, -1)
+        bz(nn) = bz(nn) + a*sz(n, -1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l) + sx0(n, 0)*bzg(j0, 1, l) + sx0(n,            &
         1)*bzg(j0+1, 1, l) + sx0(n, 2)*bzg(j0+2, 1, l))
-        bx(nn) = bx(nn) + a*sz(n, 0)
+        bz(nn) = bz(nn) + a*sz(n, 0)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+1) + sx0(n, 0)*bzg(j0, 1, l+1) + sx0(n,        &
         1)*bzg(j0+1, 1, l+1) + sx0(n, 2)*bzg(j0+2, 1, l+1))
-        bx(nn) = bx(nn) + a*sz(n, 1)
+        bz(nn) = bz(nn) + a*sz(n, 1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+2) + sx0(n, 0)*bzg(j0, 1, l+2) + sx0(n,        &
         1)*bzg(j0+1, 1, l+2) + sx0(n, 2)*bzg(j0+2, 1, l+2))
-        bx(nn) = bx(nn) + a*sz(n, 2)
+        bz(nn) = bz(nn) + a*sz(n, 2)
       enddo
 #if defined _OPENMP && _OPENMP>=201307
       !$OMP END SIMD
-- 
2.43.0


From 004ffcf880006f52deb3efe118ecdc7006a9d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:13 +0000
Subject: [PATCH 09/23] fix: 2D RZ gather interpolated Etheta and Br/Btheta
 with another component's staggering

---
 .../field_gathering_on_2d.F90                 | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
index 1c7825a..27b1587 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
@@ -294,12 +294,18 @@ subroutine pxr_gete2dxz_n_energy_conserving( np, xp, yp, zp, ex, ey, ez, xmin, z
 
       !          write(0, *) 'field gathering needs to be done for fstype=4 in EM-RZ'
       !          stop
+      ! Er is staggered in r, Etheta is not
       do ll = izmin, izmax+1
         do jj = ixmin0, ixmax0
-          ex(ip) = ex(ip) + sz(ll)*sx0(jj)*(exg(j0+jj, 1, l+ll)*costheta-eyg(j0+jj,   &
-          1, l+ll)*sintheta)
-          ey(ip) = ey(ip) + sz(ll)*sx0(jj)*(exg(j0+jj, 1, l+ll)*sintheta+eyg(j0+jj,   &
-          1, l+ll)*costheta)
+          ex(ip) = ex(ip) + sz(ll)*sx0(jj)*exg(j0+jj, 1, l+ll)*costheta
+          ey(ip) = ey(ip) + sz(ll)*sx0(jj)*exg(j0+jj, 1, l+ll)*sintheta
+        end do
+      end do
+
+      do ll = izmin, izmax+1
+        do jj = ixmin, ixmax+1
+          ex(ip) = ex(ip) - sz(ll)*sx(jj)*eyg(j+jj, 1, l+ll)*sintheta
+          ey(ip) = ey(ip) + sz(ll)*sx(jj)*eyg(j+jj, 1, l+ll)*costheta
         end do
       end do
 
@@ -590,12 +596,18 @@ subroutine pxr_getb2dxz_n_energy_conserving( np, xp, yp, zp, bx, by, bz, xmin, z
 
     if (l_2drz) then
 
+      ! Btheta is staggered in r, Br is not
       do ll = izmin0, izmax0
         do jj = ixmin, ixmax+1
-          bx(ip) = bx(ip) + sx(jj)*sz0(ll)*(bxg(j+jj, 1, l0+ll)*costheta-byg(j+jj, 1, &
-          l0+ll)*sintheta)
-          by(ip) = by(ip) + sx(jj)*sz0(ll)*(bxg(j+jj, 1, l0+ll)*sintheta+byg(j+jj, 1, &
-          l0+ll)*costheta)
+          bx(ip) = bx(ip) + sx(jj)*sz0(ll)*bxg(j+jj, 1, l0+ll)*costheta
+          by(ip) = by(ip) + sx(jj)*sz0(ll)*bxg(j+jj, 1, l0+ll)*sintheta
+        end do
+      end do
+
+      do ll = izmin0, izmax0
+        do jj = ixmin0, ixmax0
+          bx(ip) = bx(ip) - sx0(jj)*sz0(ll)*byg(j0+jj, 1, l0+ll)*sintheta
+          by(ip) = by(ip) + sx0(jj)*sz0(ll)*byg(j0+jj, 1, l0+ll)*costheta
         end do
       end do
 
-- 
2.43.0


From 6393dddf7deaf47e6c753c9a46cc1ed4aa751219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:13 +0000
Subject: [PATCH 10/23] fix: RZ multimode gather: staggering of
 Er/Etheta/Br/Btheta/Bz, node indices of modes m>0, phase precision

---
 .../field_gathering_on_circ.F90               | 59 ++++++++++++++-----
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index ab0519c..c0d0537 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -139,7 +139,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
       sintheta=0.
     end if
     x = (r-xmin)*dxi
-    xy0 = cmplx(costheta, -sintheta)
+    xy0 = cmplx(costheta, -sintheta, cpx)
 
     z = (zp(ip)-zmin)*dzi
 
@@ -286,8 +286,15 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
     ! Mode m = 0
     do ll = izmin, izmax+1
       do jj = ixmin0, ixmax0
-        ex(ip) = ex(ip) + sz(ll)*sx0(jj)*real(erg(j0+jj,l+ll,0)*costheta-etg(j0+jj,l+ll,0)*sintheta)
-        ey(ip) = ey(ip) + sz(ll)*sx0(jj)*real(erg(j0+jj,l+ll,0)*sintheta+etg(j0+jj,l+ll,0)*costheta)
+        ex(ip) = ex(ip) + sz(ll)*sx0(jj)*real(erg(j0+jj,l+ll,0))*costheta
+        ey(ip) = ey(ip) + sz(ll)*sx0(jj)*real(erg(j0+jj,l+ll,0))*sintheta
+      end do
+    end do
+
+    do ll = izmin, izmax+1
+      do jj = ixmin, ixmax+1
+        ex(ip) = ex(ip) - sz(ll)*sx(jj)*real(etg(j+jj,l+ll,0))*sintheta
+        ey(ip) = ey(ip) + sz(ll)*sx(jj)*real(etg(j+jj,l+ll,0))*costheta
       end do
     end do
 
@@ -303,16 +310,23 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
       xy = xy*xy0
       do ll = izmin, izmax+1
         do jj = ixmin0, ixmax0
-          exc = real(erg(j+jj,l+ll,m)*xy, num)
+          exc = real(erg(j0+jj,l+ll,m)*xy, num)
+          ex(ip) = ex(ip) + sx0(jj)*sz(ll)*exc*costheta
+          ey(ip) = ey(ip) + sx0(jj)*sz(ll)*exc*sintheta
+        end do
+      end do
+
+      do ll = izmin, izmax+1
+        do jj = ixmin, ixmax+1
           eyc = real(etg(j+jj,l+ll,m)*xy, num)
-          ex(ip) = ex(ip) + sx0(jj)*sz(ll)*(exc*costheta - eyc*sintheta)
-          ey(ip) = ey(ip) + sx0(jj)*sz(ll)*(exc*sintheta + eyc*costheta)
+          ex(ip) = ex(ip) - sx(jj)*sz(ll)*eyc*sintheta
+          ey(ip) = ey(ip) + sx(jj)*sz(ll)*eyc*costheta
         end do
       end do
 
       do ll = izmin0, izmax0
         do jj = ixmin, ixmax+1
-          ezc = real(ezg(j+jj,l+ll,m)*xy, num)
+          ezc = real(ezg(j+jj,l0+ll,m)*xy, num)
           ez(ip) = ez(ip) + sx(jj)*sz0(ll)*ezc
         end do
       end do
@@ -432,7 +446,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
       sintheta=0.
     end if
     x = (r-xmin)*dxi
-    xy0 = cmplx(costheta, -sintheta)
+    xy0 = cmplx(costheta, -sintheta, cpx)
 
     z = (zp(ip)-zmin)*dzi
 
@@ -580,8 +594,15 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
     ! Mode m = 0
     do ll = izmin0, izmax0
       do jj = ixmin, ixmax+1
-        bx(ip) = bx(ip) + sx(jj)*sz0(ll)*real(brg(j+jj,l0+ll,0)*costheta-btg(j+jj,l0+ll,0)*sintheta)
-        by(ip) = by(ip) + sx(jj)*sz0(ll)*real(brg(j+jj,l0+ll,0)*sintheta+btg(j+jj,l0+ll,0)*costheta)
+        bx(ip) = bx(ip) + sx(jj)*sz0(ll)*real(brg(j+jj,l0+ll,0))*costheta
+        by(ip) = by(ip) + sx(jj)*sz0(ll)*real(brg(j+jj,l0+ll,0))*sintheta
+      end do
+    end do
+
+    do ll = izmin0, izmax0
+      do jj = ixmin0, ixmax0
+        bx(ip) = bx(ip) - sx0(jj)*sz0(ll)*real(btg(j0+jj,l0+ll,0))*sintheta
+        by(ip) = by(ip) + sx0(jj)*sz0(ll)*real(btg(j0+jj,l0+ll,0))*costheta
       end do
     end do
 
@@ -597,15 +618,23 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
       xy = xy*xy0
       do ll = izmin0, izmax0
         do jj = ixmin, ixmax+1
-          bxc = real(brg(j+jj,l+ll,m)*xy, num)
-          byc = real(btg(j+jj,l+ll,m)*xy, num)
-          bx(ip) = bx(ip) + sx(jj)*sz0(ll)*(bxc*costheta - byc*sintheta)
-          by(ip) = by(ip) + sx(jj)*sz0(ll)*(bxc*sintheta + byc*costheta)
+          bxc = real(brg(j+jj,l0+ll,m)*xy, num)
+          bx(ip) = bx(ip) + sx(jj)*sz0(ll)*bxc*costheta
+          by(ip) = by(ip) + sx(jj)*sz0(ll)*bxc*sintheta
+        end do
+      end do
+
+      do ll = izmin0, izmax0
+        do jj = ixmin0, ixmax0
+          byc = real(btg(j0+jj,l0+ll,m)*xy, num)
+          bx(ip) = bx(ip) - sx0(jj)*sz0(ll)*byc*sintheta
+          by(ip) = by(ip) + sx0(jj)*sz0(ll)*byc*costheta
         end do
       end do
+
       do ll = izmin, izmax+1
         do jj = ixmin0, ixmax0
-          bzc = real(bzg(j+jj,l+ll,m)*xy, num)
+          bzc = real(bzg(j0+jj,l+ll,m)*xy, num)
           bz(ip) = bz(ip) + sx0(jj)*sz(ll)*bzc
         end do
       end do
-- 
2.43.0


From 8feb4ef7d7f788ec33bc02b1887b61683f6615a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:23 +0000
Subject: [PATCH 11/23] fix: lookup tables: do not read past the end at the
 last coordinate

The interpolation functions of lookup_1d and lookup_2d read one element past
the end of the coordinates and data when asked for the value at the last
coordinate (where the optical depth engines clamp chi to).
---
 src/multi_physics/QED/src/lookup_tables.hpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 63f56d1..5b0e8ff 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -318,6 +318,9 @@ interp_linear_equispaced(_REAL where) const
 
     size_t idx_left = static_cast<size_t>(
         floor((coords.size()-1)*(where-xmin)/xsize));
+    //The last coordinate belongs to the last interval
+    if(idx_left > coords.size()-2)
+        idx_left = coords.size()-2;
     size_t idx_right = idx_left + 1;
 
     _REAL xleft = coords[idx_left];
@@ -336,6 +339,9 @@ picsar::multi_physics::lookup_1d<_REAL>::
 interp_linear(_REAL where) const
 {
     auto iter_right = picsar_upper_bound(coords.begin(), coords.end(),where);
+    //The last coordinate belongs to the last interval
+    if(iter_right == coords.end())
+        --iter_right;
     size_t idx_right = std::distance(coords.begin(), iter_right);
     size_t idx_left = idx_right-1;
 
@@ -539,6 +545,11 @@ interp_linear(_REAL where_x, _REAL where_y) const
         picsar_upper_bound(coords[0].begin(), coords[0].end(),where_x);
     auto it_y_right =
         picsar_upper_bound(coords[1].begin(), coords[1].end(),where_y);
+    //The last coordinate belongs to the last interval
+    if(it_x_right == coords[0].end())
+        --it_x_right;
+    if(it_y_right == coords[1].end())
+        --it_y_right;
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
     size_t idx_y_right = std::distance(coords[1].begin(), it_y_right);
     size_t idx_x_left = idx_x_right - 1;
@@ -585,10 +596,15 @@ interp_linear_equispaced(_REAL where_x, _REAL where_y) const
 
     size_t idx_x_left = static_cast<size_t>(
         floor((coords[0].size()-1)*(where_x-xmin)/xsize));
+    //The last coordinate belongs to the last interval
+    if(idx_x_left > coords[0].size()-2)
+        idx_x_left = coords[0].size()-2;
     size_t idx_x_right = idx_x_left + 1;
 
     size_t idx_y_left = static_cast<size_t>(
         floor((coords[1].size()-1)*(where_y-ymin)/ysize));
+    if(idx_y_left > coords[1].size()-2)
+        idx_y_left = coords[1].size()-2;
     size_t idx_y_right = idx_y_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -628,6 +644,9 @@ interp_linear_first(_REAL where_x, size_t coord_y) const
 
     auto it_x_right =
         picsar_upper_bound(coords[0].begin(), coords[0].end(),where_x);
+    //The last coordinate belongs to the last interval
+    if(it_x_right == coords[0].end())
+        --it_x_right;
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
     size_t idx_x_left = idx_x_right - 1;
 
@@ -672,6 +691,9 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
 
     size_t idx_x_left = static_cast<size_t>(
             floor((sx-1)*(where_x-xmin)/xsize));
+    //Rounding may reach the last coordinate
+    if(idx_x_left > sx-2)
+        idx_x_left = sx-2;
     size_t idx_x_right = idx_x_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
-- 
2.43.0


From ecefd4301d58963931899f4aa466c772a5587120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 12/23] fix: pass the cell size to the Schwinger pair
 generation functions

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 45e5a7a..c82f7fe 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -218,7 +218,7 @@ _REAL dt
 {
     std::pair<bool, _REAL> res{false, zero};
 
-    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
@@ -276,7 +276,7 @@ _REAL dt
 {
     std::pair<size_t, _REAL> res{0, zero};
 
-    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
-- 
2.43.0


From 6c20bf75b0306fe0a49f6f16c5fa1b33783c5cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 13/23] fix: scale the critical field with lambda in the
 Schwinger rate (normalized units)

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index c82f7fe..f4fdd39 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -364,8 +364,11 @@ _REAL _lambda
     vec3<_REAL> ee{ex,ey,ez};
     vec3<_REAL> bb{bx,by,bz};
 
-    const _REAL c_ff = static_cast<_REAL>(one/(two*__schwinger*__schwinger));
-    const _REAL c_gg = static_cast<_REAL>(__c/__schwinger/__schwinger);
+    //In normalized units the critical field is proportional to lambda
+    const _REAL c_ff = static_cast<_REAL>(one/(two*__schwinger*__schwinger))/
+        (_lambda*_lambda);
+    const _REAL c_gg = static_cast<_REAL>(__c/__schwinger/__schwinger)/
+        (_lambda*_lambda);
 
     _REAL ff = (norm2(ee) - static_cast<_REAL>(__c*__c)*norm2(bb))*c_ff;
     _REAL gg = dot(ee, bb)*c_gg;
-- 
2.43.0


From 1d69b41e3ca386615b2c14512dd2b2eaa989df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 14/23] fix: logarithmically spaced vectors cannot start at
 zero

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 795632c..1fd0a77 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -70,7 +70,7 @@ picsar::multi_physics::generate_log_spaced_vec
 {
     //Return empty vector upon error
     if( min >= max ||
-        min < static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
+        min <= static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
         size < 2)
         return std::vector<_REAL>(0);
 
-- 
2.43.0


From bb959c7d04241fadfe8d7c470ab36ed4aead1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 15/23] fix: log_lin_log spaced vectors of sizes which are not
 multiples of 3

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 1fd0a77..a2eab7f 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -115,7 +115,7 @@ picsar::multi_physics::generate_log_lin_log_spaced_vec
     std::vector<_REAL> vec(size);
     size_t size_first = size/3;
     size_t size_second = size/3;
-    size_t size_third = size/3;
+    size_t size_third = size - size_first - size_second;
 
     _REAL first_val = max*static_cast<_REAL>(1.0/10.0);
     _REAL second_val = max*static_cast<_REAL>(9.0/10.0);
-- 
2.43.0


From 34f44929bd98cae072d456fc13f69a5f7b820e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:05 +0000
Subject: [PATCH 16/23] fix: picsar_vector::back() returns the last element

---
 src/multi_physics/QED/src/picsar_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 025982c..7075d47 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -347,7 +347,7 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 T&
 picsar::multi_physics::picsar_vector<T>::back()
 {
-    return v_data[0];
+    return v_data[v_size-1];
 }
 
 template <typename T>
-- 
2.43.0


From 2144e119140ec3a8f803d39ad70fde41f9cf5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:05 +0000
Subject: [PATCH 17/23] fix: picsar_vector assignment: release the old memory,
 keep the data on self assignment

---
 src/multi_physics/QED/src/picsar_vector.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 7075d47..d68e592 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -213,6 +213,12 @@ template <typename T>
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (const picsar_vector& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
 
     v_data = new T[other.v_size];
@@ -231,6 +237,12 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (picsar_vector&& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
     v_data = other.v_data;
     should_manage_memory = other.should_manage_memory;
-- 
2.43.0


From 2ad79dad5a96b49708028b0a64c3d9927f739155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 18/23] fix: Schwinger rate in single precision: the
 coefficient overflows

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index f4fdd39..97e562b 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -387,10 +387,11 @@ _REAL _lambda
     else
         res = epsi*epsi*exp(-pi/epsi)/pi;
 
-    _REAL schwinger_coeff =
-        static_cast<_REAL>(__schwinger_coeff)*_lambda*_lambda*_lambda*_lambda;
+    //The coefficient does not fit in single precision
+    const double schwinger_coeff =
+        __schwinger_coeff*_lambda*_lambda*_lambda*_lambda;
 
-    return schwinger_coeff*res;
+    return static_cast<_REAL>(schwinger_coeff*res);
 }
 
 #endif //__PICSAR_MULTIPHYSICS_SCHWINGER_PAIR_ENGINE__
-- 
2.43.0


From e28d044739f9b119db8db16c94328cc9e30b27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 19/23] fix: linear interpolation at a node of a 2D table whose
 neighbour holds -inf gave NaN

---
 src/multi_physics/QED/src/lookup_tables.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 5b0e8ff..2af0020 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -702,6 +702,13 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
     _REAL zlc = data[row_major(idx_x_left,coord_y,sx,sy)];
     _REAL zrc = data[row_major(idx_x_right,coord_y,sx,sy)];
 
+    //At a node the result is the data (tables of logarithms may hold -inf,
+    //and 0*inf is not a number)
+    if(where_x == xleft)
+        return zlc;
+    if(where_x == xright)
+        return zrc;
+
     _REAL wlc = (xright - where_x);
     _REAL wrc = (where_x - xleft);
 
-- 
2.43.0


From 22bb63d57f79028b54cfc65518e87e6576b22993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 20/23] fix: a lookup table read from a missing or truncated
 file claimed to be initialised

---
 src/multi_physics/QED/src/lookup_tables.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 2af0020..10a9611 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -362,21 +362,22 @@ void
 picsar::multi_physics::lookup_1d<_REAL>::
 read_from_stream_bin(std::ifstream& in)
 {
-    size_t size_coords;
+    size_t size_coords = 0;
     in.read (
         reinterpret_cast<char*>(&size_coords), sizeof(size_coords));
     coords.resize(size_coords);
     in.read (
         reinterpret_cast<char*>(coords.data()), sizeof(_REAL)*size_coords);
 
-    size_t size_data;
+    size_t size_data = 0;
     in.read (
         reinterpret_cast<char*>(&size_data), sizeof(size_data));
     data.resize(size_data);
     in.read (
         reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
 
-        init_flag = true;
+        //A missing or truncated file leaves the table uninitialised
+        init_flag = !in.fail();
 }
 
 
@@ -725,28 +726,29 @@ void
 picsar::multi_physics::lookup_2d<_REAL>::
 read_from_stream_bin(std::ifstream& in)
 {
-    size_t size_coords_0;
+    size_t size_coords_0 = 0;
     in.read (
         reinterpret_cast<char*>(&size_coords_0), sizeof(size_coords_0));
     coords[0].resize(size_coords_0);
     in.read (
         reinterpret_cast<char*>(coords[0].data()), sizeof(_REAL)*size_coords_0);
 
-    size_t size_coords_1;
+    size_t size_coords_1 = 0;
     in.read (
         reinterpret_cast<char*>(&size_coords_1), sizeof(size_coords_1));
     coords[1].resize(size_coords_1);
     in.read (
         reinterpret_cast<char*>(coords[1].data()), sizeof(_REAL)*size_coords_1);
 
-    size_t size_data;
+    size_t size_data = 0;
     in.read (
         reinterpret_cast<char*>(&size_data), sizeof(size_data));
     data.resize(size_data);
     in.read (
         reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
 
-        init_flag = true;
+        //A missing or truncated file leaves the table uninitialised
+        init_flag = !in.fail();
 }
 
 //Write table to stream
-- 
2.43.0


From fb26be32345a6e5ce4160370af58adb410ea6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 21/23] fix: the Breit-Wheeler engine class does not compile in
 single precision

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 35b0873..0184a0b 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -938,7 +938,8 @@ compute_inner_integral(_REAL x) const
     auto func = [=](_REAL s){
         if (s >= static_cast<_REAL>(__breit_wheeler_special_func_big_arg))
             return zero;
-        return sqrt(s)*k_v(one/three, two*pow(s, three/two)/three);
+        return static_cast<_REAL>(
+            sqrt(s)*k_v(one/three, two*pow(s, three/two)/three));
     };
     return quad_a_inf<_REAL>(func, x);
 }
-- 
2.43.0


From cadb8b1178c39bb02e0c0404d5370995956fc051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 22/23] fix: std::cyl_bessel_k throws for large arguments: the
 Breit-Wheeler rate of tiny parameters threw

---
 src/multi_physics/QED/src/special_functions.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/special_functions.hpp b/src/multi_physics/QED/src/special_functions.hpp
index eec1124..010cf4b 100644
--- a/src/multi_physics/QED/src/special_functions.hpp
+++ b/src/multi_physics/QED/src/special_functions.hpp
@@ -54,7 +54,11 @@ namespace picsar{
 template<typename _REAL_ARG1, typename _REAL_ARG2>
 auto picsar::multi_physics::k_v(_REAL_ARG1 v, _REAL_ARG2 x)
 {
-    return std::cyl_bessel_k(v, x);
+    using _RESULT = decltype(std::cyl_bessel_k(v, x));
+    //The function has vanished long before; libstdc++ throws if x is too large
+    if(x > 10000)
+        return static_cast<_RESULT>(0);
+    return static_cast<_RESULT>(std::cyl_bessel_k(v, x));
 }
 
 #elif defined(PXRMP_SPECFUNC_WITH_BOOST)
-- 
2.43.0


From fb59662af4c80d9b69f356691aaa18ae36b70fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 23/23] fix: RZ multimode field push under OpenMP: imperfect
 nests collapsed, mode index private and undefined

---
 src/field_solvers/Maxwell/yee_solver/yee.F90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/field_solvers/Maxwell/yee_solver/yee.F90 b/src/field_solvers/Maxwell/yee_solver/yee.F90
index 0b724ab..72d1162 100644
--- a/src/field_solvers/Maxwell/yee_solver/yee.F90
+++ b/src/field_solvers/Maxwell/yee_solver/yee.F90
@@ -502,7 +502,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Er
 #ifndef WARPX
-  !$OMP PARALLEL DEFAULT(NONE) PRIVATE(m, k, j, ru, rd, r), &
+  !$OMP PARALLEL DEFAULT(NONE) PRIVATE(k, j, ru, rd, r), SHARED(m), &
   !$OMP SHARED(rlo, rhi, tlo, thi, zlo, zhi, mudt, dtsdx, dtsdz, rmin, dr), &
   !$OMP SHARED(Er, Et, Ez, Br, Bt, Bz, Jr, Jt, Jz, i, dt)
   !$OMP DO COLLAPSE(2)
@@ -525,7 +525,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Etheta
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Et,Bz,Br,Jt)
 !$acc loop gang vector collapse(2)
@@ -571,7 +571,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Ez
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Ez,Br,Bt,Jz)
 !$acc loop gang vector collapse(2)
@@ -1158,7 +1158,7 @@ subroutine pxrpush_emrz_bvec_multimode( &
 
      ! advance Br
 #ifndef WARPX
-  !$OMP PARALLEL DEFAULT(NONE) PRIVATE(m, k, j, ru, rd, r), &
+  !$OMP PARALLEL DEFAULT(NONE) PRIVATE(k, j, ru, rd, r), SHARED(m), &
   !$OMP SHARED(rlo, rhi, tlo, thi, zlo, zhi, dtsdz, dtsdx, rmin, dr), &
   !$OMP SHARED(Er, Et, Ez, Br, Bt, Bz, i, dt)
   !$OMP DO COLLAPSE(2)
-- 
2.43.0

