From d1250999a1b08e9279de1f3fe9ba26fdf3de6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 01/35] fix: cone inner moment q50 uses r1**3*r2 (dimension of
 the fifth degree term)

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3103f95..5b4a5c1 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -210,7 +210,7 @@ def cone(LMax, rho, h, r1, r2):
     # q5 += 15*(5*r1**2*r2**4 + 6*r1*r2**5 + 7*r2**6)
     # qlm[5, L] = fac*h**2*q5*np.sqrt(11)/2688
     q5 = h**4 - 4*h**2*(3*r1**2 + r1*r2 + 3*r2**2)
-    q5 += 5*(3*r1**4 + 2*r1**2*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
+    q5 += 5*(3*r1**4 + 2*r1**3*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
     qlm[5, L] = fac*q5*h**2*(r1**2 - r2**2)*np.sqrt(11)/896
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
-- 
2.43.0


From 770f1235324e003cff4f17d653d2b6754feb7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 02/35] fix: cylhole q22 and q44 have the dimension and value
 of degree 2 and 4 moments

---
 newt/qlmACH.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 5b4a5c1..3b71c16 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -665,13 +665,13 @@ def cylhole(LMax, rho, r, R):
     Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
     qlm[0, L] = fac*r*Fc2
     qlm[2, L] = -fac*r*np.sqrt(5)/6*((r**2-2*R**2)*Fc2 + r**2*Fc3)
-    qlm[2, L+2] = fac*r*np.sqrt(15/2)*Fc2
+    qlm[2, L+2] = fac*r**3*np.sqrt(15/2)*(Fc3 - Fc2)/6
     q40 = (9*r**5-40*r**3*R**2+24*r*R**4)*Fc2 + (13*r**5-32*r**3*R**2)*Fc3
     q40 += 16*r**5*Fc4
     qlm[4, L] = fac/40*q40
     q42 = (6*r**2-20*R**2)*Fc2 + 2*(r**2+10*R**2)*Fc3 - 13*r**2*Fc4
     qlm[4, L+2] = fac*r**3*q42/(8*np.sqrt(10))
-    qlm[4, L+4] = 3*fac*r*np.sqrt(35/2)*Fc2/2
+    qlm[4, L+4] = 3*fac*r**5*np.sqrt(35/2)*(Fc2 - 3*Fc3 + 2*Fc4)/40
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
     ms = np.arange(-L, L+1)
-- 
2.43.0


From a2f501eb47f69c319bd298b6835047c1c63af824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 03/35] fix: annulus outer moment Q20 is proportional to the
 height

---
 newt/bigQlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..ac197a3 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -105,8 +105,8 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Qlmb[1, L] = sH*dens*np.sqrt(3/np.pi)*phih*Q10
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
-    Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Q20 = H*(1/d1 - 1/d0)
+    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q20
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From 7ace1ed0391512dc7f443f5ffe87cdbf4fd23b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 04/35] fix: outer moments of an annulus turn with exp(+i m
 phic)

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index ac197a3..6728ada 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From 91a590765897045dea6cb952d7fea70b2d4920fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 05/35] fix: moments of a point cloud with a point at the
 origin

The angles are computed for the points away from the origin only, so they must
not be indexed a second time, nor combined with arrays over all points.
---
 newt/pg2Multi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 76019c7..9008a84 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -34,7 +34,7 @@ def qmoment(l, m, massArray):
     if l == 0:
         qlm = massArray[:, 0]/np.sqrt(4*np.pi)
     else:
-        qlm = massArray[:, 0]*r**l*np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = massArray[rids, 0]*r[rids]**l*np.conj(sp.sph_harm(m, l, phi, theta))
     qlm = np.sum(qlm)
     return qlm
 
@@ -99,7 +99,7 @@ def imoment(l, m, lmbd, massArray):
     if l == 0:
         ilm = massArray[:, 0]*il/np.sqrt(4*np.pi)
     else:
-        ilm = massArray[:, 0]*il*np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = massArray[rids, 0]*il[rids]*np.conj(sp.sph_harm(m, l, phi, theta))
     ilm = np.sum(ilm)
     return ilm
 
@@ -135,7 +135,7 @@ def qmoments(l, massArray):
     for n in range(1, l+1):
         rl = r**n
         for m in range(n+1):
-            qlm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
             qlm *= massArray[rids, 0]*rl[rids]
             qlms[n, l+m] = np.sum(qlm)
 
@@ -224,7 +224,7 @@ def imoments(l, lmbd, massArray):
     for n in range(1, l+1):
         il = sp.spherical_in(l, r/lmbd)
         for m in range(n+1):
-            ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
             ilms[n, l+m] = np.sum(ilm)
 
-- 
2.43.0


From 5648444c256bfdd28085933729d0b4311a52ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 06/35] fix: Yukawa moments of degree n use the degree-n radial
 function

imoments evaluated the modified spherical Bessel function of the highest degree
for every row, unlike imoment.
---
 newt/pg2Multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 9008a84..6bc31cf 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -222,7 +222,7 @@ def imoments(l, lmbd, massArray):
     ilms[0, l] = np.sum(ilm)
 
     for n in range(1, l+1):
-        il = sp.spherical_in(l, r/lmbd)
+        il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
             ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
-- 
2.43.0


From bd6d977e2f1db1b9303f02c12230403369092797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 07/35] fix: translationRecurs.translate_q2Q returned the inner
 moments as outer moments for a zero displacement

---
 newt/translationRecurs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 0153d9b..1b13437 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -381,8 +381,7 @@ def translate_q2Q(qlm, rvec):
     lmax = len(qlm) - 1
     r = np.sqrt(rvec[0]**2 + rvec[1]**2 + rvec[2]**2)
     if r == 0:
-        Qlmp = np.copy(qlm)
-        return Qlmp
+        raise ValueError('Inner moments have no outer moments at their origin')
     srms = transl_newt_z_SR(lmax, r)
     if r == rvec[2]:
         phi, theta = 0, 0
-- 
2.43.0


From e0b4a5c1a89833fb8595402ea33849890a398752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:46 +0000
Subject: [PATCH 08/35] fix: torque of an inner source moved along +z to the
 outside

torque(trans_type='inner-outer') with rvec on the positive z axis dropped the
inner-to-outer flag when applying the translation, so its result differed from
the one an infinitesimally tilted rvec gives.
---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index ab82681..bacbf8c 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -279,7 +279,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 q2Q = True
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
-            qnew = trr.apply_trans_mat_right(qnew, sms)
+            qnew = trr.apply_trans_mat_right(qnew, sms, q2Q)
             qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
         else:
             phi = np.arctan2(rvec[1], rvec[0])
-- 
2.43.0


From 74262e618d3b336d79891442c3489c0ae27f481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 09/35] fix: cone2 inner moment q20 uses the fourth order
 radial integral

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3b71c16..77b631c 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -260,7 +260,7 @@ def cone2(LMax, rho, h, r1, r2):
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
     q20 = 2*h**2*(r1**2 + 3*r1*r2 + 6*r2**2)
-    q20 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + r1*r2**3 + r2**4)
+    q20 -= 3*(r1**4 + r1**3*r2 + r1**2*r2**2 + r1*r2**3 + r2**4)
     qlm[2, L] = fac*h*q20/(24*np.sqrt(5))
     q3 = 2*h**2*(r1**2 + 4*r1*r2 + 10*r2**2)
     q3 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + 4*r1*r2**3 + 5*r2**4)
-- 
2.43.0


From c7cc0e231331fa72513dbadabe7c3430c355952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 10/35] fix: sign of the last terms of the trapezoid inner
 moment q44

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 77b631c..f3abb31 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -439,7 +439,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     qlm[4, L+2] = q42
     q44 = 24*delw**3*w**2*h**2 + 3*delw**4*w**4
     q44 -= delw*(256*h**4 - 480*h**2*w**2)
-    q44 -= delw**2*w**2*(192*h**2-40*w**2) + 16*(48*h**4-40*h**2*w**2+3*w**4)
+    q44 -= delw**2*w**2*(192*h**2-40*w**2) - 16*(48*h**4-40*h**2*w**2+3*w**4)
     q44 *= q00*np.sqrt(7/10)/2048
     qlm[4, L+4] = q44
     q51 = 3*delw**5*w**4 - 42*delw**4*w**4
-- 
2.43.0


From d5ab320e8426c65bb28413e359c7371dacaad2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 11/35] fix: radial integral of the annulus outer moment Q53

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 6728ada..fdef32b 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From 5439e9026b95c9f0f70bb05f2960bd480b178c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:00 +0000
Subject: [PATCH 12/35] fix: translate_qlm and translate_Qlmb return a copy for
 a zero displacement

---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From 586306d206fd17575af91cf2863499e8926fb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 13/35] fix: rotation matrices for a degree limit of zero

---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index e5ead66..7ffd77a 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -30,7 +30,7 @@ def rotate_H_recurs(p, beta, Hn_prev=None):
     https://arxiv.org/pdf/1403.7698v1.pdf
     """
     if p == 0:
-        return 1.0
+        return [np.ones([1, 1])]
     else:
         H = []
 
-- 
2.43.0


From 6639b0c2932481133b2a5b74329b032c92bb479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:19 +0000
Subject: [PATCH 14/35] fix: glibShapes.sphere grid covers the whole sphere,
 not half its radius

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..dc2740d 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -76,7 +76,7 @@ def sphere(mass, R, N):
     """
     pointArray = np.zeros([N**3, 4])
     pointArray[:, 0] = mass/N**3
-    grid = R/N
+    grid = 2*R/N
 
     ctr = 0
     for k in range(N):
-- 
2.43.0


From de54072b8ad10017ae987a1c6be9a245a39b0e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:19 +0000
Subject: [PATCH 15/35] fix: glibShapes.rectangle centers its y grid with ny

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index dc2740d..bb77493 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -134,7 +134,7 @@ def rectangle(mass, x, y, z, nx, ny, nz):
         for l in range(ny):
             for m in range(nx):
                 pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
-                pointArray[k*ny*nx+l*nx+m, 2] = (l-(nx-1)/2)*ygrid
+                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                 pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
 
     return pointArray
-- 
2.43.0


From 60d0d0b809915e88618b73af0388b406a94eee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:19 +0000
Subject: [PATCH 16/35] fix: glibShapes.tri_prism and tetrahedron center their
 y grid when y1 < 0

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index bb77493..31f2eb6 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -524,7 +524,7 @@ def tri_prism(mass, d, y1, y2, t, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = t/nz
     xgrid = d/nx
     ygrid = base/ny
@@ -584,7 +584,7 @@ def tetrahedron(mass, x, y1, y2, z, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = z/nz
     xgrid = x/nx
     ygrid = base/ny
-- 
2.43.0


From 0ed6d02b50d856e9db66e47adff1a7920fd8c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 17/35] fix: glibShapes.platehole grid and radius for tilted
 holes

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 31f2eb6..05a0d72 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -835,7 +835,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     s = np.tan(theta)
-    x = 2*(r + t*s/2)
+    x = r/np.cos(theta) + t*np.abs(s)/2
     zgrid = t/nz
     xgrid = 2*x/nx
     ygrid = 2*r/ny
@@ -854,7 +854,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
                 y = (l-(ny-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 xz = z*s
-                if (y**2 + (x-xz)**2) <= r**2:
+                if (y**2 + ((x-xz)*np.cos(theta))**2) <= r**2:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From 3c7ef413829b9981b8c9b7289cd957dd214e5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 18/35] fix: gShapeGL annulus, cone and wedge use dz nodes over
 thickness t

---
 newt/gShapeGL.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f50f68a..b58a793 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -129,13 +129,13 @@ def annulus(mass, iR, oR, t, dd, dz):
     pointArray = np.zeros([dz*dd**2, 4])
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*oR
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*oR
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
@@ -174,7 +174,7 @@ def cone(mass, R, H, dd, dz):
     tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -230,13 +230,13 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
     ctr = 0
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 x = sx[m]*dx + xa
                 y = sy[l]*ymax
-                z = sz[k]*t
+                z = sz[k]*t/2
                 w = wx[m]*wy[l]*wz[k]
                 r = np.sqrt(x**2 + y**2)
                 q = np.arctan2(y, x)
-- 
2.43.0


From 436fffe891facfa143e335e500aa396c8d727716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 19/35] fix: gShapeGL.cone is one cone of height H with its
 apex at z=H

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index b58a793..6bc7b43 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -180,12 +180,12 @@ def cone(mass, R, H, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*R
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*R
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H
+                pointArray[k*dd*dd+l*dd+m, 3] = (sz[k]+1)*H/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
                            pointArray[k, 1]**2+pointArray[k, 2]**2 <=
-                           (pointArray[k, 3]/tanTheta)**2])
+                           ((H-pointArray[k, 3])/tanTheta)**2])
 
     # Correct the masses of the points
     pointArray[:, 0] *= mass/np.sum(pointArray[:, 0])
-- 
2.43.0


From 9bb338df8cc4f9b15ad60b6239264ebf3c080d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 20/35] fix: gShapeGL.tri_prism covers the whole base

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 6bc7b43..cc61c28 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -294,7 +294,7 @@ def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
         for l in range(dy):
             for m in range(dx):
                 pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*d/2 + d/2
-                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base/2 + yave
+                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base + yave
                 pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*t/2
                 pointArray[k*dy*dx+l*dx+m, 0] = wx[m]*wy[l]*wz[k]
 
-- 
2.43.0


From b582217878e1cea4334cdd5e9144bb841d994ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:06 +0000
Subject: [PATCH 21/35] fix: read_mpc reaches the end of files without 'end'
 after an unknown shape

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..6143fbd 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -341,7 +341,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = trs.translate_qlm(qlmWrk, pos)
             else:
                 print(shape, ' does not have a known set of moments')
-                for n in range(nlines-k):
+                for n in range(nlines-k-1):
                     line2 = lines[1+k+1]
                     if ('create' not in line2) and ('end' not in line2):
                         k += 1
-- 
2.43.0


From 5dbc9632d754d917b5157dff7d96056a00410b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:43 +0000
Subject: [PATCH 22/35] fix: read_mpc loads parts whose name contains a command
 word

---
 newt/read_multiFor.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 6143fbd..5058c9f 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -144,7 +144,16 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
         line = lines[1+k]
         # Get rid of stuff after a comment
         line = line.split('%')[0]
-        if 'create' in line:
+        if 'load' in line:
+            fname = line.split('load ')[1]
+            fname = fname.strip()
+            print(fname)
+            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
+            if np.shape(qlmLoad) != np.shape(qlmWrk):
+                raise TypeError('Loaded part '+fname+' has wrong LMax')
+            qlmWrk = qlmLoad
+            shape = fname
+        elif 'create' in line:
             print(line)
             shape = line.split('create')[1].split()[0]
             if shape == 'cylinder':
@@ -369,15 +378,6 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             fac = 25.4e-3
         elif 'nsteps' in line:
             nsteps = line.split()[-1]
-        elif 'load' in line:
-            fname = line.split('load ')[1]
-            fname = fname.strip()
-            print(fname)
-            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
-            if np.shape(qlmLoad) != np.shape(qlmWrk):
-                raise TypeError('Loaded part '+fname+' has wrong LMax')
-            qlmWrk = qlmLoad
-            shape = fname
         elif 'zeroqlm' in line:
             qlmTot *= 0
         elif 'gettotal' in line:
-- 
2.43.0


From 34f60729fdaeabcb3574d2cb8a8572b43992e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 23/35] fix: keep the outer moments of Sphere and OuterCone
 shapes

The computed moments were discarded, and an outer Sphere was left at the
origin whatever its center.
---
 newt/shapes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..9b6bdab 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -198,7 +198,10 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, center[0], center[1],
+                                   center[2])
+            self.com = np.array(center, dtype=float)
+            self.mesh = gcad.translate_mesh(self.mesh, tuple(center))
 
 
 class NGon(Shape):
@@ -255,7 +258,7 @@ class OuterCone(Shape):
             print('Inner cone shape should come from Cone.')
         else:
             dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From ddf6a6f7ac324ccbf1cdfce4e29a1be682c711cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 24/35] fix: densities of outer Annulus and OuterCone shapes

The density times the volume of the solid is its mass.
---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 9b6bdab..59b8b92 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -138,7 +138,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
@@ -257,7 +257,7 @@ class OuterCone(Shape):
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
+            dens = mass/(phih*H*(OR-IR)*(OR+2*IR)/3)
             self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
-- 
2.43.0


From 60642c37cf2040cfddb27d4678f9782094ca0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 25/35] fix: scale Cylhole and Platehole moments to the stated
 mass

q00 is M/sqrt(4 pi), so the moments came out 4 pi times too large.
---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 59b8b92..52d23b4 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -272,7 +272,7 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer cylindrical hole shape not defined.')
 
@@ -288,6 +288,6 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 80156ca9b164d85853d6842894bbf03880e42a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 26/35] fix: rotate meshes in the order of the moments

rotate_qlm and Shape.rotate turn by gamma first and alpha last.
---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index d35bb2a..566ac58 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -570,9 +570,9 @@ def rotate_mesh(mesh, alpha, beta, gamma):
     result: CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
+    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
     result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
-    result = result.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
+    result = result.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
     result.pmass = pmass
     return result
 
-- 
2.43.0


From 7f5fedf3d6772bfd923bc2f8c4731916e9bb67ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 27/35] fix: leave a Shape alone when its translation is
 refused

The mesh and centre of mass were moved before the error was raised.
---
 newt/shapes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 52d23b4..49f711f 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -67,17 +67,17 @@ class Shape:
         self.com = rotcom[1:4]
 
     def translate(self, tvec, to_inner):
-        self.com += tvec
-        self.mesh = gcad.translate_mesh(self.mesh, tvec)
+        if to_inner and not self.inner:
+            raise ValueError('Outer to inner translations not allowed.')
         if self.inner and to_inner:
             self.qlm = trs.translate_qlm(self.qlm, tvec)
         elif self.inner and not to_inner:
-            self.inner = False
             self.qlm = trs.translate_q2Q(self.qlm, tvec)
-        elif not self.inner and not to_inner:
-            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
+            self.inner = False
         else:
-            raise ValueError('Outer to inner translations not allowed.')
+            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
+        self.com = self.com + tvec
+        self.mesh = gcad.translate_mesh(self.mesh, tvec)
 
     def add(self, shapes):
         """
-- 
2.43.0


From 856b85f907cbf8d3291f13d84a667e34d063abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 28/35] fix: save_stl of a single mesh

A Workplane is iterable too, so every single mesh was taken for a list.
---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 566ac58..7f64b6c 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -602,7 +602,7 @@ def save_stl(mesh, name):
     -------
     None. Outputs file
     """
-    if hasattr(mesh, '__iter__'):
+    if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
         cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
 
-- 
2.43.0


From 94a152365ada9924073b6112356094f10d1a0dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:22 +0000
Subject: [PATCH 29/35] fix: start off-center Shapes at their centre of mass

The centre of mass was the origin whatever the solid.
---
 newt/shapes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 49f711f..02f7d2c 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -135,6 +135,8 @@ class Annulus(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        rc = 2*(Ro**2 + Ro*Ri + Ri**2)/(3*(Ro + Ri))*np.sin(phih)/phih
+        self.com = np.array([rc*np.cos(phic), rc*np.sin(phic), 0])
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -165,6 +167,7 @@ class TriPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.com = np.array([2*d/3, (y1 + y2)/3, 0])
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -179,6 +182,8 @@ class Cone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        rc = R/2*np.sin(phih)/phih
+        self.com = np.array([rc*np.cos(phic), rc*np.sin(phic), P/4])
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -226,6 +231,7 @@ class Tetrahedron(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.com = np.array([x/2, (y1 + y2)/4, z/4])
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -240,6 +246,7 @@ class Pyramid(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.com = np.array([0, 0, z/4])
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -253,7 +260,9 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
+        rc = (OR**2 + 2*OR*IR + 3*IR**2)/(2*(OR + 2*IR))*np.sin(phih)/phih
+        self.com = np.array([rc, 0, H*(OR + 3*IR)/(4*(OR + 2*IR))])
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-- 
2.43.0


From cc0e21416c245514ed6d28983de9d971dd2e5150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:22 +0000
Subject: [PATCH 30/35] fix: turn the Platehole mesh to its moments

The moments have the hole along z and the plate tilted; the mesh had the
plate flat and the hole tilted.
---
 newt/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 02f7d2c..cf16b67 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -293,7 +293,8 @@ class Platehole(Shape):
     def __init__(self, N, lmax, inner, mass, t, r, theta):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.platehole(mass > 0, t, r, theta)
+        self.mesh = gcad.rotate_mesh(gcad.platehole(mass > 0, t, r, theta),
+                                     0, -theta, 0)
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-- 
2.43.0


From e75d7db07c54afdd4f992f8854880e02099dc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:22 +0000
Subject: [PATCH 31/35] fix: size and azimuth of the N-gon mesh

polygon takes the diameter of the circumscribed circle, and phic was ignored.
---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 7f64b6c..f856c5c 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -312,9 +312,9 @@ def ngon_prism(pmass, H, a, phic, N):
     """
     ang = 2*np.pi/N
     R = a/np.sqrt(2*(1-np.cos(ang)))
-    result = cq.Workplane("XY").polygon(N, R).extrude(H/2, both=True)
+    result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
-    result = rotate_mesh(result, ang/2, 0, 0)
+    result = rotate_mesh(result, phic + ang/2, 0, 0)
     return result
 
 
-- 
2.43.0


From c9a9481201679ea77498de582f5fbdbc11e3ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:22 +0000
Subject: [PATCH 32/35] fix: cylhole mesh

Heights and radii of the cylinders were exchanged; the hole is along z and
the drilled cylinder along x, as for steinmetz.
---
 newt/genCAD.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index f856c5c..4e2701f 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -457,9 +457,9 @@ def cylhole(pmass, r, R):
     -------
     result : CadQuery object
     """
-    mr = cylinder(0, r, 2*R)
-    mR = cylinder(0, R, 2*r)
-    mR = mR.rotate((0,0,0), (1,0,0), 90)
+    mr = cylinder(0, 2*R, r)
+    mR = cylinder(0, 2*r, R)
+    mR = mR.rotate((0,0,0), (0,1,0), 90)
     result = mr.intersect(mR)
     result.pmass = pmass
     return result
-- 
2.43.0


From a4f74cee0dbc1d555ec33c1495fbf441027420c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:22 +0000
Subject: [PATCH 33/35] fix: platehole mesh cut short

The plate and the cylinder were too small for the tilted hole.
---
 newt/genCAD.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 4e2701f..ae0496a 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -492,8 +492,9 @@ def platehole(pmass, t, r, theta):
     qlm : ndarray
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
-    rect = rect_prism(pmass, t, 2*r+2*t*np.sin(theta), 2*r + 2*t*np.sin(theta), 0)
-    cyl = cylinder(0, 2*t, r)
+    tan = np.abs(np.tan(theta))
+    rect = rect_prism(pmass, t, 2*r/np.cos(theta)+2*t*tan, 4*r, 0)
+    cyl = cylinder(0, 2*t/np.cos(theta) + 4*r*tan, r)
     cyl = rotate_mesh(cyl, 0, theta, 0)
     result = rect.intersect(cyl)
     result.pmass = pmass
-- 
2.43.0


From 2dc8628e4b2f1ba31297c6fc3da94200ebb76e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:43 +0000
Subject: [PATCH 34/35] fix: centre the outercone mesh on the x-axis

---
 newt/genCAD.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index ae0496a..44450d4 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -530,6 +530,7 @@ def outercone(pmass, H, IR, OR, phih):
             .close().revolve(2*phih*180/np.pi,(0,0,0),(0,1,0))
         )
     result.pmass = pmass
+    result = rotate_mesh(result, -phih, 0, 0)
     return result
 
 
-- 
2.43.0


From 31ac8688ec8da580f77520a474caacefe275dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:16 +0000
Subject: [PATCH 35/35] fix: base of the pyramid mesh

The base has its vertices at (+-x, +-y), as documented and as for the moments.
---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 44450d4..71d3af2 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -422,7 +422,7 @@ def pyramid(pmass, x, y, z):
     -------
     result : CadQuery object
     """
-    vertices = [[x/2,y/2,0], [x/2,-y/2,0], [-x/2,-y/2,0], [-x/2,y/2,0], [0,0,z]]
+    vertices = [[x,y,0], [x,-y,0], [-x,-y,0], [-x,y,0], [0,0,z]]
     faces_ixs = [[0,1,2,3,0], [0,1,4,0], [1,2,4,1], [2,3,4,2], [3,0,4,3]]
 
     faces = []
-- 
2.43.0

