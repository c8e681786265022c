From 37e2ba20f24f3bd4d9d27af1f910a5a4044e01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 01/46] fix: bed.update keeps the bookkeeping of deposits
 larger than a bed layer

---
 aeolis/bed.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..4f04f62 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -264,6 +264,10 @@ def update(s, p):
     ix_ero = dm[:,0] < 0.
     ix_dep = dm[:,0] > 0.
     
+    # total exchanged mass determines the bed level change, also if part of
+    # the deposits is accommodated by prevent_negative_mass
+    dm_tot = dm[:,0].copy()
+
     # reshape mass matrix
     m = s['mass'].reshape((-1,nl,nf))
 
@@ -310,7 +314,7 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
+        dz = dm_tot.reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -437,15 +441,16 @@ def prevent_negative_mass(m, dm, pickup):
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
             # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            pickup[ix,:] += m[ix,i,:]
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
-        ix = (dm[:,:1] > mx).flatten()
+        ix = (n >= nl).flatten()
         if np.any(ix):
             pickup[ix,:] = 0.
 
         # recompute sediment exchange mass
+        ix = (n > 0).flatten()
         dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
 
     return m, dm, pickup
-- 
2.43.0


From 075b6c5cc645a87e9306aa2db2a30090476ecff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 02/46] fix: equilibrium recomputes the reference concentration
 Cu0 from scratch each step

---
 aeolis/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..fc9e196 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -312,6 +312,7 @@ def equilibrium(s, p):
         
         s['Cu']  = np.zeros(uth.shape)
         s['Cuf'] = np.zeros(uth.shape)
+        s['Cu0'] = np.zeros(uth.shape)
     
                 
         ix = (ustar != 0.)*(u != 0.)
-- 
2.43.0


From 96a2aa205e79bb6c59362f440f57aa18b1575797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 03/46] fix: bagnold_gs transport works on two-dimensional
 grids

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index fc9e196..f92843a 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -325,7 +325,7 @@ def equilibrium(s, p):
             
         elif p['method_transport'].lower() == 'bagnold_gs':
             Dref = 0.000250
-            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1)
+            d = np.broadcast_to(p['grain_size'], uth.shape)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-- 
2.43.0


From 4db74c253acb42d080deda4797805e1bc52b0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 04/46] fix: an unknown moisture formulation is reported as
 ValueError instead of KeyError

---
 aeolis/threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index db8f688..f0da27f 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -229,7 +229,7 @@ def compute_moisture(s, p):
         d = np.sum(p['grain_size'] * p['grain_dist'])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
-        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
+        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
 
     # should be .04 according to Pye and Tsoar
     # should be .64 according to Delgado-Fernandez (10% vol.)
-- 
2.43.0


From 6d3fcaf74878542502db34d24ed008ea3026edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 05/46] fix: flat-bed shear velocity components hold the
 components, not the magnitude

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..962a2c9 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -136,8 +136,8 @@ def interpolate(s, p, t):
     s = velocity_stress(s,p)
         
     s['ustar0'] = s['ustar'].copy()
-    s['ustars0'] = s['ustar'].copy()
-    s['ustarn0'] = s['ustar'].copy()
+    s['ustars0'] = s['ustars'].copy()
+    s['ustarn0'] = s['ustarn'].copy()
         
     s['tau0'] = s['tau'].copy()
     s['taus0'] = s['taus'].copy()
-- 
2.43.0


From 1e5a2fb636e96c555ab80081ea3ff6eca408a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 06/46] fix: 1D flow separation lowers the shear stress
 magnitude along with its components

---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 962a2c9..2771f6c 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -248,6 +248,7 @@ def shear(s,p):
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
+            s['tau'] = np.hypot(s['taus'], s['taun'])
             s = stress_velocity(s, p)
 
     # if p['process_nelayer']:
-- 
2.43.0


From 90339c7de69893d564e7571cbbb9d2b3969c9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 07/46] fix: lateral coupling to the next row uses the
 coefficients of the row it belongs to

---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..cd7032a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -911,14 +911,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1282,14 +1282,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1616,12 +1616,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2025,12 +2025,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From 809ffb032d1761ec3c0a9bf5969270d117a4a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 08/46] fix: steady state solver starts with any number of
 grain fractions

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index cd7032a..0f690b5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -738,7 +738,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] != None:
+            if p['grain_dist'] is not None:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From 6e9a4d92baba89b027c47be29465a77bb2895a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 09/46] fix: removal of negative concentrations does not divide
 by zero

---
 aeolis/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0f690b5..21f7356 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -983,7 +983,10 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -1755,7 +1758,10 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2172,7 +2178,10 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 4d54482d87bf1125089a0f44118ca43f9c48d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 10/46] fix: circular lateral boundary of the steady state
 flux-form solver is closed on both sides

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 21f7356..1947dec 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1662,6 +1662,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From a816cfd053f571b532a8bae8769ea24a906f7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 11/46] fix: runup of a wave field is defined at a surf
 similarity of exactly 0.3

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..cc07c1e 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -641,7 +641,7 @@ def calc_runup_stockdon(Ho, Tp, beta):
         sigma_s[i_iri] = 0.046 * np.sqrt(Ho[i_iri] * Lo[i_iri]) /2
         eta[i_iri] = R[i_iri] - sigma_s[i_iri]
 
-        i_iri = (Ho > 0) * (iribarren > 0.3)
+        i_iri = (Ho > 0) * (iribarren >= 0.3)
         nsigma = 2  # nsigma=1 for R16% and nsigma=2 for R2%
         eta[i_iri] = 0.35 * beta * np.sqrt(Ho[i_iri] * Lo[i_iri])
         sigma_s[i_iri] = np.sqrt(Ho[i_iri] * Lo[i_iri] * (0.563 * (beta * beta) + 0.0004)) * nsigma / 2 / 2
-- 
2.43.0


From 3ce7fe12cbe65d56e7bc4f6f1cf7f08d79eb7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 12/46] fix: seaward groundwater boundary uses the cell next to
 the shoreline of its own transect

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index cc07c1e..68448be 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -423,7 +423,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From 83060687ba0dc83548a6c2428dde6d2dcffd97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 13/46] fix: an unknown landward groundwater boundary is
 reported as ValueError

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 68448be..58ee11a 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -276,7 +276,7 @@ def update(s, p, dt,t):
                 bound = 1
                 
             else:
-                 logger.log_and_raise('Unknown landward groundwater boundary condition' % p['boundary_gw'], exc=ValueError)
+                 logger.log_and_raise('Unknown landward groundwater boundary condition [%s]' % p['boundary_gw'], exc=ValueError)
 
         
             #Runge-Kutta timestepping
-- 
2.43.0


From b8218b7408a697b6f6df509281b5402af4955e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 14/46] fix: cell sizes of a two-dimensional grid are not
 swapped between the axes

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From ad0934d4449432e3d583a6d03a91c330be1544f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 15/46] fix: orientation of a grid whose first axis points into
 the second quadrant

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 185245a..91a9b55 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -188,7 +188,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     else:
         p['alpha'] = np.rad2deg(np.arctan(dy/dx))
 
-    if dx <= 0 and dy <= 0:
+    if dx < 0 or (dx == 0 and dy <= 0):
         p['alpha'] += 180.
         
     # Rotate grids to allign with horizontal
-- 
2.43.0


From ff8d62316b94e2787c00e8a2de70598101da784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 16/46] fix: time step limited by bed level change considers
 erosion and stays positive

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1947dec..6d0e9f3 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -628,9 +628,9 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, 1.)
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev > 0.:
             
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
+            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
-- 
2.43.0


From 7290bf14fce4f62c5ed54506de6cc3699ce480dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 17/46] fix: time proceeds and the grid is rotated back when no
 time step is computed

---
 aeolis/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 6d0e9f3..7b81c73 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -291,6 +291,13 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            # no wind with an explicit scheme: proceed with the arbitrary time step
+            # (time is already updated in case the time step is skipped)
+            if self.dt > 0.:
+                self.t += self.dt * self.p['accfac']
+                self._count('time')
+            # rotate gridparams back to original grid orientation
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From ecfa6f0808bb676fbe48f25dfb04ffe6061e3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 18/46] fix: model runner can be updated before a variable is
 requested

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 7b81c73..2e8b0eb 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2418,6 +2418,7 @@ class AeoLiSRunner(AeoLiS):
         self.o = {} # output stats
 
         self.changed = False
+        self.clear = False
         self.cwd = None
 
         self.set_configfile(configfile)
-- 
2.43.0


From b0a156ec7e1cb1f5f23d2c9a9f40cecf89937872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 19/46] fix: names with underscores are found by the model
 runner and in the output variables

---
 aeolis/model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2e8b0eb..a777f6c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2644,10 +2644,10 @@ class AeoLiSRunner(AeoLiS):
 
         self.clear = clear
 
-        if '_' in var:
-            var, stat = var.split('_')
-            if var in self.o:
-                return self.get_statistic(var, stat)
+        if '_' in var and var not in self.s:
+            var0, stat = var.rsplit('_', 1)
+            if var0 in self.o:
+                return self.get_statistic(var0, stat)
 
         # TODO: delete in future releases
         if '.' in var:
@@ -2721,8 +2721,10 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
+            if var in self.s:
+                var0, ext = var, None
+            elif '_' in var:
+                var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
                 warnings.warn('The use of "%s" is deprecated, use '
-- 
2.43.0


From e7c0730538b7a830e2333179263812d2c789a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 20/46] fix: immutable model state variables are not
 overwritten by the transport solver

---
 aeolis/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index a777f6c..c271824 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -109,6 +109,13 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def update(self, *args, **kwargs) -> None:
+        """updates multiple model variables, ignoring immutable ones"""
+
+        for k, v in dict(*args, **kwargs).items():
+            self[k] = v
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
-- 
2.43.0


From b0ca3b0679bc8d9bde4f39c86b497f5ba43288f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 21/46] fix: restart files can be written and read back

---
 aeolis/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c271824..7f8ccad 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -93,9 +93,15 @@ class ModelState(dict):
     model state variable are ignored.
     """
 
+    def __new__(cls, *args, **kwargs):
+        """Create dictionary for model states, also when unpickled"""
+        state = super(ModelState, cls).__new__(cls)
+        state.ismutable = set()
+        return state
+
+
     def __init__(self, *args, **kwargs) -> None:
         """Initialize dictionary for model states"""
-        self.ismutable = set()
         super(ModelState, self).__init__(*args, **kwargs)
 
 
@@ -2876,7 +2882,7 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
@@ -2897,7 +2903,7 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
                          'p':self.p,
                          's':self.s,
-- 
2.43.0


From 7d4d7adf0b0823ea9af247b747718e31d0817d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 22/46] fix: numbers in exponent notation are cast to floats

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index cfbdcc8..f52437b 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -279,7 +279,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return val == 'T'
     elif re.match('^-?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val):
+    elif re.match('^-?[\d\.]+$', val) or re.match('^-?(\d+\.?\d*|\.\d+)[eE][-+]?\d+$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From ec5c2e26fa48b207bd509881f99c8876c1e4b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 23/46] fix: list values separated by more than one blank are
 read correctly

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index f52437b..a511e2a 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -274,7 +274,7 @@ def parse_value(val, parse_files=True, force_list=False):
     val = val.strip()
     
     if ' ' in val or force_list:
-        return np.asarray([parse_value(x) for x in val.split(' ')])
+        return np.asarray([parse_value(x, parse_files=parse_files) for x in val.split()])
     elif re.match('^[TF]$', val):
         return val == 'T'
     elif re.match('^-?\d+$', val):
-- 
2.43.0


From fe717ffc15055919d2be251968a325c717d03393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 24/46] fix: model configuration can be written to file without
 loss of precision

---
 aeolis/inout.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index a511e2a..41a4f1d 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -152,7 +152,7 @@ def write_configfile(configfile, p=None):
     if p is None:
         p = DEFAULT_CONFIG.copy()
 
-    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.iterkeys()])
+    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.keys()])
         
     with open(configfile, 'w') as fp:
 
@@ -162,14 +162,25 @@ def write_configfile(configfile, p=None):
         fp.write('%s\n' % ('%' * 70))
         fp.write('\n')
         
-        for k, v in sorted(p.iteritems()):
+        for k, v in sorted(p.items()):
             if k.endswith('_file') and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
                 np.savetxt(fname, v)
                 fp.write(fmt % (k, fname))
             else:
-                fp.write(fmt % (k, print_value(v, fill='')))
+                fp.write(fmt % (k, format_value(v)))
+
+
+def format_value(val):
+    '''Returns string that is read as the same value by :func:`parse_value`'''
+
+    if isiterable(val):
+        return ' '.join([format_value(x) for x in val])
+    elif isinstance(val, float):
+        return repr(float(val))
+    else:
+        return print_value(val, fill='')
 
 
 def check_configuration(p):
-- 
2.43.0


From 2ee6b79c65ca8b077dff7117336f081aed6987e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 25/46] fix: default output variables are existing model state
 variables

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..d74ae45 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
-- 
2.43.0


From 112c39f1291f953280682714566cd0944edba4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 26/46] fix: model runner starts from the default settings and
 leaves them unchanged

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 7f8ccad..e90a5f0 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2441,13 +2441,13 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG
+            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
                                ny         = 0,
                                xgrid_file = np.arange(0.,100.,1.),
-                               bed_file   = np.linspace(-5.,5.,100.),
+                               bed_file   = np.linspace(-5.,5.,100),
                                wind_file  = np.asarray([[0.,10.,0.],
                                                         [3601.,10.,0.]])))
         else:
-- 
2.43.0


From ad5b8ab2a27ed4399a4d4497e3874c1aaff5805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 27/46] fix: an empty list of external variables in the
 configuration file is accepted

---
 aeolis/inout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 41a4f1d..9ac92f5 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -102,6 +102,9 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         p['grain_dist'] = makeiterable(p['grain_dist'])
         p['grain_size'] = makeiterable(p['grain_size'])
 
+    if 'external_vars' in p:
+        p['external_vars'] = makeiterable(p['external_vars'])
+
     # set default output file, if not given
     if 'output_file' in p and not p['output_file']:
         p['output_file'] = '%s.nc' % os.path.splitext(configfile)[0]
-- 
2.43.0


From aa171894dd994908c241fd38878bbeda6cab967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 28/46] fix: progress is printed for a model resumed from a
 restart file

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index e90a5f0..ba16264 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2425,6 +2425,7 @@ class AeoLiSRunner(AeoLiS):
         self.tout = 0.
         self.tlog = 0.
         self.plog = -1.
+        self.dt_array = []
         self.trestart = 0.
 
         self.n = 0 # time step counter
-- 
2.43.0


From 4fee95e44a76cfc7578b4cf316fc58b45a465219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 29/46] fix: vegetation that died does not grow back without
 germination

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..011e5eb 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -136,6 +136,7 @@ def grow (s, p): #DURAN 2006
     ix = np.logical_or(s['germinate'] != 0., s['lateral'] != 0.) * ( p['V_ver'] > 0.)
                                                     
     # Reduction of vegetation growth due to sediment burial
+    s['dhveg'][:,:] = 0. # no growth in plots that are not (or no longer) vegetated
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
 
     # Adding growth
-- 
2.43.0


From b2e9205eee4d643dd59f66aa68b4c6c590455a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 30/46] fix: vegetation density grows over the actual time step
 and not by the number of vegetated neighbours

---
 aeolis/vegetation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 011e5eb..82b14de 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -151,11 +151,12 @@ def grow (s, p): #DURAN 2006
         ix2 = s['rhoveg'] > rhoveg_max
         s['rhoveg'][ix2] = rhoveg_max
         ixzero = s['rhoveg'] <= 0
+        s['drhoveg'] = np.zeros(s['rhoveg'].shape)
         if p['V_ver'] > 0:
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
             s['drhoveg'][ix] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From c516f95247e089eb9b59b5680ae0d925c5d1b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 31/46] fix: words of digits and dots that are no number do not
 break reading the configuration

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 9ac92f5..c28a95a 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -293,7 +293,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return val == 'T'
     elif re.match('^-?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val) or re.match('^-?(\d+\.?\d*|\.\d+)[eE][-+]?\d+$', val):
+    elif re.match('^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From 970f6c8b4a70cc4fc317ad9d10ef688f6b9fb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 32/46] fix: words starting with None are read as words

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index c28a95a..b47dd84 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -295,7 +295,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return int(val)
     elif re.match('^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', val):
         return float(val)
-    elif re.match('None', val):
+    elif re.match('^None$', val):
         return None
     elif os.path.isfile(val) and parse_files:
         for dtype in [float, complex]:
-- 
2.43.0


From 78f474f20e4faaf58a31da43ef3ab5ad2c3f91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 33/46] fix: flux through the onshore boundary of the flux-form
 solvers has the sign of the velocity

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index ba16264..016c9b6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1724,7 +1724,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux']
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
@@ -2143,7 +2143,7 @@ class AeoLiS(IBmi):
                 # onshore boundary (i=nx)
 
                 if p['boundary_onshore'] == 'flux':
-                    yCt_i[:,-1]  += s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
+                    yCt_i[:,-1]  -= s['dn'][:,-1]  * ufs[:,-1] * s['Cu0'][:,-1,i] * p['onshore_flux'] 
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air (for now = 0)
-- 
2.43.0


From 13190dab6010df2f6cabc565e1bc222ca2dd0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 34/46] fix: the onshore noflux boundary depends on the onshore
 boundary setting

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 016c9b6..1024385 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1262,7 +1262,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
-- 
2.43.0


From 21f7f80d9a52ca8cf471c480d6242e7979a0e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 35/46] fix: statistics of the total flux are those of the
 current time step

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1024385..e93c533 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2791,6 +2791,9 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        # the total flux follows from its components
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         for k, exts in self.p['_output_vars'].items():
             v = self.get_var(k, clear=False).copy()
             if 'min' in exts:
@@ -2802,9 +2805,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From e2ccb044ac6ac5030f2039368369a6ad825c8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 36/46] fix: shear perturbation does not depend on the mean bed
 level and uses the wave numbers of the transform

---
 aeolis/shear.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..f82e353 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -544,10 +544,16 @@ class WindShear:
             return
                                 
         ny, nx = gc['z'].shape
-        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
-                             2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
+        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx, gc['dx']),
+                             2. * np.pi * np.fft.fftfreq(ny, gc['dy']))
+
+        # The mean bed level and variations across the wind only do not
+        # perturb the shear, prevent division by zero for those components
+        uniform = kx == 0.
+        kx[uniform] = 2. * np.pi / (nx * gc['dx'])
         
         hs = np.fft.fft2(gc['z'])
+        hs[uniform] = 0.
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
         
         z0 = self.z0            # roughness length which takes into account saltation
@@ -668,8 +674,9 @@ class WindShear:
         if nfilter is not None:
             n1 = np.min(nfilter)
             n2 = np.max(nfilter)
-            px = 2 * np.pi / self.cgrid['dx'] / np.abs(kx)
-            py = 2 * np.pi / self.cgrid['dy'] / np.abs(ky)
+            with np.errstate(divide='ignore'): # infinite wave length
+                px = 2 * np.pi / self.cgrid['dx'] / np.abs(kx)
+                py = 2 * np.pi / self.cgrid['dy'] / np.abs(ky)
             s1 =  n1 / np.log(1. / .01 - 1.)
             s2 = -n2 / np.log(1. / .99 - 1.)
             f1 = 1. / (1. + np.exp(-(px + n1 - n2) / s1))
-- 
2.43.0


From 7adbe1256325fbc2f55a721c2b9caaec0ff039e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 37/46] fix: separation bubbles start from the bed also below
 zero and on non-square grids

---
 aeolis/shear.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index f82e353..7571a41 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -379,8 +379,7 @@ class WindShear:
         y = gc['y']
         z = gc['z']
                 
-        nx = len(gc['z'][1])
-        ny = len(gc['z'][0])
+        ny, nx = gc['z'].shape
         dx = gc['dx']
         dy = gc['dy']
     
@@ -396,8 +395,8 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
-        zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
+        zsep =  z.copy()                                                           # total separation bubble      
+        zsep_new =  z.copy()                                                        # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
 
@@ -473,7 +472,7 @@ class WindShear:
             
             for filter_iter in range(sep_filter_iterations):
                 
-                zsep_new = np.zeros(zsep.shape) 
+                zsep_new = z.copy() 
                 
                 Cut = 1.5
                 dk = 2.0 * np.pi / (np.max(x))
-- 
2.43.0


From dbfff4a5ec009835dc26e4f45b4631b895b8fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 38/46] fix: bed level and roughness outside the domain are
 those of its edge

---
 aeolis/shear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 7571a41..ef27d4e 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -194,7 +194,7 @@ class WindShear:
         # gc['z'] = self.interpolate(xi_buff, yi_buff, zi_buff, gc['x'], gc['y'], 0)
         
         # Interpolate bed levels and shear to the computational grid
-        gc['z'] = self.interpolate(gi['x'], gi['y'], gi['z'], gc['x'], gc['y'], 0)
+        gc['z'] = self.interpolate(gi['x'], gi['y'], gi['z'], gc['x'], gc['y'], None)
         
         # Project the taus0 and taun0 on the computational grid
         gc['taux'] = np.full(np.shape(gc['x']), taus0)
@@ -564,7 +564,7 @@ class WindShear:
  
         # interpolate roughness length z0 to computational grid
         if np.size(z0)>1:
-            z0new = self.interpolate(gi['x'], gi['y'], z0, gc['x'], gc['y'], 0)
+            z0new = self.interpolate(gi['x'], gi['y'], z0, gc['x'], gc['y'], None)
         else:
             z0new = z0
 
-- 
2.43.0


From 44996ee6d2643af284f46037971b28ad1c57d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 39/46] fix: two-dimensional fences reduce the shear in their
 lee and do not turn it

---
 aeolis/fences.py | 65 ++++++++----------------------------------------
 1 file changed, 10 insertions(+), 55 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 38611d3..094636e 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -186,56 +186,14 @@ def calc_fence_shear(igrid, cgrid, udir, x0, y0, p):
     # Compute wind shear stresses on computational grid
     gc = compute_fenceshear(gi, gc, udir, p)
 
-    ustarx_init = gc['ustarx'][0,0]
-    gc['ustarx'] = gc['ustarx'] * gc['mult_all']
-    gc['ustary'] = np.zeros(gc['x'].shape)
+    # Rotate real grid to the computational grid, of which the x-axis points downwind,
+    # and interpolate the reduction of the shear velocity to it
+    xi, yi = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
+    mult = interpolate(gc['xi'], gc['yi'], gc['mult_all'], xi, yi)
 
-    #ensure bad data doesnt make it through
-    #ix = gc['mindist'] > 20
-    #gc['ustarx'][ix] = ustarx_init
-
-
-    gc['ustarx'], gc['ustary'] = rotate(gc['ustarx'], gc['ustary'], udir + 90)
-
-    # Rotate both (i&c) grids + results in opposite dir.
-    gi['x'], gi['y'] = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
-
-    gc['x'], gc['y'] = rotate(gc['x'], gc['y'], -(udir + 90.), origin=(x0, y0))
-
-    gc['ustary'], gc['ustarx'] = rotate(gc['ustarx'], gc['ustary'], -(udir + 90))
-
-    # Interpolate wind shear results to real grid
-    gi['ustarx'] = interpolate(gc['x'], gc['y'], gc['ustarx'],
-                               gi['x'], gi['y'])
-    gi['ustary'] = interpolate(gc['x'], gc['y'], gc['ustary'],
-                               gi['x'], gi['y'])
-
-    # Rotate real grid and wind shear results back to orignal orientation
-    gc['x'], gc['y'] = rotate(gc['x'], gc['y'], udir + 90., origin=(x0, y0))
-    gi['x'], gi['y'] = rotate(gi['x'], gi['y'], +(udir + 90.), origin=(x0, y0))
-
-    gi['ustarx'], gi['ustary'] = rotate(gi['ustarx'], gi['ustary'], +(udir + 90))
-
-    #avoid any boundary effects
-    #gi['ustarx'][1,:] = gi['ustarx'][2,:]
-    #gi['ustarx'][:,1] = gi['ustarx'][:,2]
-    #gi['ustarx'][-2,:] = gi['ustarx'][-3,:]
-    #gi['ustarx'][:,-2] = gi['ustarx'][:,-3]
-
-    #gi['ustary'][1,:] = gi['ustary'][1,:]
-    #gi['ustary'][:,1] = gi['ustary'][:,1]
-    #gi['ustary'][-2,:] = gi['ustary'][-2,:]
-    #gi['ustary'][:,-2] = gi['ustary'][:,-2]
-
-    gi['ustarx'][0,:] = gi['ustarx'][1,:]
-    gi['ustarx'][:,0] = gi['ustarx'][:,1]
-    gi['ustarx'][-1,:] = gi['ustarx'][-2,:]
-    gi['ustarx'][:,-1] = gi['ustarx'][:,-2]
-
-    gi['ustary'][0,:] = gi['ustary'][1,:]
-    gi['ustary'][:,0] = gi['ustary'][:,1]
-    gi['ustary'][-1,:] = gi['ustary'][-2,:]
-    gi['ustary'][:,-1] = gi['ustary'][:,-2]
+    # The reduction does not affect the direction of the shear velocity
+    gi['ustarx'] = gi['ustarx'] * mult
+    gi['ustary'] = gi['ustary'] * mult
 
     return gi, gc
 
@@ -342,7 +300,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
     for iy in range(ny):
 
         # intialize other grid parameters
-        x = gc['x'][iy, :]
+        x = gc['xi'][iy, :]
         zp = gc['z'][iy, :]
         red_all = np.zeros(x.shape)
 
@@ -356,11 +314,8 @@ def compute_fenceshear(igrid, cgrid, udir, p):
             if zp[igrid] > 0:
 
                 # print(zp[igrid])
-                # local parameters
-                if udir >= 180 and udir <= 360:
-                    xrel = x - x[igrid]
-                else:
-                    xrel = -(x - x[igrid])
+                # local parameters (the x-axis of the computational grid points downwind)
+                xrel = x - x[igrid]
 
                 red = np.zeros(x.shape)
                 mult = np.ones(x.shape)
-- 
2.43.0


From e498a3a4fefe09978c9cb55cda339319f4656220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 40/46] fix: dune retreat erodes the volume closest to the
 demand

---
 aeolis/erosion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..214fe2a 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -106,9 +106,9 @@ def run_ph12(s, p, t):
             ix = zbT > zb
             zbT[ix] = zb[ix]
 
-            # initial volume calcs
-            Vc = np.cumsum(dx * (zb[st0:] - zbT[st0:]))
-            Vc = Vc - Vc[0]
+            # initial volume calcs (volume eroded seaward of each cell)
+            dVc = dx * (zb[st0:] - zbT[st0:])
+            Vc = np.cumsum(dVc) - dVc
 
             # collision calcs
             p_collision = 1 - norm.cdf(zToe, eta + wl, sigma_s)
-- 
2.43.0


From 05c5d546e19e02c2a2992b968cacf73e6c48fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 41/46] fix: bed composition file is used also with grain size
 distributions of whole numbers

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 4f04f62..9a49c98 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -83,7 +83,7 @@ def initialize(s, p):
     if isinstance(p['grain_dist'], str):
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
-    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int': 
+    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and (p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int'): 
         # Both float and int are included as options for the grain dist to make sure there is no error when grain_dist is filled in as 1 instead of 1.0. 
         for i in range(nl):
             gs = makeiterable(p['grain_dist'])
-- 
2.43.0


From b468792843d201a14254655a3ffc9345ed4e9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 42/46] fix: generated wind speeds stay inside their bins and
 the number of bins is exact

---
 aeolis/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e93c533..ab0b6e5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3095,9 +3095,7 @@ class WindGenerator():
         weib_scale=scale*float(mean_speed)/np.sqrt(np.pi);
 
         # wind speed bins
-        self.bins = np.arange(self.bin_size/2.0,
-                              float(max_speed) + self.bin_size/2.0,
-                              self.bin_size)
+        self.bins = (np.arange(n_states) + 0.5) * self.bin_size
 
         # distribution of probabilities, normalised
         fdpWind = self.weibullpdf(self.bins, weib_scale, weib_shape)
@@ -3182,7 +3180,7 @@ class WindGenerator():
         self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
         self.states.append(self.state)
 
-        u = np.maximum(0., self.bins[self.state] - 0.5 + r2 * self.bin_size)
+        u = np.maximum(0., self.bins[self.state] + (r2 - 0.5) * self.bin_size)
         self.wind_speeds.append(u)
 
         self.t += self.dt
-- 
2.43.0


From 56b70016ad7b67872de14633ff30f532229d7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 43/46] fix: units of all output variables are written to the
 netCDF file

---
 aeolis/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 9a10a40..add54f7 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -437,7 +437,7 @@ def parse_metadata(outputvars):
     if os.path.exists(pyfile):
         with open(pyfile, 'r') as fp:
             for line in fp:
-                m = re.match('^\s*\'(.*)\',\s*#\s*\[(.*)\]', line)
+                m = re.match('^\s*\'(.*)\',\s*(?:#\w+\s*)?#\s*\[(.*)\]', line)
                 if m:
                     var, units = m.groups()
                     if var in meta.keys():
-- 
2.43.0


From 8a9545a3aa4e764bccb819cb92d4a2f3810cc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 44/46] fix: removal of negative concentrations never turns the
 remaining ones negative

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index ab0b6e5..aa97c01 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1004,7 +1004,7 @@ class AeoLiS(IBmi):
                                               **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= max(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
@@ -1397,7 +1397,7 @@ class AeoLiS(IBmi):
                                               **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= max(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
 
@@ -1780,7 +1780,7 @@ class AeoLiS(IBmi):
 #                                           **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= max(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
@@ -2200,7 +2200,7 @@ class AeoLiS(IBmi):
 #                                           **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= max(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
-- 
2.43.0


From 9a73ff1438fbb7f7bb8f668cbc4817017767d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 45/46] fix: without runup the total water levels follow the
 still water level

---
 aeolis/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 58ee11a..c1e26b4 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -175,6 +175,11 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        # Without run-up the water levels follow the still water level
+        s['TWL'][:] = s['SWL'][:]
+        s['DSWL'][:] = s['SWL'][:]
+
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From 9d9e54127524153c3956acccb1b242fae5e30692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 46/46] fix: no dune erosion and no crash without waves

---
 aeolis/erosion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index 214fe2a..4f82a84 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -81,7 +81,8 @@ def run_ph12(s, p, t):
     for iy in range(ny + 1):
         twl = s['R'][iy][0] * Kd + wl
 
-        if twl > zToe:
+        # without waves there is no run-up that collides with the dune
+        if twl > zToe and s['sigma_s'][iy][0] > 0:
             x = s['x'][iy, :]
             zb = s['zb'][iy, :]
             eta = s['eta'][iy][0]
-- 
2.43.0

