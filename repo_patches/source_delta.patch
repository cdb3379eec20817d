From 4338bf39f372c480170699bdd550e98e0dd2ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 01/37] fix: use exact integer limits for the interior points
 of a supercell

The loop limits were truncated floating point quotients, so for some HNFs
(e.g. [[2,0,0],[1,2,0],[0,1,2]]) the wrong number of sites was found and
the program exited.
---
 phenum/vector_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..b7bccce 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -100,8 +100,10 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     for iD in range(0, n_d):  
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
-            for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+            lo2 = (b*z1)//a
+            for z2 in range(lo2, lo2+c):
+                lo3 = (z1*(d*c-e*b)+a*e*z2)//(a*c)
+                for z3 in range(lo3, lo3+f):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 3a84a1eac2faa45d369fefc33fa5bd67e4f0f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 02/37] fix: count configurations with exact integers

Binomials and the Burnside average went through floating point, so counts
above 2**53 were wrong.
---
 phenum/polyaburnside.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..8140953 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return rad//len(group)
-- 
2.43.0


From 4fd8c0e1b4e7e8cf9a722b72dd044a5baf9a23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 03/37] fix: list lead under its own symbol in the volume table

The entry for Pb was a second 'Pd' key, so lead was unknown and palladium
got the volume of lead.
---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From a9939dbb7266b8bebe2cc6d3dec8edb8a7cdce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 04/37] fix: honour "-remove_zeros f" and "-mink f"

The converted option was stored under a misspelt key and "mink" was never
converted, so the non-empty string "f" counted as True.
---
 phenum/phenumStr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..1f1070b 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -197,8 +197,13 @@ def run(args):
         
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
-    else:
-        args["remove_zeors"] = False
+    elif args["remove_zeros"] == "f":
+        args["remove_zeros"] = False
+
+    if args["mink"] == "t":
+        args["mink"] = True
+    elif args["mink"] == "f":
+        args["mink"] = False
 
     _make_structures(args)
         
-- 
2.43.0


From 1633ec801bb3b512c7af06b8b954bc596aafc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 05/37] fix: give the displacement labels the directions they
 were enumerated with

In enum.out 0 means no displacement and 1..6 number the directions of the
arrow group (+x,-x,+y,-y,+z,-z). POSCAR used another order, so equivalent
and inequivalent structures were mixed up, and the MTP file displaced the
atoms labelled 0 and failed on label 6.
---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..cbf8dd9 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -351,7 +351,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -423,7 +423,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
-- 
2.43.0


From a4d4dba6b7a9a3f6c39f3d0d838f7f4cd05bf3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 06/37] fix: look up an atom's displacement by its group index

The directions are listed in the order of the labeling, the atoms are not;
the species was already looked up through the group index.
---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index cbf8dd9..71d0089 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -390,7 +390,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
+            displace = directions[g_indx[iAt]]*args["displace"]*lattice_parameter
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
@@ -484,7 +484,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From b91869e08cf840643e2ef31ba52824bca0386447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 07/37] fix: convert displacements to direct coordinates in the
 POSCAR

The cartesian displacement was added to the direct coordinates as it was,
scaled by the lattice parameter that VASP applies again.
---
 phenum/io_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 71d0089..62f499b 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -337,7 +337,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, dot, linalg
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -367,6 +367,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     for arrow in arrows:
         directions.append(array(arrow_directions[int(arrow)]))
     slv = space_data["sLV"]
+    slv_inv = linalg.inv(slv)
     with open(filename,"w+") as poscar:
         poscar.write(title)
         poscar.write("{0:.2f}\n".format(lattice_parameter))
@@ -390,7 +391,9 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[g_indx[iAt]]*args["displace"]*lattice_parameter
+            # The displacement is in units of the lattice parameter along
+            # cartesian axes, the positions are in direct coordinates.
+            displace = dot(directions[g_indx[iAt]]*args["displace"],slv_inv)
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
-- 
2.43.0


From 0f3b24b127cf313582cf2a09e91d4db447046890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 08/37] fix: distribute exactly the requested number of
 structures

The random rounding could select more structures of a kind than exist,
overshoot the requested total, or give up below it.
---
 phenum/structures.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..406f765 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Never take more than there are of this kind or than are still missing.
+            value = min(value, limit-result.get(key, 0), n-rtotal[0])
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -119,10 +121,14 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
+            #Top up from the most abundant ones if the random choices fell short.
+            for key, value, limit in relvals:
+                vinsert(key, limit, limit, rtotal, n, result)
+
             if recount == 3 and rtotal[0] < n: #pragma: no cover
                 from .msg import warn
                 warn("Reached maximum recursion limit in random assignment.")
-- 
2.43.0


From 577748fdbd09f64474a10d6a79321410489cbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 09/37] fix: read every species of a concentration restriction

Only the first two concentrations of each line were read, so restrictions
of ternary and higher systems never matched anything.
---
 phenum/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 406f765..fd8b6b2 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -459,7 +459,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:-1]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From 7b2f0b1dd72b525f291c19bab8e7473dce379ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 10/37] fix: count only the allowed concentrations of a shape

With a concentration restriction the total of a shape still contained all
the other concentrations.
---
 phenum/structures.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index fd8b6b2..c258af0 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -328,9 +328,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                stotals[tuple(HNF)] = sum(vs)
 
         dataset[s] = {
             "distr": distr,
-- 
2.43.0


From 2e2ffb3555e829b2f3ef184501a7f6e175ee608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 11/37] fix: reject equivalent configurations in the
 guess-and-check sampling

The hash of only the first color was looked up among complete locations,
so it never matched and symmetrically equivalent configurations were kept.
---
 phenum/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..a5197f1 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -620,7 +620,12 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
-            new_location = _hash(new_config)
+            # the location is the hash of every color on the sites
+            # that the colors before it left open.
+            new_location = []
+            for color in range(1,len(C)+1):
+                new_location.append(_hash([int(site == color) for site in new_config]))
+                new_config = [site for site in new_config if site != color]
 
             if new_location in visited and new_location != candidate: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
-- 
2.43.0


From e0d54b07116571b0f58a22ed4f47512178462d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 12/37] fix: sample displacement arrangements without the
 superperiodic ones

The superperiodic test of the sampling compared the arrows without moving
them and then dropped its result, the last arrangement was never drawn, and
the loop could not end when fewer arrangements exist than are wanted.
---
 phenum/phonons.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..79e3df0 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -221,10 +221,10 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     else:
         from random import randrange
         visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        orighash = randrange(maxpossible+1)
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
             visited.append(orighash)
             
@@ -286,12 +286,15 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                         action = trans[0]
                         permutation = trans[1]
                         orig_sites = [i[1] for i in coloring_with_arrows]
+                        arrow_sites = [i[0] for i in coloring_with_arrows]
                         perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
+                        rot_arrows = [arrow_sites[i] for i in action]
+                        perm_arrows = [permutation[site] for site in rot_arrows
                                          if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
+                        if orig_sites == perm_sites and perm_arrows == arrow_config and (action != list(range(len(action))) or permutation != list(range(len(permutation)))): #pragma: no cover
                             #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                            unique = False
+                            break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
-- 
2.43.0


From 3434fdfa16714b839cd3cdaea75f90615552b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 13/37] fix: compare displacements only under operations that
 keep the colors

Guess-and-check passed the whole group, so arrangements were called
equivalent that are not, returned more than asked for when several color
arrangements were drawn, and could look forever for more than there are.
---
 phenum/tree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index a5197f1..2aafae3 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -596,7 +596,10 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     visited = []
 
     nfound = 0
-    while len(survivors) < num_wanted:
+    total = 1
+    for c_i in C:
+        total *= c_i
+    while len(survivors) < num_wanted and len(visited) < total:
         candidate = []
         # pick a random configuration to check against.
         for c_i in C:
@@ -655,7 +658,9 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                # Only the operations that fix the colors may move the arrows.
+                fixing = [g for g in group if [config[j] for j in g[0]] == config]
+                arsurvivors = add_arrows(t_config, fixing, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted-len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From 9d2c92354e292f72f20d282a79cd6550fad7c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 14/37] fix: only skip the tree search when every atom is
 displaced

The test compared the result of all() with 0 and was always true, so a
single species of which some atoms are displaced was treated as if the
atoms could not trade places. The subset was also undefined for large
pure displacement enumerations.
---
 phenum/phonons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 79e3df0..96a8c99 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -432,6 +432,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # then we don't need to run the polya algorithm.
     if (multinomial(concs) > 100000 and num_wanted <= 100) or (arrow_types !=0 and sum(concs) >= 12 and num_wanted <=100):
         total = 1e10
+        subset = None
     else:
         # now find the number of unique arrangements using
         # polya
@@ -463,7 +464,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and all(site[0] >= 0 for site in decorations):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From 93e62d2c24105dbaee369395592627b011df839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 15/37] fix: stop large enumerations at the number of
 structures wanted

When the subset is a number the search returned every configuration without
an acceptance rate and none with one.
---
 phenum/phonons.py |  2 +-
 phenum/tree.py    | 21 ++++++++-------------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 96a8c99..9238363 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -453,7 +453,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
                 subset = subset[0:num_wanted]
             else: # pragma: no cover
                 # only used for data sets to large for test cases.
-                subset = num_wanted
+                subset = int(num_wanted)
         elif num_wanted == total:
             subset = []
         else:
diff --git a/phenum/tree.py b/phenum/tree.py
index 2aafae3..4ca55a0 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -344,7 +344,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     # determine if we are finding a subset of doing a full enumeration
     if subset is not None and isinstance(subset, list) and len(subset) > 0:
         use_subset = True
-    elif (subset is None or isinstance(subset, int)) and accept is not None: #pragma: no cover
+    elif isinstance(subset, int) or (subset is None and accept is not None): #pragma: no cover
         use_subset = True # Takes to long to test, only runs for huge enumerations
     else:
         use_subset = False
@@ -384,7 +384,8 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
                                 or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+                                or subset is None
+                                or (isinstance(subset, int) and len(survivors) < subset)):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
@@ -405,7 +406,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                     if trans_branch == brancht and action != list(range(int(cellsize))):
                         unique = 1
                         if use_subset:
-                            if count in subset:
+                            if isinstance(subset,list) and count in subset:
                                 loc = subset.index(count)
                                 nv = count
                                 while nv in subset and nv < reduce(mul,C,1):
@@ -447,11 +448,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                         else:
                             if subset is not None and isinstance(subset, list) and count in subset:
                                 survivors.append(z)
-                            elif accept is not None and random() < accept and not isinstance(subset,list): #pragma: no cover
-                                if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
+                            elif (accept is None or random() < accept) and not isinstance(subset,list): #pragma: no cover
+                                if subset is None or len(survivors) < subset: #This option is only for large data sets that
                                     survivors.append(z) # are too large for unit testing purposes.
-                                else:
-                                    survivors.append(z)
                         count += 1
                 else:
                     # if there are no arrows just
@@ -466,15 +465,11 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                             tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
                             tbranch = [colors[leaf -1][1] for leaf in tbranch]
                             survivors.append([[-1,leaf] for leaf in tbranch])
-                        elif accept is not None and random() < accept and not isinstance(subset, list): #pragma: no cover
-                            if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
+                        elif (accept is None or random() < accept) and not isinstance(subset, list): #pragma: no cover
+                            if subset is None or len(survivors) < subset: #This option is only for large data sets that
                                 tbranch = list(_invhash(branch, concs, len(colors_w_arrows))) # are too large for unit testing purposes.
                                 tbranch = [colors[leaf -1][1] for leaf in tbranch]
                                 survivors.append([[-1,leaf] for leaf in tbranch])
-                            else:
-                                tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
-                                tbranch = [colors[leaf -1][1] for leaf in tbranch]
-                                survivors.append([[-1,leaf] for leaf in tbranch])
 
                     count += 1
             # if we aren't on the last contributing level
-- 
2.43.0


From 6f1bece0c210afb33b6e94f518f76c270611daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 16/37] fix: pair every rotation of the basis with its own
 shift

The operations map the rows of the lattice (a.M), so the positions have to
be rotated as rows when the shifts are found, as they are when the basis
vectors are permuted, and the columns of a supercell by the transpose.
Before, the shift belonged to the transposed rotation: a basis off the
origin ended the program and, for diamond, wrong site permutations resulted.
---
 phenum/grouptheory.py | 2 ++
 phenum/symmetry.py    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..840d191 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -749,6 +749,8 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     a_type = [1]*len(bas_vecs)
     
     (sgrots,sgshifts) = get_spaceGroup(par_lat,a_type,bas_vecs,eps)
+    # the rotations act on row vectors but are applied to columns below
+    sgrots = [np.transpose(rot) for rot in sgrots]
     (fixing_ops,RPList,degeneracy) = _get_sLV_fixing_operations(HNF,par_lat,sgrots,sgshifts,
                                                                 par_rp_list,eps)
 
diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..64ff36d 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -318,7 +318,7 @@ def get_spaceGroup(par_lat,atomType,bas_vecs,eps=1E-10,lattcoords = False):
     # Apply each of the point operators in the point group to the crystal
     for op in lattpg_op:
         # rotate atom 1 and store its position in the vector v
-        v = numpy.matmul(op,atom_pos[0])
+        v = numpy.matmul(atom_pos[0],op)
         # Loop over all possible fractional translations
         for jAtom in range(n_atoms):
             if (atomType[jAtom] != atomType[0]):
@@ -329,7 +329,7 @@ def get_spaceGroup(par_lat,atomType,bas_vecs,eps=1E-10,lattcoords = False):
             for kAtom in range(n_atoms):
                 this_type = atomType[kAtom]
                 # Rotate and translate each atom        
-                v2 = numpy.matmul(op,atom_pos[kAtom])
+                v2 = numpy.matmul(atom_pos[kAtom],op)
                 v2 = [v2[i] + fract[i] for i in range(3)]
                 v2 = bring_into_cell(v2, cart_to_latt, latt_to_cart, eps)
                 
-- 
2.43.0


From 72bff8fa6dbcb5f732a51c173849fd13c7e53d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 17/37] fix: only require the displacement directions to
 permute when they are used

Hexagonal lattices without displacements ended the program because their
rotations do not permute the cartesian directions.
---
 phenum/grouptheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 840d191..e71e080 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -612,7 +612,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             skip[jm] = True
                             break
 
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                if np.count_nonzero(dgp == 0) > 1 or (arrows and np.count_nonzero(dap == 0) > 1): #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
                     exit()
 
-- 
2.43.0


From a5a1aec32fb0e5fea7e6b42037dcd9f83406ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 18/37] fix: list every operation of a supercell once

Rotations that differ by a lattice translation only occur for a basis off
the origin. They were composed with all translations several times, and
unevenly, so the numbers of arrangements counted from the group were wrong.
---
 phenum/grouptheory.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index e71e080..284b289 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -655,7 +655,9 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 temp_rperms_perm =[p[:nr] for p in perms]
                 temp_arrow_perm = [p[-na:] for p in perms]
         # The rotations permutations list is now in "alphabetical"
-        # order and contains no duplicates
+        # order and contains no duplicates. Two rotations of a basis off
+        # the origin may still differ by a translation only, they are
+        # removed once the translations are known.
     
         # To get the permutations effected by the r's, we don't need
         # the r's. We can merely take the member list, the group, and
@@ -677,6 +679,17 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             for il in range(len_ident):
                 temp_ident.append([ident[il][i] for i in perm])
             tperms_perm.append(np.reshape(temp_ident,(n*n_d)).tolist())
+
+        # Keep one rotation of those that differ by a translation
+        known = []
+        keep = []
+        for iOp, rperm in enumerate(temp_rperms_perm):
+            aperm = list(temp_arrow_perm[iOp]) if arrows else None
+            if [rperm,aperm] not in known:
+                keep.append(iOp)
+                known.extend([[[tperm[i] for i in rperm],aperm] for tperm in tperms_perm])
+        temp_rperms_perm = [temp_rperms_perm[iOp] for iOp in keep]
+        temp_arrow_perm = [temp_arrow_perm[iOp] for iOp in keep]
             
         rp_list_nl = len(temp_rperms_perm)*n
         rp_list_perm_sites = [0]*rp_list_nl
-- 
2.43.0


From c41757ba4821734cee4a094bc9347143940d1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 19/37] fix: wrap positions on the cell boundary without
 looping

---
 phenum/symmetry.py     | 20 ++++----------------
 phenum/vector_utils.py |  5 ++---
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 64ff36d..c9c7687 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -173,22 +173,10 @@ def bring_into_cell(vec,cart_to_latt,latt_to_cart,eps):
     from numpy import matmul
     # Put the representation of the point into lattice coordinates
     vec = matmul(cart_to_latt,vec).tolist()
-    # counter to catch compiler bug
-    c = 0
-    maxc = max(math.ceil(abs(max(vec))),math.ceil(abs(min(vec))))*2
-
-    # If a component >= 1, translate by subtracting a lattice vector
-    # If a component < 0, translate by adding a lattice vector
-    while any(i > 1.0-eps for i in vec) or any(i < 0.0-eps for i in vec):
-        c = c +1
-        for i, v in enumerate(vec):
-            if v >= 1.0-eps:
-                vec[i] -= 1
-            elif v < 0.0-eps:
-                vec[i] += 1
-        if (c>maxc): #pragma: no cover
-            print("ERROR: loop does not end in bring_into_cell. Probably compiler bug.")
-            exit()
+
+    # If a component >= 1, translate by subtracting lattice vectors
+    # If a component < 0, translate by adding lattice vectors
+    vec = [v-math.floor(v+eps) for v in vec]
 
     # Put the point back into cartesion coordinate representation
     vec = matmul(latt_to_cart,vec).tolist()
diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index b7bccce..abbc856 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -442,6 +442,7 @@ def cartesian2direct(sLV,aBas, eps):
     Returns:
         aBas (list): The atomic basis vectors in direct coordinates.
     """
+    from math import floor
     from numpy import linalg, matmul, array
     
     n_at = len(aBas)
@@ -453,8 +454,6 @@ def cartesian2direct(sLV,aBas, eps):
         # the first unit cell--- not necessary but aesthetically
         # pleasing.
 
-        while any(aBas[iAt] >= (1.0-eps)) or any(aBas[iAt] < (0.0-eps)):
-            aBas[iAt] = array([i if i < (1.0-eps) else i-1.0 for i in aBas[iAt]])
-            aBas[iAt] = array([i if i >= (0.0-eps) else i+1.0 for i in aBas[iAt]])
+        aBas[iAt] = array([i-floor(i+eps) for i in aBas[iAt]])
 
     return aBas
-- 
2.43.0


From c73e61e654928a3944f4248266dd0fbfc2088610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 20/37] fix: exact multinomial coefficients

---
 phenum/numerics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..b4bb4bd 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -42,6 +42,8 @@ def binomial_coefficient(n, k):
         return 0
     if k==0 and n == 0:
         return 1
+    # fixed size integers would overflow
+    n, k = int(n), int(k)
     t = 1
     if k < n-k:
         for i in range(n, n-k, -1):
@@ -64,8 +66,8 @@ def multinomial(n):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
         
-    bins = []
+    result = 1
     for b in binomials:
-        bins.append(binomial_coefficient(b[0],b[1]))
+        result *= binomial_coefficient(b[0],b[1])
     
-    return np.prod(bins)
+    return result
-- 
2.43.0


From 2a791074e9b52c500eccfc7a9651ba09887ebc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 21/37] fix: compare displacements site by site with the
 translated ones

---
 phenum/phonons.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 9238363..ec03b95 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
@@ -289,9 +289,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                         arrow_sites = [i[0] for i in coloring_with_arrows]
                         perm_sites = [orig_sites[i] for i in action]
                         rot_arrows = [arrow_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in rot_arrows
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and (action != list(range(len(action))) or permutation != list(range(len(permutation)))): #pragma: no cover
+                        perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                        if orig_sites == perm_sites and perm_arrows == arrow_sites and (action != list(range(len(action))) or permutation != list(range(len(permutation)))): #pragma: no cover
                             #This happens rarely and so it's really hard to access in tests.
                             unique = False
                             break
-- 
2.43.0


From 928a76d6d22bd70d03f9ac21cf1d3f954f60fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 22/37] fix: displace the requested part of a species despite
 rounding

---
 phenum/phonons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index ec03b95..86631f0 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -325,7 +325,8 @@ def arrow_concs(cList,aconcs):
     Returns:
         decoration_w_arrows (list): The labeling of both colors and arrows.
     """
-    aconcs = [int(cList[i]*aconcs[i]) for i in range(len(cList))]
+    # 0.29*100 is just below 29
+    aconcs = [int(cList[i]*aconcs[i]+1E-7) for i in range(len(cList))]
     
     decoration_w_arrows = []
     labels = range(1,len(cList)+1)
-- 
2.43.0


From deee89dcb6c3d6783e3cecaf2c36c07492a35772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 23/37] fix: concentration ranges use each species' own
 denominator

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index c9c7687..f2043b6 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,9 +33,9 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
+            denom = atom[2]
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
-- 
2.43.0


From 728f491afc95fb9c08470ed3896af15475fe90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 24/37] fix: distribute numbers of structures beyond the
 machine integers

---
 phenum/structures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index c258af0..d016830 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -279,7 +279,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         gtotal (int): The total number of structures.u
     """
     from os import path
-    from numpy import loadtxt
+    from numpy import array
     gtotal = 0
     dataset = {}
     for s in cellsizes:
@@ -293,7 +293,9 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         with open(source) as f:
             headings = f.readline().split()
             concs = [tuple(map(int, h.split(":"))) for h in headings[2:-1]]
-        polya = loadtxt(source, int)
+            #The numbers of structures can exceed the machine integers.
+            polya = array([[int(v) for v in l.split()] for l in f
+                           if l.strip() and "#" not in l], dtype=object)
         distr = {}
 
         if HNFs is None and wanted_concs is None:
-- 
2.43.0


From 8274037a0c4a33359df46ed1320a2ccc61638036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 25/37] fix: keep numbers of 50 digits apart in the polya files

---
 phenum/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..6a5f4e0 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -108,14 +108,14 @@ def _polya_out(args):
                     else:
                         total_num = polya(conc, agroup)
 
-                    out.write("{0: <50d}".format(total_num))
+                    out.write("{0: <49d} ".format(total_num))
                     total += total_num
                     conc_totals[iconc] += total_num
             out.write('{0: <10d}\n'.format(total))
         out.write("# " + ''.join(['-' for i in range(len(c_list)*10 + 10 + 30)]) + '\n')
         out.write("{0: <28}".format("  0 0 0 0 0 0"))
         for ctotal in conc_totals:
-            out.write("{0: <50d}".format(ctotal))
+            out.write("{0: <49d} ".format(ctotal))
         out.write("{0: <50d}\n".format(sum(conc_totals)))
         out.close()
         
-- 
2.43.0


From 6602add3d2e0b2364da73e662071d0e2b9d804cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 26/37] fix: MTP files with a species mapping but no species
 names

---
 phenum/io_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 62f499b..6a89739 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -442,7 +442,8 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
     # Get the lattice parameter for the atomic species provided by the
     # user.
-    if mapping is not None and len(args["species"]) != len(mapping):
+    if (mapping is not None and args["species"] is not None
+        and len(args["species"]) != len(mapping)):
         species = [args["species"][i] for i in mapping.values()]
     else:
         species = args["species"]
-- 
2.43.0


From 65663248b012c2bbfdf2e38a58898d03dd1a8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 27/37] fix: list the structures with the atoms' positions
 inside the unit cell

---
 phenum/enumeration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 6a5f4e0..27a6078 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -135,6 +135,8 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
+    from phenum.symmetry import bring_into_cell
+    from numpy import linalg, transpose
     from os.path import isfile
     from glob import glob
     from copy import deepcopy
@@ -163,6 +165,10 @@ def _enum_out(args):
         _enum_in(temp_args)
             
     systems = io.read_enum(args["input"])
+    # The labelings refer to the atoms' positions inside the unit cell.
+    latt_to_cart = transpose(params["lat_vecs"])
+    params["basis_vecs"] = [bring_into_cell(vec, linalg.inv(latt_to_cart), latt_to_cart, 1E-10)
+                            for vec in params["basis_vecs"]]
     io.write_enum(params, outfile=args["outfile"])    
 
     count_t = 1
-- 
2.43.0


From 08182dd25e738baa35abc4fd8016e594f77dce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 28/37] fix: keep wide numbers apart in the list of structures

---
 phenum/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 27a6078..eb32f89 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -178,7 +178,7 @@ def _enum_out(args):
             "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
-        return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
+        return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
         enumlist = []    
-- 
2.43.0


From 258b44f139364eb16c3911b332d4114d7597058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 29/37] fix: blank lines and repeated blanks in lattice.in

---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 6a89739..b6570ad 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -36,9 +36,9 @@ def read_lattice(filename='lattice.in'):
     """
     from .msg import info
     with open(filename,'r') as f:
-        lines = [l for l in f.readlines() if l.strip()[0] != '#']
+        lines = [l for l in f.readlines() if l.strip() and l.strip()[0] != '#']
         
-    sizes = [int(el) for el in lines[0].split(' ')]
+    sizes = [int(el) for el in lines[0].split()]
     bulk = lines[1].strip()[0].lower() == 'b'
     lat_vecs = [list(map(float, l.split())) for l in lines[2:5]]
     nspecies = int(lines[5])
-- 
2.43.0


From b90bc9ea0de279b9e1b85641f06b3e693b2bbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 30/37] fix: -polya does not map displacement directions when
 there are none to enumerate

On lattices whose rotations do not permute the axes (e.g. hexagonal) the
program stopped with a failed mapping even without displacements.
---
 phenum/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index eb32f89..598aa4d 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -83,7 +83,8 @@ def _polya_out(args):
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,
+                                  arrows=(sum(a_concs) != 0))
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
-- 
2.43.0


From 5391b3a8cee134d4d1b9a99d6160d4b80c29baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 31/37] fix: -enum writes an enum.out without structures when
 none are asked for

An empty enum.in (no composition allowed in the ranges) raised a NameError.
---
 phenum/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 598aa4d..79e8742 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -182,7 +182,8 @@ def _enum_out(args):
         return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
-        enumlist = []    
+        enumlist = []
+        sortenum = []
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 from tqdm import tqdm 
-- 
2.43.0


From 4148c9d372d413bef3956e711c5952859bbca375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:51 +0000
Subject: [PATCH 32/37] fix: the group generated by a single operation is
 complete

a_group_gen gave an empty group when its translations and rotations have one
product only: the only generator was never applied to itself.
---
 phenum/grouptheory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 284b289..75cdbda 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -853,9 +853,9 @@ def _group(gen): # pragma: no cover
         # action doesn't act an its self
         gen2 = []      
         # if k is not the ith element of the generators add it to the
-        # set gen2
+        # set gen2 (a single generator only has itself to act on)
         for k in gen:
-            if k != i:
+            if k != i or len(gen) == 1:
                 gen2.append(k)
         # loop over all except the ith generator
         for j in gen2:
-- 
2.43.0


From 1a58ccbefbb4ec0f4f93c22182c553a697721631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 33/37] fix: -visualize makes its three-dimensional axes with
 add_subplot

Figure.gca takes no projection since matplotlib 3.6; every plot raised a TypeError.
---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index d5b2f80..3705aa8 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -76,7 +76,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 za = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xa,ya,za,zdir='z',c='red',s=1000)
@@ -162,7 +162,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 zf = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xf,yf,zf,zdir='z',c='red',s=1000)
-- 
2.43.0


From 65b14f50fa353995285756fc1eebad871e8303fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 34/37] fix: -visualize labels every atom of the basis

With more than one atom in the basis the labeling was too short (IndexError).
---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 3705aa8..651616a 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -48,7 +48,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
+                structure["labeling"] = "".join(["0" for i in range(structure["n"]*len(system["dvecs"]))])
                 system["nD"] = len(system["dvecs"])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
@@ -149,7 +149,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
+                structure["labeling"] = "".join(["0" for i in range(structure["n"]*len(system["dvecs"]))])
                 system["nD"] = len(system["dvecs"])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
-- 
2.43.0


From 3903f5386066f68f166db451f554a75d07e86562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:14 +0000
Subject: [PATCH 35/37] fix: -visualize draws the supercells of the lattice
 given

The parent lattice vectors were used as the columns of a matrix although
read_lattice gives them as rows: lattices whose matrix of vectors is not
symmetric, e.g. hcp, were drawn as another lattice.
---
 phenum/visualize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 651616a..580625d 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -201,17 +201,19 @@ def _convert_read_lat_to_system_dat(lattice):
         system_data (dict): A dictionary of the system data with keys:
           "title": The system title.
           "bulksulf": Is this a surface or bulk system.
-          "plattice": The parent lattice vectors as rows of a matrix.
+          "plattice": The parent lattice vectors as columns of a matrix.
           "nD": The number of atoms in the system.
           "dvecs": The atomic basis vectors.
           "k": The number of atomic species in the system.
           "eps": Finite precision tolerance.
     """
 
+    from numpy import transpose
+
     system_data = {
         "title": "HNF plotter",
         "bulksurf": lattice["bulk"],
-        "plattice": lattice["lat_vecs"],
+        "plattice": transpose(lattice["lat_vecs"]),
         "nD": 0,
         "dvecs": lattice["basis_vecs"],
         "k": lattice["nspecies"],
-- 
2.43.0


From d04798530f5a6399518d922b9258f792693ca4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:14 +0000
Subject: [PATCH 36/37] fix: -visualize saves every supercell under a name of
 its own

The entries were joined without a separator, so that from size 12 on plots
overwrote one another (1 0 1 1 10 12 and 1 0 1 11 0 12).
---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 580625d..a6fbd41 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -106,7 +106,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                     ax.plot([xb],[yb],[zb],'w')
 
                 if not testmode: # pragma: no cover
-                    fig.savefig("{}.pdf".format("".join([str(i) for i in hnf_name])))
+                    fig.savefig("{}.pdf".format("_".join([str(i) for i in hnf_name])))
                 if show and not testmode: #pragma: no cover
                     plt.show()
                 else:
@@ -177,7 +177,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                     ax.plot([xb],[yb],[zb],'w')
 
                 if not testmode: #pragma: no cover
-                    fig.savefig("{}.pdf".format("".join([str(i) for i in hnf_name])))
+                    fig.savefig("{}.pdf".format("_".join([str(i) for i in hnf_name])))
                 if show and not testmode:#pragma: no cover
                     plt.show()
                 else:
-- 
2.43.0


From ed5d7d0ad55ab8cf2df80f1f9ad7a3ccdf0aa8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:28 +0000
Subject: [PATCH 37/37] fix: the sample drawn for a seed does not depend on the
 order of the directory listing

---
 phenum/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index d016830..665aa13 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -436,6 +436,8 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
             if form in f and f[0]==form[0]:
                 sizes.append(int(f.split(".")[-1]))
                 ready = True
+        #The order of the listing is arbitrary, the selection depends on it.
+        sizes.sort()
 
     else:
         for i in sizes:
-- 
2.43.0

