From bc991ef6310b4adfc041049c136a2fc4dcbc3962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 01/42] fix: get_primitive() takes per-atom keys from the last
 found atom of each type

As documented in its Notes and as get_conventional() does.
---
 src/wulfric/crystal/_primitive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..fd1eb71 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -290,8 +290,7 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     # Get mapping from original atoms to primitive ones through types
     types_mapping = {}
     for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+        types_mapping[type_index] = index
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From 312843bf348e4b5f45e829be9c1ac3dad4d08627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 02/42] fix: return "spglib_types" of conventional and
 primitive atoms as list of int

NumPy array of numpy integers was rejected by validate_atoms(), i.e. the output
of get_conventional() and get_primitive() could not be used as an input.
---
 src/wulfric/crystal/_conventional.py | 2 +-
 src/wulfric/crystal/_primitive.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..ad5d088 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -812,6 +812,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = conv_types
+        conv_atoms["spglib_types"] = [int(type_index) for type_index in conv_types]
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index fd1eb71..ea3b8ea 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -301,6 +301,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = [int(type_index) for type_index in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From 778760a9bda1bc8a58476dc423e7ca9cdf7182ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 03/42] fix: do not return arrays stored in SpglibData from
 get_conventional/get_primitive

Modification of the returned cell or positions in place was changing the data of the
(frozen) spglib_data instance.
---
 src/wulfric/crystal/_conventional.py | 6 +++---
 src/wulfric/crystal/_primitive.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index ad5d088..8495af2 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -573,7 +573,7 @@ def _sc_get_conventional_no_hR(
     """
     # Run over possible crystal families but hR
     if crystal_family in ["c", "t"] or (crystal_family == "h" and centring_type == "P"):
-        conv_cell = spglib_std_lattice
+        conv_cell = np.array(spglib_std_lattice)
     elif crystal_family == "o":
         if centring_type in ["P", "F", "I"]:
             conv_cell = _sc_get_conventional_oPFI(spglib_std_lattice=spglib_std_lattice)
@@ -742,8 +742,8 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
                 @ np.linalg.inv(conv_cell)
             )
         else:
-            conv_cell = spglib_data.conventional_cell
-            conv_positions = spglib_data.conventional_positions
+            conv_cell = np.array(spglib_data.conventional_cell)
+            conv_positions = np.array(spglib_data.conventional_positions)
 
         conv_types = spglib_data.conventional_types
 
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index ea3b8ea..ddaa375 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -247,8 +247,8 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Straightforward interface to spglib
     if convention == "spglib":
-        prim_cell = spglib_data.primitive_cell
-        prim_positions = spglib_data.primitive_positions
+        prim_cell = np.array(spglib_data.primitive_cell)
+        prim_positions = np.array(spglib_data.primitive_positions)
         prim_types = spglib_data.primitive_types
     # Some work needed for other conventions
     elif convention in ["hpkot", "sc"]:
-- 
2.43.0


From 6f4c73b6c5cfc6b8ed21f056cdd5b162e73f7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 04/42] fix: Kpoints stores its own list of names

add_hs_point() and remove_hs_point() were modifying the list passed by the user.
---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From ad9c1ac26d3bfe0457ee6df045e0d070ad85896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 05/42] fix: coordinates of the Z point of the aP2 lattice
 (HPKOT, table 91)

Z was at the Gamma point.
---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From bfb344cf814be056c717c575869e1528963b0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 06/42] fix: plot labels of the F3 and F3_P points

---
 src/wulfric/constants/_kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From 059927966ff7e56d130f617d02d0ff9cf731f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 07/42] fix: SC conventional cell of orthorhombic crystals with
 lattice vectors of the same length

PotentialBugError was raised if two lattice parameters are exactly equal.
---
 src/wulfric/crystal/_conventional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 8495af2..f6ea57f 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From 36162ca977b3eacadf7ab801d0d654e24492ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 08/42] fix: negative scale factor of POSCAR is the volume of
 the cell

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..7e2a83c 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,7 +100,7 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell[0] *= scale_factor[0]
-- 
2.43.0


From faece69f9b0426c0937c8bb1e9d671148997a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 09/42] fix: three scale factors of POSCAR scale Cartesian
 components of lattice vectors

The same as it is done for the Cartesian coordinates of atoms.
---
 src/wulfric/io/_vasp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 7e2a83c..4547cf7 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -103,9 +103,8 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Scale x, y and z components of each lattice vector
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From e156175ac5483b787d1f08b13133312e06fccb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 10/42] fix: error message of dump_poscar for the atoms of
 unknown species

KeyError was raised instead of ValueError.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 4547cf7..24b688a 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -234,7 +234,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From 9ed44b5cbd24d5c5056ececa73e297e4fbddd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 11/42] fix: dump_poscar replaces every new line symbol in the
 comment

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 24b688a..366a17c 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -219,7 +219,7 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = comment.replace("\n", " ").replace("\r", " ")
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From a42ce6187908420b5420d508b3e96b122ad91be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 12/42] fix: load_poscar accepts path to the directory with
 POSCAR file

As documented. IsADirectoryError was raised.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 366a17c..5010b22 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From 73ed3c8701b689acf549ab5da09eb6e3c9961001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 13/42] fix: close files opened by load_poscar and dump_poscar

---
 src/wulfric/io/_vasp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 5010b22..81dd2cb 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -70,6 +70,9 @@ def load_poscar(file_object=None):
 
     """
 
+    # Files that are opened here have to be closed here as well
+    close_file = file_object is None or isinstance(file_object, str)
+
     # Open file if needed
     if file_object is None:
         try:
@@ -92,6 +95,8 @@ def load_poscar(file_object=None):
                 )
 
     lines = file_object.readlines()
+    if close_file:
+        file_object.close()
 
     comment = lines[0].strip()
 
@@ -256,8 +261,9 @@ def dump_poscar(
             atom_species[atom[0]] += 1
         atom_coordinates.append(atom[1])
 
-    # Open file if needed
-    if isinstance(file_object, str):
+    # Open file if needed. Files that are opened here have to be closed here as well
+    close_file = isinstance(file_object, str)
+    if close_file:
         file_object = open(file_object, "w", encoding="utf-8")
 
     # Write
@@ -285,3 +291,6 @@ def dump_poscar(
                 f"{coordinate[component_index]:{decimals + 5}.{decimals}f} "
             )
         file_object.write("\n")
+
+    if close_file:
+        file_object.close()
-- 
2.43.0


From 6a8cf73e7f9385faae5ad2007610cbd797f8a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 14/42] fix: handedness of the Niggli cell
 (implementation="wulfric")

Step 3 was testing the sign of the product with one tolerance, step 4 the signs of
factors with another. If some factor is almost zero, then matrix with determinant -1
was used, that changes handedness of the cell and breaks the reduction.
---
 src/wulfric/cell/_niggli.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..b4a9baf 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -72,8 +72,18 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
     return condition, (A, B, C, xi, eta, zeta), trans_matrix
 
 
+def _is_product_positive(xi, eta, zeta, eps):
+    # Sign of the product is defined by the signs of the factors, so that both step 3 and
+    # step 4 (condition and transformation matrix) distinguish the same three cases
+    # (negative, zero, positive) for each of them.
+    n_positive = sum(compare_with_tolerance(_, ">", 0, eps=eps) for _ in (xi, eta, zeta))
+    n_negative = sum(compare_with_tolerance(_, "<", 0, eps=eps) for _ in (xi, eta, zeta))
+
+    return n_positive + n_negative == 3 and n_negative % 2 == 0
+
+
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _is_product_positive(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +115,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _is_product_positive(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From 477f388c9188d027689aaf1a15e3cc57fcbb80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 15/42] fix: get_niggli does not return None when spglib fails

---
 src/wulfric/cell/_niggli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index b4a9baf..5b87e98 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -367,7 +367,10 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             raise ImportError(
                 "spglib is not installed. Please install it with `pip install spglib`"
             )
-        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        niggli_cell = spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        if niggli_cell is None:
+            raise RuntimeError("spglib failed to find the niggli cell.")
+        return niggli_cell
     elif implementation != "wulfric":
         raise ValueError(
             f"Implementation {implementation} is not supported. "
-- 
2.43.0


From f9bf63c7e5364a7947f558aa1b1f061b702096bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 16/42] fix: HPKOT transformation matrix from conventional to
 primitive cell for hR lattice

---
 .../api/constants/hpkot_conventional_to_primitive.rst       | 6 +++---
 src/wulfric/constants/_hpkot_convention.py                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/source/api/constants/hpkot_conventional_to_primitive.rst b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
index 87922f2..64de842 100644
--- a/docs/source/api/constants/hpkot_conventional_to_primitive.rst
+++ b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
@@ -90,9 +90,9 @@ Data are from the Table 3 of [1]_.
         ),
         "hR" : np.array(
             [
-                [1.0, -0.5, -0.5],
-                [0.5, 0.5, -1.0],
-                [0.5, 0.5, 0.5],
+                [2 / 3, -1 / 3, -1 / 3],
+                [1 / 3, 1 / 3, -2 / 3],
+                [1 / 3, 1 / 3, 1 / 3],
             ]
         ),
         "mP" : np.array(
diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..6c70513 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From f2adc7ae3215a4606a347f3cd011673c8f7b3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 17/42] fix: SC conventional cell of hR crystals whose second
 angle differs from the other two

---
 src/wulfric/crystal/_conventional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index f6ea57f..8bde854 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -519,7 +519,7 @@ def _sc_get_conventional_hR(
             ]
         )
     elif cwt(alpha, "==", 180 - beta, eps=angle_tolerance) and cwt(
-        beta, "==", gamma, eps=angle_tolerance
+        alpha, "==", gamma, eps=angle_tolerance
     ):  # -> -a1, a2, -a3
         matrix = np.array(
             [
-- 
2.43.0


From 15e1d051c0b974ee6a7c5cd19c1241a7c12a7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 18/42] fix: get_spglib_types returned the list of the given
 atoms itself

---
 src/wulfric/_spglib_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_spglib_interface.py b/src/wulfric/_spglib_interface.py
index 8aaed38..d4011fb 100644
--- a/src/wulfric/_spglib_interface.py
+++ b/src/wulfric/_spglib_interface.py
@@ -358,7 +358,7 @@ def get_spglib_types(atoms):
     validate_atoms(atoms=atoms, raise_errors=True)
 
     if "spglib_types" in atoms:
-        spglib_types = atoms["spglib_types"]
+        spglib_types = list(atoms["spglib_types"])
     else:
         if "species" not in atoms and "names" in atoms:
             # Try to deduce species automatically from names
-- 
2.43.0


From a4f587575d1f59965af331f51ab9b2140d24e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 19/42] fix: get_unique_names returned the list of names of the
 given atoms itself

---
 src/wulfric/crystal/_atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..df27862 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -269,4 +269,4 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
                 unique_names[i] += str(counter[name][0])
                 counter[name][0] += 1
 
-    return unique_names
+    return list(unique_names)
-- 
2.43.0


From 56da30954daa46fcf734f47a629d8584ec3cd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 20/42] fix: valid colors of Pd and Er in ATOM_COLORS

---
 src/wulfric/constants/_atoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_atoms.py b/src/wulfric/constants/_atoms.py
index 11ecbc9..0f9ac15 100644
--- a/src/wulfric/constants/_atoms.py
+++ b/src/wulfric/constants/_atoms.py
@@ -316,7 +316,7 @@ ATOM_COLORS = {
     "Tc": "#3B9E9E",
     "Ru": "#248F8F",
     "Rh": "#0A7D8C",
-    "Pd": "#6985",
+    "Pd": "#006985",
     "Ag": "#C0C0C0",
     "Cd": "#FFD98F",
     "In": "#A67573",
@@ -338,7 +338,7 @@ ATOM_COLORS = {
     "Tb": "#30FFC7",
     "Dy": "#1FFFC7",
     "Ho": "#00FF9C",
-    "Er": "#",
+    "Er": "#00E675",
     "Tm": "#00D452",
     "Yb": "#00BF38",
     "Lu": "#00AB24",
-- 
2.43.0


From 3262ac1c60d516ac538b9647b9045087c0d8c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 21/42] fix: get_transformation_matrix accepts nested lists as
 transformed_cell

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..f169301 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.array(transformed_cell).T
-- 
2.43.0


From fac39a64a4026929e42a650857c6da1db9c418ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 22/42] fix: cure_negative accepts one atom with the position
 given as a list

---
 src/wulfric/crystal/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..35fb238 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,7 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
+    min_values = np.array(atoms["positions"][0])
     for position in atoms["positions"][1:]:
         min_values = np.minimum(min_values, position)
 
-- 
2.43.0


From 285eeaa7873ae5d6afc13522ff00e496a27af972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 23/42] fix: axes of figures cover all subpaths of the plotted
 k-path

---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..091e286 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -764,17 +764,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From ae221fc1d5822c5ac97e156ec091d28bb7d67209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 24/42] fix: axes of figures cover plotted objects away from
 the origin and flat ones

---
 src/wulfric/_plotly_engine.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 091e286..aa3c339 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -125,9 +125,18 @@ class PlotlyEngine:
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            limits = np.array(
+                [
+                    self.x_range[(row, col)],
+                    self.y_range[(row, col)],
+                    self.z_range[(row, col)],
+                ]
+            )
+            # Margins of the same size for all axes, so that neither of them has zero length
+            margin = 0.025 * (limits[:, 1] - limits[:, 0]).max()
+            if margin == 0:
+                margin = 0.5
+            xlim, ylim, zlim = limits + margin * np.array([-1, 1])
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From de1155647720711277071f753ad857e85e3267b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 25/42] fix: plot_atoms() accepts one color and any notation of
 color

---
 src/wulfric/_plotly_engine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index aa3c339..eac51ec 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -51,7 +51,11 @@ _LEGEND_SETTINGS = {
 # Source: https://gamedev.stackexchange.com/questions/38536/given-a-rgb-color-x-how-to-find-the-most-contrasting-color-y
 def _get_good_contrast(hex_color):
     hex_color = hex_color[1:]
-    R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
+    try:
+        R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
+    except ValueError:
+        # Other notations of color that are supported by plotly
+        return "#000000"
 
     gamma = 2.2
     L = 0.2126 * R**gamma + 0.7152 * G**gamma + 0.0722 * B**gamma
@@ -1038,7 +1042,10 @@ class PlotlyEngine:
 
             colors = [ATOM_COLORS[_] for _ in species]
 
-        text_color = [_get_good_contrast(color) for color in colors]
+        if isinstance(colors, str):
+            text_color = _get_good_contrast(colors)
+        else:
+            text_color = [_get_good_contrast(color) for color in colors]
 
         # Prepare hover info
         if add_hoverinfo:
-- 
2.43.0


From e5e3e14b67d62126ac43b3bdb07bf93f81ce08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 26/42] fix: hpkot_get_example("oA", with_inversion=True)
 raises ValueError as documented

---
 src/wulfric/crystal/_hpkot_examples/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_hpkot_examples/__init__.py b/src/wulfric/crystal/_hpkot_examples/__init__.py
index fdad11f..3982adb 100644
--- a/src/wulfric/crystal/_hpkot_examples/__init__.py
+++ b/src/wulfric/crystal/_hpkot_examples/__init__.py
@@ -69,11 +69,6 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
            Computational Materials Science, 128, pp.140-184.
     """
 
-    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
-        raise ValueError(
-            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
-        )
-
     supported_symbols = list(HPKOT_EXTENDED_BL_SYMBOLS)
 
     supported_symbols += list(set([_[:2] for _ in supported_symbols]))
@@ -90,6 +85,11 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
         else:
             extended_bl_symbol += "1"
 
+    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
+        raise ValueError(
+            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
+        )
+
     POSCAR_filename = os.path.join(
         os.path.split(os.path.abspath(__file__))[0], "POSCAR-files", extended_bl_symbol
     )
-- 
2.43.0


From 411215e562d8e33b1eea69526479ac9ab9ba967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 27/42] fix: logo() keeps the order of more than seven lines of
 information

---
 src/wulfric/_package_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/_package_info.py b/src/wulfric/_package_info.py
index 03a3ad1..c4cc04c 100644
--- a/src/wulfric/_package_info.py
+++ b/src/wulfric/_package_info.py
@@ -138,10 +138,10 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
             after = len(info) - len(cat) - before
             for i in range(len(info)):
                 if i < before or i >= len(info) - after:
-                    logo_info.append(f"{info[i - before]:^{N - n}}")
+                    logo_info.append(f"{info[i]:^{N - n}}")
                 else:
                     logo_info.append(
-                        f"{info[i - before]:^{N - n}}{cat[i - before]:^{n}}"
+                        f"{info[i]:^{N - n}}{cat[i - before]:^{n}}"
                     )
 
     logo_info = [f"{comment}{x:^{line_length}}\n" for x in logo_info]
-- 
2.43.0


From c5e8678cd6d60410eb61b8f161094b3d9095cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 28/42] fix: logo(comment=False) does not start lines with
 False

---
 src/wulfric/_package_info.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_package_info.py b/src/wulfric/_package_info.py
index c4cc04c..b8b6afe 100644
--- a/src/wulfric/_package_info.py
+++ b/src/wulfric/_package_info.py
@@ -118,10 +118,10 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
         line_length = N
     if isinstance(comment, bool) and comment:
         comment = "# "
-    elif comment is not None:
-        comment = str(comment)
-    else:
+    elif comment is None or comment is False:
         comment = ""
+    else:
+        comment = str(comment)
 
     logo_info = [f"{x:^{N}}" for x in logo]
     if len(info) > 0:
-- 
2.43.0


From e11cbb3ff7eaf01a5dad711ec7298bc1bfdb7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 29/42] fix: ensure_000 accepts positions given as tuples

---
 src/wulfric/crystal/_basic_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index 35fb238..068a741 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -172,6 +172,10 @@ def ensure_000(atoms) -> None:
         [0.25, 0.35, 0.375]
     """
 
+    # Tuples do not support the assignment of individual components
+    if any(isinstance(position, tuple) for position in atoms["positions"]):
+        atoms["positions"] = [list(position) for position in atoms["positions"]]
+
     for i in range(len(atoms["positions"])):
         for j in range(3):
             poscomp = atoms["positions"][i][j]
-- 
2.43.0


From 8cbde3b961ff6fbc2953aac3516bae4ac467d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 30/42] fix: document the default of flat in get_lattice_points

---
 src/wulfric/cell/_voronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_voronoi.py b/src/wulfric/cell/_voronoi.py
index f3cb0fb..7bb24ab 100644
--- a/src/wulfric/cell/_voronoi.py
+++ b/src/wulfric/cell/_voronoi.py
@@ -51,7 +51,9 @@ def get_lattice_points(cell, range=(1, 1, 1), relative=False, flat=True):
         * ``-range[2] <= r_3 <= range[2]``
     relative : bool, default False
         Whether to return relative coordinates.
-    flat : bool, default False
+    flat : bool, default True
+        Whether to return a flat list of points. See below for the shape of the returned
+        array.
 
     Returns
     -------
-- 
2.43.0


From 15744ffa34f313cf8e2a7540f01b5d9f2637e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:36 +0000
Subject: [PATCH 31/42] fix: get_unique_names returned names that are not
 unique

---
 src/wulfric/crystal/_atoms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index df27862..be03680 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -253,6 +253,12 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
 
     if names_are_not_unique and strategy == "all":
         unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
+        # "A1" with index 1 and "A" with index 11 are both "A11"
+        if len(unique_names) != len(set(unique_names)):
+            width = len(str(len(unique_names)))
+            unique_names = [
+                f"{name}{i + 1:0{width}}" for i, name in enumerate(atoms["names"])
+            ]
 
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
@@ -262,11 +268,16 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
 
+        # Names with an index must not coincide with any other returned name
+        used_names = {name for name in counter if counter[name][1] == 1}
         for i in range(len(unique_names)):
             name = unique_names[i]
             total = counter[name][1]
             if total > 1:
+                while f"{name}{counter[name][0]}" in used_names:
+                    counter[name][0] += 1
                 unique_names[i] += str(counter[name][0])
+                used_names.add(unique_names[i])
                 counter[name][0] += 1
 
     return list(unique_names)
-- 
2.43.0


From 837e59cca8a0c4b503648710fd8e9b7d4d5baa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 32/42] fix: compare lengths with distance_tolerance in ORCF
 and MCLC variations

---
 src/wulfric/crystal/_sc_variation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_sc_variation.py b/src/wulfric/crystal/_sc_variation.py
index a56f593..71f24ae 100644
--- a/src/wulfric/crystal/_sc_variation.py
+++ b/src/wulfric/crystal/_sc_variation.py
@@ -107,7 +107,8 @@ def _ORCF_variation(
             f'(convention="SC"): ORCF variation. a < b < c is not satisfied with {distance_tolerance} tolerance.'
         )
 
-    expression = 1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2
+    # Has the units of length, as distance_tolerance does
+    expression = conv_a**3 * (1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2)
     if cwt(expression, "==", 0, eps=distance_tolerance):
         return "ORCF3"
     elif cwt(expression, ">", 0, eps=distance_tolerance):
@@ -215,15 +216,16 @@ def _MCLC_variation(
     elif cwt(prim_k_gamma, ">", 90, eps=angle_tolerance):
         return "MCLC1"
     elif cwt(prim_k_gamma, "<", 90, eps=angle_tolerance):
-        expression = (
+        # Has the units of length, as distance_tolerance does
+        expression = conv_b * (
             conv_b * cos(conv_alpha) / conv_c
             + conv_b**2 * sin(conv_alpha) ** 2 / conv_a**2
         )
-        if cwt(expression, "==", 1, eps=distance_tolerance):
+        if cwt(expression, "==", conv_b, eps=distance_tolerance):
             return "MCLC4"
-        elif cwt(expression, "<", 1, eps=distance_tolerance):
+        elif cwt(expression, "<", conv_b, eps=distance_tolerance):
             return "MCLC3"
-        elif cwt(expression, ">", 1, eps=distance_tolerance):
+        elif cwt(expression, ">", conv_b, eps=distance_tolerance):
             return "MCLC5"
 
 
-- 
2.43.0


From 2ef828114c36f676348717a076facaf526870e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 33/42] fix: measure distances between atoms in units of the
 cell when searching for the primitive cell

---
 src/wulfric/crystal/_primitive.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index ddaa375..f459c28 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,13 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between atoms (between the closest images, in the
+    # units of the cell, as distance_tolerance is given in those units)
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    differences = differences - np.round(differences)
+    distances = np.linalg.norm(differences @ prim_cell, axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From d6d02f4c47ec6ae184284bb241e6768d67f4920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 34/42] fix: errors of the package could not be copied or
 pickled

---
 src/wulfric/_exceptions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wulfric/_exceptions.py b/src/wulfric/_exceptions.py
index 20de1eb..c8a3615 100644
--- a/src/wulfric/_exceptions.py
+++ b/src/wulfric/_exceptions.py
@@ -53,6 +53,8 @@ class ConventionNotSupported(Exception):
     """
 
     def __init__(self, convention: str, supported_conventions: list):
+        # Arguments are required to copy and pickle the exception
+        super().__init__(convention, supported_conventions)
         self.message = (
             f'Convention "{convention}" is not supported. Supported conventions are\n  * '
             + "\n  * ".join(supported_conventions)
@@ -68,6 +70,7 @@ class FailedToDeduceAtomSpecies(Exception):
     """
 
     def __init__(self, name: str):
+        super().__init__(name)
         self.message = f"Tried to deduce name from '{name}'. Failed."
 
     def __str__(self):
@@ -80,6 +83,7 @@ class NiggliReductionFailed(Exception):
     """
 
     def __init__(self, max_iterations: int):
+        super().__init__(max_iterations)
         self.message = f"Niggli reduction algorithm reached maximum amount of iterations: {max_iterations}"
 
     def __str__(self):
@@ -88,6 +92,7 @@ class NiggliReductionFailed(Exception):
 
 class PotentialBugError(Exception):
     def __init__(self, error_summary):
+        super().__init__(error_summary)
         self.message = (
             error_summary
             + "\nIf you see this error, than there might be a bug in wulfric."
-- 
2.43.0


From 7cec91335acaaa4e8ab0ee35877ba950a5850a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:18 +0000
Subject: [PATCH 35/42] fix: get_path_and_points listed a convention it does
 not support

---
 src/wulfric/kpoints/_path_and_points.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wulfric/kpoints/_path_and_points.py b/src/wulfric/kpoints/_path_and_points.py
index 67312f4..8a22656 100644
--- a/src/wulfric/kpoints/_path_and_points.py
+++ b/src/wulfric/kpoints/_path_and_points.py
@@ -268,6 +268,10 @@ def get_path_and_points(
     else:
         validate_spglib_data(cell=cell, atoms=atoms, spglib_data=spglib_data)
 
+    # The list of supported conventions differs from the one of get_conventional()
+    if convention.lower() not in ["hpkot", "sc"]:
+        raise ConventionNotSupported(convention, supported_conventions=["HPKOT", "SC"])
+
     conventional_cell, _ = get_conventional(
         cell=cell, atoms=atoms, convention=convention, spglib_data=spglib_data
     )
-- 
2.43.0


From de8ca5ba2d63fd95c7c2ee35de3bcc47b0da6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 36/42] fix: Kpoints refuses repeated names and non-integer n
 on construction

---
 src/wulfric/_kpoints_class.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..309bb57 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -110,13 +110,16 @@ class Kpoints:
                 f"Amount of names ({len(names)}) does not match amount of points ({len(coordinates)})."
             )
 
+        if len(set(names)) != len(names):
+            raise ValueError(f"Names of the points have to be unique, got {list(names)}.")
+
         self.hs_coordinates = dict(
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
         self.hs_names = list(names)
 
-        self._n = n
+        self.n = n
 
         self._path = None
         if path is None:
@@ -368,7 +371,7 @@ class Kpoints:
 
     @n.setter
     def n(self, new_n):
-        if not isinstance(new_n, int):
+        if not isinstance(new_n, (int, np.integer)):
             raise ValueError(
                 f'n has to be integer. Given: {new_n} of type "{type(new_n)}"'
             )
-- 
2.43.0


From 0a9c6dcb03e5043c4600686fdc483b10cd308852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 37/42] fix: default path of Kpoints for less than two points
 and for names with separators

---
 src/wulfric/_kpoints_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index 309bb57..7604645 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -123,7 +123,8 @@ class Kpoints:
 
         self._path = None
         if path is None:
-            path = "-".join(self.hs_names)
+            # There is no path through less than two points
+            path = [self.hs_names] if len(self.hs_names) > 1 else []
         self.path = path
 
     @staticmethod
-- 
2.43.0


From 69f855986886cf467929aff3ea6eaaf69347c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 38/42] fix: hs_table of Kpoints without points

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index 7604645..f5fa259 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -575,7 +575,7 @@ class Kpoints:
         """
 
         d = decimals
-        nd = max([len(name) for name in self.hs_names])
+        nd = max([len("Name")] + [len(name) for name in self.hs_names])
         table = [
             (
                 f"{'Name':<{nd}}  "
-- 
2.43.0


From bf2e828f62ccb50cdaa6cfa8751ddfbb71261d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 39/42] fix: path of Kpoints of an unsupported type is refused
 with ValueError

---
 src/wulfric/_kpoints_class.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index f5fa259..e46cdef 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -327,6 +327,10 @@ class Kpoints:
 
                 subpath = [str(name) for name in subpath]
                 new_path.append(subpath)
+        else:
+            raise ValueError(
+                f'Expected a string or a list of lists as a path, got "{new_path}"'
+            )
 
         # Check if all points are defined.
         for subpath in new_path:
-- 
2.43.0


From 71058ed3a2f681710f93330bc9ca12063555fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 40/42] fix: error of sc_get_example lists the supported names
 in a definite order

---
 src/wulfric/cell/_sc_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_sc_examples.py b/src/wulfric/cell/_sc_examples.py
index f6c6c47..8bbc8a7 100644
--- a/src/wulfric/cell/_sc_examples.py
+++ b/src/wulfric/cell/_sc_examples.py
@@ -945,7 +945,7 @@ def sc_get_example(lattice_variation: str = None):
             f'There is no example of "{lattice_variation}" Bravais lattice. '
             "Available examples are:\n"
         )
-        for name in correct_inputs:
+        for name in sorted(correct_inputs):
             message += f"  * {name}\n"
         raise ValueError(message)
 
-- 
2.43.0


From 8a6e0ad06a877a3be290ed7b878a54c52daf678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 41/42] fix: error of hpkot_get_example lists the supported
 symbols in a definite order

---
 src/wulfric/crystal/_hpkot_examples/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_hpkot_examples/__init__.py b/src/wulfric/crystal/_hpkot_examples/__init__.py
index 3982adb..38adb9c 100644
--- a/src/wulfric/crystal/_hpkot_examples/__init__.py
+++ b/src/wulfric/crystal/_hpkot_examples/__init__.py
@@ -71,7 +71,7 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
 
     supported_symbols = list(HPKOT_EXTENDED_BL_SYMBOLS)
 
-    supported_symbols += list(set([_[:2] for _ in supported_symbols]))
+    supported_symbols += sorted(set([_[:2] for _ in supported_symbols]))
 
     if extended_bl_symbol not in supported_symbols:
         raise ValueError(
-- 
2.43.0


From c22f37fa32801f219a9e66220de8c58d1223b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:03 +0000
Subject: [PATCH 42/42] fix: points() and flat_points() of Kpoints return
 arrays for an empty path

---
 src/wulfric/_kpoints_class.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index e46cdef..449a159 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -487,6 +487,11 @@ class Kpoints:
                     points = new_points
                 else:
                     points = np.concatenate((points, new_points))
+
+        # Empty path
+        if points is None:
+            points = np.zeros((0, 3))
+
         return points
 
     # It can not just call for points and flatten them,
@@ -533,6 +538,11 @@ class Kpoints:
                 else:
                     delta += flat_points[-1]
                     flat_points = np.concatenate((flat_points, delta))
+
+        # Empty path
+        if flat_points is None:
+            flat_points = np.zeros(0)
+
         return flat_points
 
     ################################################################################
-- 
2.43.0

