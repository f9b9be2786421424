From df62eabc33f9892b81a8b21f51ff29e669ca73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 01/17] fix: panel area of swept panels

The area of a panel was computed as mean span times mean chord, where the
span was taken along the (swept) mid-line. On every swept panel this
overestimates the area. Use the area spanned by the two mid-lines, which is the
true area of every flat panel.
---
 src/lib/pytornado/aero/c_lattice.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/c_lattice.cpp b/src/lib/pytornado/aero/c_lattice.cpp
index cfe5e28..799118e 100644
--- a/src/lib/pytornado/aero/c_lattice.cpp
+++ b/src/lib/pytornado/aero/c_lattice.cpp
@@ -271,7 +271,12 @@ void vlm_lattice(latticestruct* lattice, infostruct* info, statestruct* state,
 
                     // Panel chord through centre
                     double chord = sqrt(chord_x*chord_x + chord_y*chord_y + chord_z*chord_z);
-                    double area = span*chord;
+
+                    // Panel area (mid-lines are not perpendicular to each other on swept panels)
+                    double area_x = chord_y*span_z - chord_z*span_y;
+                    double area_y = chord_z*span_x - chord_x*span_z;
+                    double area_z = chord_x*span_y - chord_y*span_x;
+                    double area = sqrt(area_x*area_x + area_y*area_y + area_z*area_z);
                     double aspect = span/chord;
 
                     if (area > info->area_max) { info->area_max = area; }
-- 
2.43.0


From 0ebcab1a121b0bc730ce299241a4f321471351f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 02/17] fix: check the range of the flow angles

---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..d0d1f79 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -219,7 +219,7 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
+            range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
             if any(range_is_not_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
-- 
2.43.0


From 5754d492cb5a3939fbf93ed4add210e5d1e1683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 03/17] fix: strip only the mirror suffix from names in the
 deformation file

---
 src/lib/pytornado/fileio/native/deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..4f2fbb2 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -64,7 +64,7 @@ def load(aircraft, settings):
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
         if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From 6dd9cd28fd9a6aebc3ce64fddf4a2a9af980344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 04/17] fix: panel number of control surfaces is optional in
 aircraft files

---
 src/lib/pytornado/fileio/native/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..0fd77c6 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,8 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            if control_entry.get('panels', None):
+                control.panels['num_c'] = control_entry['panels'].get('num_c', None)
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From a411c28aa9938a131175c1cc1d314648195daafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 05/17] fix: saving settings must not delete hidden settings in
 memory

---
 src/lib/pytornado/fileio/native/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..baf4067 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -27,6 +27,7 @@ Functions for reading and writing of PyTornado execution settings file.
 Developed at Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import logging
 import json
 from pathlib import Path
@@ -78,10 +79,11 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    # Hidden settings must only be removed from the output
+    output = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(output, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From ea2c3c414dc870911bac7f8869c3f71f5e0728f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 06/17] fix: report singular linear systems

---
 src/lib/pytornado/aero/vlm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..ac8eef8 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -472,9 +472,12 @@ def solver(vlmdata):
     """
 
     logger.info("Solving linear system...")
-    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], _ \
+    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \
         = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
 
+    if info != 0:
+        raise RuntimeError(f"Linear system could not be solved (LAPACK dgesv: info = {info})")
+
 ########
 ########
 ########
-- 
2.43.0


From 4fb21d60b982afa54f668ef123df0b6169b0563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 07/17] fix: mirrored surface parts of wings with symmetry
 plane yz

---
 src/lib/pytornado/objects/aircraft.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..8ecaf33 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1870,6 +1870,10 @@ class StripSubdivision:
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
 
+            # In case of type 3 symmetry, leading and trailing edge are interchanged
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d
+
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
         c_abs = b_sd + xsi_c*(c_sd - b_sd)
@@ -1904,6 +1908,10 @@ class StripSubdivision:
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
 
+        # In case of type 3 symmetry, leading and trailing edge are interchanged
+        if mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
+
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
 
-- 
2.43.0


From 5862ac5ac19634e23d4da8114260f2b25e9a4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 08/17] fix: control surfaces on small wing segments

---
 src/lib/pytornado/objects/aircraft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 8ecaf33..eefcf4f 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2095,7 +2095,10 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
     segment_normal = np.cross(b-a, d-a)
     intersect_plane_normal = np.cross(segment_normal, p_lower-p_upper)
 
-    p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
+    # The tolerance must not depend on the size of the segment
+    epsilon = 1e-6*np.linalg.norm(intersect_plane_normal)*np.linalg.norm(insegment_direction)
+
+    p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner, epsilon)
     xsi_interpol = np.linalg.norm(p_intersect-p_upper)/np.linalg.norm(p_lower-p_upper)
 
     return xsi_interpol
-- 
2.43.0


From 9cdedc40fb3d0cc1940db9de4dce2ad6e75ce3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 09/17] fix: control surfaces ending close to existing
 divisions

---
 src/lib/pytornado/objects/aircraft.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index eefcf4f..9a9cabd 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -901,6 +901,8 @@ class WingSegment:
 
         # CASE 2: There is no more subdivisions before eta_b
         elif eta_b < eta_b_sd1:
+            if (eta_b - sd1.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+                raise ValueError("Refusing to create a control surface with (almost) no span")
             self.add_subdivision(eta_b, eta_b)
 
         # CASE 3: The newly created subdivision ends before desired line
@@ -940,7 +942,13 @@ class WingSegment:
 
             # If the last outer neighbour is larger than required, make a subdivision
             if eta_b < outer_neighbour.rel_vertices['eta_b']:
-                self.add_subdivision(eta_b, eta_b)
+                # The control ends at the existing division if it is very close
+                if (eta_b - outer_neighbour.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+                    sd_list.pop()
+                    sd_list[-1][2] = xsi2
+                    sd_list[-1][4] = xsi_h2
+                else:
+                    self.add_subdivision(eta_b, eta_b)
 
         # Add subarea for all subdivisions
         for row in sd_list:
-- 
2.43.0


From 1595de14aa01890425d06a39e1d881d3c5653d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 10/17] fix: control surfaces crossing very narrow strips

---
 src/lib/pytornado/objects/aircraft.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 9a9cabd..102fab9 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -843,16 +843,14 @@ class WingSegment:
             :outer_neighbour: (obj) outer neighbour or None if no neighbour found
         """
 
-        # Account for numerical inaccuracies
-        eta_a += MIN_ETA_LIMIT/10
-
         eta_diff_min = 1
         outer_neighbour = None
 
         for subdivision in self.subdivision.values():
-            eta_diff = eta_a - subdivision.rel_vertices['eta_a']
+            # Find the closest subdivision to account for numerical inaccuracies
+            eta_diff = abs(eta_a - subdivision.rel_vertices['eta_a'])
 
-            if eta_diff_min > eta_diff >= 0:
+            if eta_diff_min > eta_diff:
                 eta_diff_min = eta_diff
                 outer_neighbour = subdivision
 
-- 
2.43.0


From 5129732cc75da80099b927a1517b366b6874d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 11/17] fix: deformation field must not be modified by queries

---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 102fab9..2b3b84b 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -983,7 +983,8 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        # Pass a copy as the field entry would be modified
+        def_point = get_deformed_point(point, def_field.copy())
         return def_point
 
     def generate(self):
-- 
2.43.0


From d2fa3e4e5c7cf02402a5dc13690f46e41ef6d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 12/17] fix: state parameters set to null are not defined

---
 src/lib/pytornado/objects/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index d0d1f79..ffaae17 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -159,6 +159,11 @@ class FlightState:
         # ----- Make everything into lists -----
         array_lenghts = set()
         for key, value in aero.items():
+            # Parameters set to 'None' (or 'null') are not defined
+            if value is None:
+                self.aero[key] = None
+                continue
+
             if not isinstance(value, list):
                 value = [value]
 
-- 
2.43.0


From 33590834c779eb54554c83bbf5f300ac4c55f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 13/17] fix: settings must not share mutable values with each
 other or with the caller

---
 src/lib/pytornado/objects/settings.py | 3 ++-
 src/lib/pytornado/objects/utils.py    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index a0075a6..8e1718f 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -29,6 +29,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 import os
 import logging
+from copy import deepcopy
 from pathlib import Path
 
 from pytornado.objects.utils import check_dict, get_default_dict
@@ -209,7 +210,7 @@ class Settings:
         """
 
         for key, value in settings_dict.items():
-            self.settings[key] = value
+            self.settings[key] = deepcopy(value)
 
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..e4c919d 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -30,6 +30,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 from collections import OrderedDict
 from collections.abc import MutableMapping
+from copy import deepcopy
 
 
 def check_dict(template_dict, test_dict):
@@ -124,5 +125,6 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        # Mutable default values must not be shared
+        default_dict[key] = deepcopy(value)
     return default_dict
-- 
2.43.0


From 361b3f531470490f598be0996a27ea0bd45fbec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 14/17] fix: options missing in nested settings must have their
 default value

---
 src/lib/pytornado/objects/settings.py |  8 ++++++--
 src/lib/pytornado/objects/utils.py    | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index 8e1718f..0b64d89 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -32,7 +32,7 @@ import logging
 from copy import deepcopy
 from pathlib import Path
 
-from pytornado.objects.utils import check_dict, get_default_dict
+from pytornado.objects.utils import check_dict, get_default_dict, update_nested_dict
 from commonlibs.fileio.paths import ProjectPaths
 
 logger = logging.getLogger(__name__)
@@ -210,7 +210,11 @@ class Settings:
         """
 
         for key, value in settings_dict.items():
-            self.settings[key] = deepcopy(value)
+            # Options missing in 'sub-dictionaries' keep their values
+            if isinstance(value, dict) and isinstance(self.settings.get(key), dict):
+                update_nested_dict(self.settings[key], value)
+            else:
+                self.settings[key] = deepcopy(value)
 
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index e4c919d..a6bcde2 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -91,6 +91,22 @@ def check_dict(template_dict, test_dict):
             check_dict(value, test_dict[key])
 
 
+def update_nested_dict(dictionary, new_values):
+    """
+    Recursively update a dictionary
+
+    Args:
+        :dictionary: Dictionary to be updated
+        :new_values: Dictionary with new values (copied)
+    """
+
+    for key, value in new_values.items():
+        if isinstance(value, dict) and isinstance(dictionary.get(key), dict):
+            update_nested_dict(dictionary[key], value)
+        else:
+            dictionary[key] = deepcopy(value)
+
+
 def get_default_dict(template_dict):
     """
     Return a default dict from a template dictionary
-- 
2.43.0


From 49ffd34def2a356566c4781373af1a229f549029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 15/17] fix: deflections of control surfaces on several wings
 (CPACS)

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..2aea241 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
 
+    # Deflections can only be set when the controls of all wings are known
+    get_aircraft_control_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -285,6 +288,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
+
+def get_aircraft_control_deflections(aircraft, tixi):
+    """
+    Extract the control surface deflections (for all wings)
+
+    Args:
+        :aircraft: Aircraft model
+        :tixi: Tixi handle
+    """
+
     # ----- CONTROL SURFACE DEFLECTION -----
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
-- 
2.43.0


From 12ff50ee9cd6c21562a955f4287126106061827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 16/17] fix: airfoils of segments with reversed direction
 (CPACS)

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 2aea241..302f8b5 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -164,10 +164,14 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # Re-order vertices
         # * A, D should be at root and B, C at tip
         # * This is done so that the segments (thus panel normals point in the correct direction)
+        # * Airfoils must be exchanged if both the leading and the trailing edge are reversed
+        num_reversed = 0
         if b[1] - a[1] < 0.0 or (b[1] == a[1] and b[2] - a[2] < 0.0):
             a, b, c, d = b, a, c, d
+            num_reversed += 1
         if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):
             a, b, c, d = a, b, d, c
+            num_reversed += 1
         if d[0] - a[0] < 0.0:
             a, b, c, d = d, b, c, a
         if c[0] - b[0] < 0.0:
@@ -182,7 +186,8 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         aircraft.wings[wing_uid].segments[segment_uid].vertices['d'] = d
 
         # ----- Set airfoils -----
-        get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment)
+        get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment,
+                              is_reversed=(num_reversed == 2))
 
 
 def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
@@ -340,7 +345,8 @@ def get_aircraft_control_deflections(aircraft, tixi):
         this_control[2].check()
 
 
-def get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment):
+def get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment,
+                          is_reversed=False):
     """
     Extract the aircraft airfoils
 
@@ -351,10 +357,11 @@ def get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_w
         :segment_uid: Name of the segment
         :idx_wing: Index of the wing
         :idx_segment: Index of the segment
+        :is_reversed: (bool) If True, the inner CPACS section is the outer section of the segment
     """
 
     for position in ['inner', 'outer']:
-        if position == 'inner':
+        if (position == 'inner') != is_reversed:
             tigl_func = tigl.wingGetInnerSectionAndElementIndex
         else:
             tigl_func = tigl.wingGetOuterSectionAndElementIndex
-- 
2.43.0


From e48d29b089c48f17050db8ebf5ef9c010ab223d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 17/17] fix: camber rotation axis on the mirrored side of
 xz-symmetric wings

The axis on the mirrored side was taken perpendicular to the outer chord line, so that a
symmetric wing with camber and twist was not loaded symmetrically.
---
 src/lib/pytornado/objects/aircraft.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 2b3b84b..6e0bfe9 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1961,10 +1961,16 @@ class StripSubdivision:
 
         a = subarea_vertices['a']
         b = subarea_vertices['b']
+        c = subarea_vertices['c']
         d = subarea_vertices['d']
 
         ab = b - a
-        ad = d - a
+
+        # In case of type 2 symmetry, the inner chord line of the mirror image is b-c
+        if mirror and self.symmetry == 2:
+            ad = c - b
+        else:
+            ad = d - a
 
         subarea_normal = np.cross(ab, ad)
         rot_axis = np.cross(subarea_normal, ad)
-- 
2.43.0

