From 3b430788dcf70d007f15df2ea0c3901e52a558f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 01/30] fix: make Panel's induced velocity methods evaluate the
 panel's vortices

Panel.calculate_normalized_induced_velocity and calculate_induced_velocity
called methods that the vortex classes no longer have.
---
 pterasoftware/panel.py | 93 +++++++++++++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 19 deletions(-)

diff --git a/pterasoftware/panel.py b/pterasoftware/panel.py
index b581018..8c2f62b 100644
--- a/pterasoftware/panel.py
+++ b/pterasoftware/panel.py
@@ -12,6 +12,8 @@ This module contains the following functions:
 
 import numpy as np
 
+from . import aerodynamics
+
 
 class Panel:
     """This class is used to contain the panels of a wing.
@@ -356,18 +358,9 @@ class Panel:
             This is a vector containing the x, y, and z components of the induced
             velocity.
         """
-        normalized_induced_velocity = np.zeros(3)
-
-        if self.ring_vortex is not None:
-            normalized_induced_velocity += (
-                self.ring_vortex.calculate_normalized_induced_velocity(point=point)
-            )
-        if self.horseshoe_vortex is not None:
-            normalized_induced_velocity += (
-                self.horseshoe_vortex.calculate_normalized_induced_velocity(point=point)
-            )
-
-        return normalized_induced_velocity
+        return self._velocity_from_vortices(
+            point=point, ring_vortex_strength=1.0, horseshoe_vortex_strength=1.0
+        )
 
     def calculate_induced_velocity(self, point):
         """This method calculates the velocity induced at a point by this panel's
@@ -382,16 +375,78 @@ class Panel:
             This is a vector containing the x, y, and z components of the induced
             velocity.
         """
-        induced_velocity = np.zeros(3)
-
+        ring_vortex_strength = None
         if self.ring_vortex is not None:
-            induced_velocity += self.ring_vortex.calculate_induced_velocity(point=point)
+            ring_vortex_strength = self.ring_vortex.strength
+
+        horseshoe_vortex_strength = None
         if self.horseshoe_vortex is not None:
-            induced_velocity += self.horseshoe_vortex.calculate_induced_velocity(
-                point=point
-            )
+            horseshoe_vortex_strength = self.horseshoe_vortex.strength
+
+        return self._velocity_from_vortices(
+            point=point,
+            ring_vortex_strength=ring_vortex_strength,
+            horseshoe_vortex_strength=horseshoe_vortex_strength,
+        )
 
-        return induced_velocity
+    def _velocity_from_vortices(
+        self, point, ring_vortex_strength, horseshoe_vortex_strength
+    ):
+        """This method calculates the velocity induced at a point by this panel's
+        vortices, given the strengths to use for each of them.
+
+        :param point: 1D array
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at.
+        :param ring_vortex_strength: float or None
+            This is the strength to use for the panel's ring vortex. It is ignored if
+            the panel doesn't have a ring vortex.
+        :param horseshoe_vortex_strength: float or None
+            This is the strength to use for the panel's horseshoe vortex. It is
+            ignored if the panel doesn't have a horseshoe vortex.
+        :return: 1D array
+            This is a vector containing the x, y, and z components of the induced
+            velocity.
+        """
+        points = np.expand_dims(np.asarray(point, dtype=float), axis=0)
+        velocity = np.zeros(3)
+
+        if self.ring_vortex is not None:
+            velocity += aerodynamics.collapsed_velocities_from_ring_vortices(
+                points=points,
+                back_right_vortex_vertices=np.expand_dims(
+                    self.ring_vortex.back_right_vertex, axis=0
+                ),
+                front_right_vortex_vertices=np.expand_dims(
+                    self.ring_vortex.front_right_vertex, axis=0
+                ),
+                front_left_vortex_vertices=np.expand_dims(
+                    self.ring_vortex.front_left_vertex, axis=0
+                ),
+                back_left_vortex_vertices=np.expand_dims(
+                    self.ring_vortex.back_left_vertex, axis=0
+                ),
+                strengths=np.array([ring_vortex_strength], dtype=float),
+            )[0]
+        if self.horseshoe_vortex is not None:
+            velocity += aerodynamics.collapsed_velocities_from_horseshoe_vortices(
+                points=points,
+                back_right_vortex_vertices=np.expand_dims(
+                    self.horseshoe_vortex.right_leg.origin, axis=0
+                ),
+                front_right_vortex_vertices=np.expand_dims(
+                    self.horseshoe_vortex.right_leg.termination, axis=0
+                ),
+                front_left_vortex_vertices=np.expand_dims(
+                    self.horseshoe_vortex.left_leg.origin, axis=0
+                ),
+                back_left_vortex_vertices=np.expand_dims(
+                    self.horseshoe_vortex.left_leg.termination, axis=0
+                ),
+                strengths=np.array([horseshoe_vortex_strength], dtype=float),
+            )[0]
+
+        return velocity
 
     def calculate_projected_area(self, n_hat):
         """This method calculates the area of the panel projected on some plane
-- 
2.43.0


From 763d7fe21c2d38970734085d3b4f9e954217253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 02/30] fix: pass the base airplane's weight and reference
 dimensions to its snapshots

AirplaneMovement dropped the weight and any reference area, chord, or span the
user had specified.
---
 pterasoftware/movement.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..a638b23 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -426,8 +426,23 @@ class AirplaneMovement:
         # Create an empty list of airplanes.
         airplanes = []
 
-        # Generate the airplane name.
+        # Generate the non-changing airplane attributes.
         name = self.base_airplane.name
+        weight = self.base_airplane.weight
+
+        # Find which of the base airplane's reference dimensions were specified by the
+        # user, as opposed to being calculated from its main wing. Those must be
+        # passed on. The others must be calculated from each time step's main wing.
+        base_main_wing = self.base_airplane.wings[0]
+        s_ref = self.base_airplane.s_ref
+        if s_ref == base_main_wing.projected_area:
+            s_ref = None
+        c_ref = self.base_airplane.c_ref
+        if c_ref == base_main_wing.mean_aerodynamic_chord:
+            c_ref = None
+        b_ref = self.base_airplane.b_ref
+        if b_ref == base_main_wing.span:
+            b_ref = None
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -439,7 +454,15 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                weight=weight,
+                s_ref=s_ref,
+                c_ref=c_ref,
+                b_ref=b_ref,
+                wings=these_wings,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From 86b1323c31a04df7c99d2d8d396948249dab8a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 03/30] fix: pass unit normal and chordwise vectors to moving
 wings' snapshots

WingMovement and WingCrossSectionMovement dropped them, so wings that don't use
the default orientation were silently meshed with it.
---
 pterasoftware/movement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index a638b23..39bc481 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -804,7 +804,9 @@ class WingMovement:
 
         # Generate the non-changing wing attributes.
         name = self.base_wing.name
+        unit_normal_vector = self.base_wing.unit_normal_vector
         symmetric = self.base_wing.symmetric
+        unit_chordwise_vector = self.base_wing.unit_chordwise_vector
         num_chordwise_panels = self.base_wing.num_chordwise_panels
         chordwise_spacing = self.base_wing.chordwise_spacing
 
@@ -824,7 +826,9 @@ class WingMovement:
                 y_le=y_le,
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
+                unit_normal_vector=unit_normal_vector,
                 symmetric=symmetric,
+                unit_chordwise_vector=unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1208,6 +1212,7 @@ class WingCrossSectionMovement:
 
         # Generate the non-changing wing cross section attributes.
         chord = self.base_wing_cross_section.chord
+        unit_normal_vector = self.base_wing_cross_section.unit_normal_vector
         airfoil = self.base_wing_cross_section.airfoil
         control_surface_deflection = self.control_surface_deflection_base
         control_surface_type = self.base_wing_cross_section.control_surface_type
@@ -1231,6 +1236,7 @@ class WingCrossSectionMovement:
                 y_le=y_le,
                 z_le=z_le,
                 chord=chord,
+                unit_normal_vector=unit_normal_vector,
                 twist=twist,
                 airfoil=airfoil,
                 control_surface_type=control_surface_type,
-- 
2.43.0


From 1b063f2e09d5ca4f6e9a6e54c3254fe5fe67e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 04/30] fix: pass viscosity and external thrust to operating
 point snapshots

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 39bc481..595e860 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1361,6 +1361,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1369,7 +1371,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From dec894ffffd710d3bfcc0729a950c1436bc82de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 05/30] fix: keep the base geometry of wing cross sections in
 movements

The base angles between consecutive leading edges were not the ones used to
reconstruct the positions, so sections with both sweep and dihedral (or that run
towards negative y) were displaced even without any motion. They were also
measured from the inner section's first snapshot instead of from its base
geometry, which stretched wings whose custom motions don't start at zero.
---
 pterasoftware/movement.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 595e860..7e6b318 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -739,33 +739,38 @@ class WingMovement:
                     last_y_les.append(last_wing_cross_section.y_le)
                     last_z_les.append(last_wing_cross_section.z_le)
 
+                # Find the vector from the inner wing cross section's leading edge to
+                # this wing cross section's leading edge in the base geometry.
+                last_base_wing_cross_section = self.wing_cross_section_movements[
+                    wing_cross_section_movement_location - 1
+                ].base_wing_cross_section
+                base_delta_x = this_x_le - last_base_wing_cross_section.x_le
+                base_delta_y = this_y_le - last_base_wing_cross_section.y_le
+                base_delta_z = this_z_le - last_base_wing_cross_section.z_le
+
                 # Find the span between this wing cross section and the inner wing
                 # cross section.
                 wing_cross_section_span = np.sqrt(
-                    (this_x_le - last_x_les[0]) ** 2
-                    + (this_y_le - last_y_les[0]) ** 2
-                    + (this_z_le - last_z_les[0]) ** 2
+                    base_delta_x**2 + base_delta_y**2 + base_delta_z**2
                 )
 
-                if this_y_le != last_y_les[0]:
+                if base_delta_y != 0:
                     # Find the base sweep angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section. This is the elevation angle of
+                    # the vector between their leading edges above the xy plane.
                     base_wing_cross_section_sweep = (
-                        np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
+                        np.arctan2(
+                            base_delta_z, np.sqrt(base_delta_x**2 + base_delta_y**2)
                         )
                         * 180
                         / np.pi
                     )
 
                     # Find the base heave angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section. This is the azimuth angle of
+                    # the vector between their leading edges, measured from the y axis.
                     base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
-                        )
-                        * 180
-                        / np.pi
+                        np.arctan2(base_delta_x, base_delta_y) * 180 / np.pi
                     )
                 else:
                     base_wing_cross_section_sweep = 0.0
-- 
2.43.0


From 340395eb31f988b55b406fa7b7294326e793fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 06/30] fix: count the load on legs shared by steady ring
 vortices once

Two neighboring panels each applied the full net circulation of their shared
chordwise leg, so its force was counted twice.
---
 .../steady_ring_vortex_lattice_method.py          | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..6f4b060 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -494,13 +494,14 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it. The panel to the right of it accounts for the
+                        # other half, as this leg is also that panel's left leg.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -544,12 +545,14 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it. The panel to the left of it accounts for the
+                        # other half, as this leg is also that panel's right leg.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From 5e293dd0ff30022a3aa1b246d17de9bffb87902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 07/30] fix: count the load on legs shared by unsteady ring
 vortices once

Two neighboring panels each applied the full net circulation of their shared
chordwise leg, so its force was counted twice.
---
 .../unsteady_ring_vortex_lattice_method.py        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..e1586f0 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -903,13 +903,14 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it. The panel to the right of it accounts for the
+                        # other half, as this leg is also that panel's left leg.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -953,12 +954,14 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it. The panel to the left of it accounts for the
+                        # other half, as this leg is also that panel's right leg.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From 994280c9afe0555d497c46e70477c0c5f2b3ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 08/30] fix: correct the sign of the unsteady load on panels

The rate-of-change-of-circulation term pointed the wrong way: a wing starting
impulsively at a positive angle of attack had a negative initial lift, and an
accelerating wing felt negative added mass.
---
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index e1586f0..c28f8cc 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -1009,8 +1009,12 @@ class UnsteadyRingVortexLatticeMethodSolver:
                 self.panel_left_vortex_vectors,
             )
         )
+
+        # The unsteady term is negative because a positive ring vortex strength
+        # corresponds to a pressure difference that acts opposite to the direction of
+        # its panel's unit normal vector.
         unsteady_near_field_forces_geometry_axes = (
-            self.current_operating_point.density
+            -self.current_operating_point.density
             * np.expand_dims(
                 (self.current_vortex_strengths - self.last_panel_vortex_strengths),
                 axis=1,
-- 
2.43.0


From bbe1730beb71690ff42d93fa713580860553eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 09/30] fix: keep each time step's wake ring vortices
 unmodified by later steps

All time steps' wings shared the same ring vortex objects, so every earlier
step's wake was moved and aged along with the later ones.
---
 .../unsteady_ring_vortex_lattice_method.py          | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index c28f8cc..52d050e 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -12,6 +12,7 @@ This module contains the following functions:
     None
 """
 
+import copy
 import logging
 
 import numpy as np
@@ -1367,11 +1368,21 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         next_wing.wake_ring_vortex_vertices
                     )
 
-                    this_wing_wake_ring_vortices = (
+                    # Copy this wing's wake ring vortices. Otherwise, moving them for
+                    # the next time step would also modify this time step's wake.
+                    this_wing_wake_ring_vortices = np.empty_like(
                         self.current_airplanes[airplane_id]
                         .wings[wing_id]
                         .wake_ring_vortices
                     )
+                    for position, wake_ring_vortex in np.ndenumerate(
+                        self.current_airplanes[airplane_id]
+                        .wings[wing_id]
+                        .wake_ring_vortices
+                    ):
+                        this_wing_wake_ring_vortices[position] = copy.copy(
+                            wake_ring_vortex
+                        )
 
                     # Find the number of chordwise and spanwise vertices in the next
                     # wing's matrix of wake ring vortex vertices.
-- 
2.43.0


From ee4a0a1df1b778c43b6bd67fba7b0d4555184567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 10/30] fix: clear saved results when running an unsteady
 problem again

A second run appended its wake data and final loads after the first run's.
---
 .../unsteady_ring_vortex_lattice_method.py    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 52d050e..a389b13 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -206,6 +206,15 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear any wake data that was saved by a previous run.
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1616,6 +1625,20 @@ class UnsteadyRingVortexLatticeMethodSolver:
         # Determine if this problem's geometry is static or variable.
         is_static = self.unsteady_problem.max_period == 0
 
+        # Clear any results that were saved by a previous run on this problem.
+        self.unsteady_problem.final_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes = []
+
         # Initialize matrices to hold the forces, moments, and coefficients at each of
         # the time steps that has results.
         total_near_field_forces_wind_axes = np.zeros(
-- 
2.43.0


From acbead9a091e7c76d1a526953dc36e0d5db059c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 11/30] fix: normalize the steady ring solver's influences on
 every run

The influences were normalized by the strengths of the previous run, if any, so
running the solver a second time gave different results.
---
 pterasoftware/steady_ring_vortex_lattice_method.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 6f4b060..0945832 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -316,15 +316,14 @@ class SteadyRingVortexLatticeMethodSolver:
         """
         # Find the matrix of normalized velocities induced at every panel's
         # collocation point by every panel's ring vortex. The answer is normalized
-        # because the solver's vortex strength list was initialized to all ones. This
-        # will be updated once the correct vortex strengths' are calculated.
+        # because it is calculated with unit strengths.
         ring_vortex_influences = aerodynamics.expanded_velocities_from_ring_vortices(
             points=self.panel_collocation_points,
             back_right_vortex_vertices=self.panel_back_right_vortex_vertices,
             front_right_vortex_vertices=self.panel_front_right_vortex_vertices,
             front_left_vortex_vertices=self.panel_front_left_vortex_vertices,
             back_left_vortex_vertices=self.panel_back_left_vortex_vertices,
-            strengths=self.vortex_strengths,
+            strengths=np.ones(self.num_panels),
         )
 
         # Find the matrix of normalized velocities induced at every panel's
-- 
2.43.0


From d2781199d86e470d71a657880f70308a80b459a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 12/30] fix: clear the steady solvers' streamline seed points
 on every run

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 3 +++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..96b9a9c 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -200,6 +200,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
         # iterate through them.
         global_panel_position = 0
 
+        # Clear any seed points that were saved by a previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Iterate through each airplane's wings.
         for airplane in self.airplanes:
             for wing in airplane.wings:
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 0945832..f799578 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -264,6 +264,9 @@ class SteadyRingVortexLatticeMethodSolver:
         # iterate through them.
         global_panel_position = 0
 
+        # Clear any seed points that were saved by a previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Iterate through each airplane's wings.
         for airplane in self.airplanes:
             for wing in airplane.wings:
-- 
2.43.0


From 9b5378448209de62bcfd52a14ddfb0726e50f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 13/30] fix: clear panel vortices left by another steady solver

Solving a problem with one steady solver after another left both solvers'
vortices on the panels.
---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 3 +++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 96b9a9c..5fc361d 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -181,6 +181,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
                         front_left_vortex_vertex = panel.front_left_vortex_vertex
                         front_right_vortex_vertex = panel.front_right_vortex_vertex
 
+                        # Clear any ring vortex left by another solver.
+                        panel.ring_vortex = None
+
                         # Initialize the horseshoe vortex at this panel.
                         panel.horseshoe_vortex = aerodynamics.HorseshoeVortex(
                             finite_leg_origin=front_right_vortex_vertex,
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index f799578..67d29de 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -215,6 +215,9 @@ class SteadyRingVortexLatticeMethodSolver:
                         front_left_vortex_vertex = panel.front_left_vortex_vertex
                         front_right_vortex_vertex = panel.front_right_vortex_vertex
 
+                        # Clear any horseshoe vortex left by another solver.
+                        panel.horseshoe_vortex = None
+
                         # Define the back left and right vortex vertices based on
                         # whether the panel is along the trailing edge or not.
                         if not panel.is_trailing_edge:
-- 
2.43.0


From 09b660c0d90595c493b8cd30010ab299bc7613ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 14/30] fix: read existing results in the unsteady trim
 analysis

It read attributes that don't exist, so it failed on its first iteration.
---
 pterasoftware/trim.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..8d707f5 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -283,12 +283,22 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        # Get the airplane's final load coefficients if the movement is static, or its
+        # cycle-averaged load coefficients if it isn't.
+        if this_problem.max_period == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
@@ -314,7 +324,7 @@ def analyze_unsteady_trim(
             raise StopIteration
 
         current_arguments.clear()
-        current_arguments.extend([np.nan, np.nan, np.nan, np.nan])
+        current_arguments.extend([np.nan, np.nan, np.nan])
 
         return objective
 
-- 
2.43.0


From 22da451cb962b593456b68072389d2b30eb46d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 15/30] fix: reject unsteady trim starting points outside of
 their bounds

As in the steady analysis, instead of only logging an error.
---
 pterasoftware/trim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index 8d707f5..1a9d56c 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -225,16 +225,16 @@ def analyze_unsteady_trim(
     base_beta = operating_point.beta
 
     if base_velocity < velocity_bounds[0] or base_velocity > velocity_bounds[1]:
-        trim_logger.error(
+        raise Exception(
             "The operating point's velocity must be within the specified velocity "
             "bounds."
         )
     if base_alpha < alpha_bounds[0] or base_alpha > alpha_bounds[1]:
-        trim_logger.error(
+        raise Exception(
             "The operating point's alpha must be within the specified alpha bounds."
         )
     if base_beta < beta_bounds[0] or base_beta > beta_bounds[1]:
-        trim_logger.error(
+        raise Exception(
             "The operating point's beta must be within the specified beta bounds."
         )
 
-- 
2.43.0


From b8ae541070e72efc4071daca2605c38b5a0d09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:20 +0000
Subject: [PATCH 16/30] fix: print the final loads of unsteady problems with
 static geometry

print_unsteady_results failed on them, as they don't have cycle-averaged loads.
---
 pterasoftware/output.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..4223215 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -973,20 +973,34 @@ def print_steady_results(steady_solver):
 
 def print_unsteady_results(unsteady_solver):
     """This function prints the final cycle-averaged of the forces, moments,
-    force coefficients, and moment coefficients calculated by an unsteady solver.
+    force coefficients, and moment coefficients calculated by an unsteady solver. If
+    the problem's geometry is static, it prints the final values instead.
 
     :param unsteady_solver: UnsteadyRingVortexLatticeMethodSolver or
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    unsteady_problem = unsteady_solver.unsteady_problem
+
+    # Problems with static geometry have final loads instead of cycle-averaged ones.
+    if unsteady_problem.max_period == 0:
+        forces = unsteady_problem.final_near_field_forces_wind_axes
+        moments = unsteady_problem.final_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = unsteady_problem.final_mean_near_field_forces_wind_axes
+        moments = unsteady_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From 496f2783f18919d1e42fa7e8628a5317d975e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:20 +0000
Subject: [PATCH 17/30] fix: animate scalars of problems with only final
 results

animate failed because it looked for results in the skipped time steps.
---
 pterasoftware/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 4223215..ba4adaa 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -379,8 +379,9 @@ def animate(
     if show_scalars:
 
         # Now iterate through each time step and gather all the scalars for its list
-        # of airplanes. These values will be used to configure the color map.
-        for airplanes in step_airplanes:
+        # of airplanes, skipping those steps that don't have results. These values
+        # will be used to configure the color map.
+        for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
 
-- 
2.43.0


From 11615bf14e6d30de8b6ff0864f74e84c98b06233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:20 +0000
Subject: [PATCH 18/30] fix: save animations of problems with time steps longer
 than a second

Their frame rate was rounded down to zero.
---
 pterasoftware/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index ba4adaa..8e2c4ca 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -341,6 +341,8 @@ def animate(
     if requested_fps > 50:
         speed = 50 / requested_fps
     actual_fps = math.floor(requested_fps * speed)
+    if actual_fps == 0:
+        actual_fps = requested_fps * speed
 
     # Initialize the plotter and get the color map.
     plotter = pv.Plotter(window_size=window_size, lighting=None)
-- 
2.43.0


From 820b17d1a5e9a9d5cf02b7377cf21b78f097de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 19/30] fix: keep at least one spanwise panel per section in
 convergence analyses

---
 pterasoftware/convergence.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..a6f731f 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -15,7 +15,6 @@ This module contains the following functions:
     unsteady problem."""
 
 import logging
-import math
 import time
 
 import numpy as np
@@ -204,8 +203,8 @@ def analyze_steady_convergence(
                                 / (section_standard_mean_chord * panel_aspect_ratio)
                             )
 
-                            this_num_spanwise_panels = math.ceil(
-                                this_num_spanwise_panels
+                            this_num_spanwise_panels = max(
+                                this_num_spanwise_panels, 1
                             )
                         else:
                             this_num_spanwise_panels = 0
@@ -778,8 +777,8 @@ def analyze_unsteady_convergence(
                                         )
                                     )
 
-                                    this_num_spanwise_panels = math.ceil(
-                                        this_num_spanwise_panels
+                                    this_num_spanwise_panels = max(
+                                        this_num_spanwise_panels, 1
                                     )
                                 else:
                                     this_num_spanwise_panels = 0
-- 
2.43.0


From 52f4b76ddff3de9610a8a8af1a1f5be589cb2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 20/30] fix: repanel airfoils with repeated x coordinates or a
 leading edge behind x=0

---
 pterasoftware/geometry.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..b5aa4fe 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -1099,16 +1099,34 @@ class Airfoil:
         # Generate a cosine-spaced list of points from 0 to 1.
         cosine_spaced_x_values = functions.cosspace(0, 1, n_points_per_side)
 
+        # Order both surfaces' coordinates from the leading to the trailing edge,
+        # and leave out the points that are not behind the point before them.
+        upper_original_coordinates = np.flipud(upper_original_coordinates)
+        upper_original_coordinates = upper_original_coordinates[
+            np.diff(upper_original_coordinates[:, 0], prepend=-np.inf) > 0
+        ]
+        lower_original_coordinates = lower_original_coordinates[
+            np.diff(lower_original_coordinates[:, 0], prepend=-np.inf) > 0
+        ]
+
         # Create interpolated functions for the x and y values of the upper and lower
         # surfaces as a function of the chord fractions
         upper_func = sp_interp.PchipInterpolator(
-            x=np.flip(upper_original_coordinates[:, 0]),
-            y=np.flip(upper_original_coordinates[:, 1]),
+            x=upper_original_coordinates[:, 0], y=upper_original_coordinates[:, 1]
         )
         lower_func = sp_interp.PchipInterpolator(
             x=lower_original_coordinates[:, 0], y=lower_original_coordinates[:, 1]
         )
 
+        # The surfaces can be too steep near the leading edge to be extrapolated. If
+        # the leading edge is behind x=0, hold its y value in front of it.
+        upper_x_values = np.maximum(
+            cosine_spaced_x_values, upper_original_coordinates[0, 0]
+        )
+        lower_x_values = np.maximum(
+            cosine_spaced_x_values, lower_original_coordinates[0, 0]
+        )
+
         # Find the x and y coordinates of the upper and lower surfaces at each of the
         # cosine-spaced x values.
         x_coordinates = np.hstack(
@@ -1116,8 +1134,8 @@ class Airfoil:
         )
         y_coordinates = np.hstack(
             (
-                upper_func(np.flip(cosine_spaced_x_values)),
-                lower_func(cosine_spaced_x_values[1:]),
+                upper_func(np.flip(upper_x_values)),
+                lower_func(lower_x_values[1:]),
             )
         )
 
-- 
2.43.0


From 161700e8088067e2fc1c05a0b78364496d382528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 21/30] fix: find and read every bundled airfoil with a
 mixed-case name or a longer title

---
 pterasoftware/geometry.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index b5aa4fe..26026e6 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -17,6 +17,7 @@ This module contains the following functions:
 """
 
 import importlib.resources
+import re
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -886,11 +887,23 @@ class Airfoil:
                 package="pterasoftware",
             )
 
+            # Find the airfoil file. The case of its name may differ from the
+            # sanitized name's.
+            file_name = name + ".dat"
+            for resource in importlib.resources.files(airfoils).iterdir():
+                if resource.name.lower() == file_name:
+                    file_name = resource.name
+
             # Read the text from the airfoil file.
-            raw_text = importlib.resources.read_text(airfoils, name + ".dat")
+            raw_text = importlib.resources.read_text(
+                airfoils, file_name, errors="replace"
+            )
 
-            # Trim the text at the return characters.
-            trimmed_text = raw_text[raw_text.find("\n") :]
+            # Trim the title, which can take up more than one line.
+            lines = raw_text.splitlines()[1:]
+            while lines and not re.match(r"\s*[-+]?\.?\d", lines[0]):
+                lines = lines[1:]
+            trimmed_text = "\n".join(lines)
 
             # Input the coordinates into a 1D array.
             coordinates_1d = np.fromstring(trimmed_text, sep="\n")
-- 
2.43.0


From ab10d0fe4dcd37e2f0a29262c8c1e99ad8f90223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:47 +0000
Subject: [PATCH 22/30] fix: repanel airfoils whose noses droop in front of
 their leading edge

---
 pterasoftware/geometry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 26026e6..7023f38 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -1113,13 +1113,19 @@ class Airfoil:
         cosine_spaced_x_values = functions.cosspace(0, 1, n_points_per_side)
 
         # Order both surfaces' coordinates from the leading to the trailing edge,
-        # and leave out the points that are not behind the point before them.
+        # and leave out the points that are not behind all of the points before them.
         upper_original_coordinates = np.flipud(upper_original_coordinates)
         upper_original_coordinates = upper_original_coordinates[
-            np.diff(upper_original_coordinates[:, 0], prepend=-np.inf) > 0
+            np.diff(
+                np.maximum.accumulate(upper_original_coordinates[:, 0]), prepend=-np.inf
+            )
+            > 0
         ]
         lower_original_coordinates = lower_original_coordinates[
-            np.diff(lower_original_coordinates[:, 0], prepend=-np.inf) > 0
+            np.diff(
+                np.maximum.accumulate(lower_original_coordinates[:, 0]), prepend=-np.inf
+            )
+            > 0
         ]
 
         # Create interpolated functions for the x and y values of the upper and lower
-- 
2.43.0


From 34e1e05a0ea00981904cdb314917d3f2aee96c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 23/30] fix: keep the leading edge of airfoils whose control
 surfaces swing past it

---
 pterasoftware/geometry.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7023f38..2a2a945 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -16,6 +16,7 @@ This module contains the following functions:
     None
 """
 
+import copy
 import importlib.resources
 import re
 
@@ -747,6 +748,10 @@ class Airfoil:
         # Initialize the airfoil name.
         self.name = name
 
+        # Initialize the index of the leading edge point, which is only known in
+        # advance for flapped airfoils.
+        self._leading_edge_index = None
+
         # Check if the user supplied coordinates.
         if coordinates is not None:
             self.coordinates = coordinates
@@ -967,6 +972,11 @@ class Airfoil:
             This is the index of the leading edge point.
         """
 
+        # A flapped airfoil's control surface may be deflected past its leading edge,
+        # so use its known leading edge index.
+        if self._leading_edge_index is not None:
+            return self._leading_edge_index
+
         # Find the index of the coordinate pair with the minimum value of the x
         # coordinate. This is the leading edge index.
         leading_edge_index = np.argmin(self.coordinates[:, 0])
@@ -1161,6 +1171,7 @@ class Airfoil:
         # Stack the coordinates together and return them.
         coordinates = np.column_stack((x_coordinates, y_coordinates))
         self.coordinates = coordinates
+        self._leading_edge_index = None
 
     def add_control_surface(self, deflection=0.0, hinge_point=0.75):
         """This method returns a version of the airfoil with a control surface added
@@ -1222,9 +1233,12 @@ class Airfoil:
         coordinates = np.vstack((upper_coordinates, lower_coordinates[1:, :]))
 
         # Initialize the new, flapped airfoil and return it.
-        flapped_airfoil = Airfoil(
-            name=self.name + " flapped", coordinates=coordinates, repanel=False
-        )
+        flapped_airfoil = copy.copy(self)
+        flapped_airfoil.name = self.name + " flapped"
+        flapped_airfoil.repanel = False
+        flapped_airfoil.coordinates = coordinates
+        flapped_airfoil._leading_edge_index = upper_coordinates.shape[0] - 1
+        flapped_airfoil.populate_mcl_coordinates()
         return flapped_airfoil
 
     def draw(self):
-- 
2.43.0


From 975c80322be89fc88ab3921388fc89f5a393b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 24/30] fix: keep the base airplane's reference dimensions in
 all of its snapshots

Reference dimensions that happened to equal those of the main wing were
recalculated from each time step's main wing, so the loads of different time
steps were normalised differently.
---
 pterasoftware/movement.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 7e6b318..a1792c2 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -429,20 +429,9 @@ class AirplaneMovement:
         # Generate the non-changing airplane attributes.
         name = self.base_airplane.name
         weight = self.base_airplane.weight
-
-        # Find which of the base airplane's reference dimensions were specified by the
-        # user, as opposed to being calculated from its main wing. Those must be
-        # passed on. The others must be calculated from each time step's main wing.
-        base_main_wing = self.base_airplane.wings[0]
         s_ref = self.base_airplane.s_ref
-        if s_ref == base_main_wing.projected_area:
-            s_ref = None
         c_ref = self.base_airplane.c_ref
-        if c_ref == base_main_wing.mean_aerodynamic_chord:
-            c_ref = None
         b_ref = self.base_airplane.b_ref
-        if b_ref == base_main_wing.span:
-            b_ref = None
 
         # Iterate through the time steps.
         for step in range(num_steps):
-- 
2.43.0


From 934f0ab54fe35cb3b99e7272895c2ef4f4018d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:40 +0000
Subject: [PATCH 25/30] fix: keep the hinge point in flapped airfoils

Leaving it out shortened the mean camber line, so a deflection also
moved the mesh ahead of the hinge by tiny amounts. The ring vortices of
neighbouring strips then nearly coincided, and induced huge velocities
on one another.
---
 pterasoftware/geometry.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 2a2a945..85c3869 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -1209,6 +1209,14 @@ class Airfoil:
         upper_minus_mcl_before = self.upper_minus_mcl[:split_index, :]
         upper_minus_mcl_after = self.upper_minus_mcl[split_index:, :]
 
+        # Interpolate to find the upper minus mean camber line vector at the hinge.
+        upper_minus_mcl_hinge = np.array(
+            [
+                np.interp(hinge_point[0], self.mcl_coordinates[:, 0], component)
+                for component in np.transpose(self.upper_minus_mcl)
+            ]
+        )
+
         # Rotate the mean camber line coordinates and upper minus mean camber line
         # vectors.
         new_mcl_coordinates_after = (
@@ -1221,12 +1229,15 @@ class Airfoil:
             rotation_matrix @ np.transpose(upper_minus_mcl_after)
         )
 
-        # Assemble the new, flapped airfoil.
+        # Assemble the new, flapped airfoil. The hinge point is part of it, so that the
+        # lengths along its mean camber line are those of the original airfoil.
+        # Otherwise, the deflection would also slightly move the points ahead of the
+        # hinge which are found using their fraction of the mean camber line's length.
         new_mcl_coordinates = np.vstack(
-            (mcl_coordinates_before, new_mcl_coordinates_after)
+            (mcl_coordinates_before, hinge_point, new_mcl_coordinates_after)
         )
         new_upper_minus_mcl = np.vstack(
-            (upper_minus_mcl_before, new_upper_minus_mcl_after)
+            (upper_minus_mcl_before, upper_minus_mcl_hinge, new_upper_minus_mcl_after)
         )
         upper_coordinates = np.flipud(new_mcl_coordinates + new_upper_minus_mcl)
         lower_coordinates = new_mcl_coordinates - new_upper_minus_mcl
-- 
2.43.0


From d07efe26796b58361c042bae25db21cff12ff8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:17 +0000
Subject: [PATCH 26/30] fix: shed the wake halfway between unequally deflected
 neighbors

It was shed from the left one of them, so that models which are
symmetric from left to right had side forces, rolling moments, and
yawing moments.
---
 .../unsteady_ring_vortex_lattice_method.py    | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index a389b13..a895caf 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -1165,6 +1165,18 @@ class UnsteadyRingVortexLatticeMethodSolver:
                                 next_panel.ring_vortex.back_left_vertex
                             )
 
+                            # If differently deflected control surfaces separate this
+                            # panel from the one to its left, use the point halfway
+                            # between them, so as to favor neither side.
+                            if spanwise_position > 0:
+                                next_panel_to_left = next_wing.panels[
+                                    chordwise_position, spanwise_position - 1
+                                ]
+                                next_front_left_vertex = (
+                                    next_front_left_vertex
+                                    + next_panel_to_left.ring_vortex.back_right_vertex
+                                ) / 2
+
                             # Add this to the new row of wake ring vortex vertices.
                             first_row_of_wake_ring_vortex_vertices[
                                 0, spanwise_position
@@ -1332,6 +1344,20 @@ class UnsteadyRingVortexLatticeMethodSolver:
                                 0, spanwise_position
                             ] = next_panel.ring_vortex.back_left_vertex
 
+                            # If differently deflected control surfaces separate this
+                            # panel from the one to its left, use the point halfway
+                            # between them, so as to favor neither side.
+                            if spanwise_position > 0:
+                                next_panel_to_left = next_wing.panels[
+                                    chordwise_position, spanwise_position - 1
+                                ]
+                                first_row_of_wake_ring_vortex_vertices[
+                                    0, spanwise_position
+                                ] = (
+                                    next_panel.ring_vortex.back_left_vertex
+                                    + next_panel_to_left.ring_vortex.back_right_vertex
+                                ) / 2
+
                             if spanwise_position == (this_wing.num_spanwise_panels - 1):
                                 # If the panel object is at the right edge of the
                                 # wing, add its back right ring vortex vertex to the
-- 
2.43.0


From 6f35735d9b7228f8dae2776d9f4e289e3f5e837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 27/30] fix: clear panel vortices left by steady solvers in
 unsteady runs

Running the unsteady solver on a problem whose steps had been solved with a
steady solver left the horseshoe vortices on the panels next to the new ring
vortices, so that panels reported the velocities of both.
---
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index a895caf..9e5d483 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -523,6 +523,9 @@ class UnsteadyRingVortexLatticeMethodSolver:
                             front_left_vortex_vertex = panel.front_left_vortex_vertex
                             front_right_vortex_vertex = panel.front_right_vortex_vertex
 
+                            # Clear any horseshoe vortex left by another solver.
+                            panel.horseshoe_vortex = None
+
                             # Define the back left and right vortex vertices based on
                             # whether the panel is along the trailing edge or not.
                             if not panel.is_trailing_edge:
-- 
2.43.0


From 6eae4d4257bfcc205fb905d6b9eba7e895f5f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 28/30] fix: keep trim searches' global stage within their
 bounds

dual_annealing doesn't pass its bounds on to the local minimizer once
minimizer_kwargs is given, so the global stage could stop at, and return, a
trim point outside of the bounds.
---
 pterasoftware/trim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index 1a9d56c..4054d5d 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -187,6 +187,7 @@ def analyze_steady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
@@ -355,6 +356,7 @@ def analyze_unsteady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
-- 
2.43.0


From 2964f328a7cf61b01a8f7a980c0ec1767bd84b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 29/30] fix: keep wing planes and orientations in convergence
 studies

---
 pterasoftware/convergence.py | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index a6f731f..29e7e42 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -183,17 +183,18 @@ def analyze_steady_convergence(
                             next_ref_wing_cross_section = ref_wing_cross_sections[
                                 ref_wing_cross_section_id + 1
                             ]
-                            # ToDo: Modify this to allow for new geometry with custom
-                            #  planes for the wing cross sections. As of now,
-                            #  it fails for vertical wings.
-                            section_length = (
-                                next_ref_wing_cross_section.y_le
-                                - ref_wing_cross_section.y_le
+                            # Measure the section's length along the wing's unit
+                            # normal vector (the direction of the wing's span).
+                            section_length = abs(
+                                np.dot(
+                                    next_ref_wing_cross_section.leading_edge
+                                    - ref_wing_cross_section.leading_edge,
+                                    ref_wing.unit_normal_vector,
+                                )
                             )
                             root_chord = ref_wing_cross_section.chord
                             tip_chord = next_ref_wing_cross_section.chord
-                            section_area = section_length * (root_chord + tip_chord) / 2
-                            section_standard_mean_chord = section_area / section_length
+                            section_standard_mean_chord = (root_chord + tip_chord) / 2
 
                             # As we can't directly specify the panel aspect ratio,
                             # calculate the number of spanwise panels that
@@ -217,6 +218,7 @@ def analyze_steady_convergence(
                                 y_le=ref_wing_cross_section.y_le,
                                 z_le=ref_wing_cross_section.z_le,
                                 chord=ref_wing_cross_section.chord,
+                                unit_normal_vector=ref_wing_cross_section.unit_normal_vector,
                                 twist=ref_wing_cross_section.twist,
                                 control_surface_type=ref_wing_cross_section.control_surface_type,
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
@@ -240,7 +242,9 @@ def analyze_steady_convergence(
                             x_le=ref_wing.x_le,
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
                             symmetric=ref_wing.symmetric,
+                            unit_chordwise_vector=ref_wing.unit_chordwise_vector,
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -753,21 +757,21 @@ def analyze_unsteady_convergence(
                                             ref_wing_cross_section_movement_id + 1
                                         ].base_wing_cross_section
                                     )
-                                    # ToDo: Modify this to allow for new geometry
-                                    #  with custom planes for the wing cross
-                                    #  sections. As of now, it fails for vertical wings.
-                                    section_length = (
-                                        next_ref_base_wing_cross_section.y_le
-                                        - ref_base_wing_cross_section.y_le
+                                    # Measure the section's length along the wing's
+                                    # unit normal vector (the direction of the wing's
+                                    # span).
+                                    section_length = abs(
+                                        np.dot(
+                                            next_ref_base_wing_cross_section.leading_edge
+                                            - ref_base_wing_cross_section.leading_edge,
+                                            ref_base_wing.unit_normal_vector,
+                                        )
                                     )
                                     root_chord = ref_base_wing_cross_section.chord
                                     tip_chord = next_ref_base_wing_cross_section.chord
-                                    section_area = (
-                                        section_length * (root_chord + tip_chord) / 2
-                                    )
                                     section_standard_mean_chord = (
-                                        section_area / section_length
-                                    )
+                                        root_chord + tip_chord
+                                    ) / 2
 
                                     this_num_spanwise_panels = round(
                                         (section_length * num_chordwise_panels)
@@ -805,6 +809,7 @@ def analyze_unsteady_convergence(
                                     y_le=ref_base_wing_cross_section.y_le,
                                     z_le=ref_base_wing_cross_section.z_le,
                                     chord=ref_base_wing_cross_section.chord,
+                                    unit_normal_vector=ref_base_wing_cross_section.unit_normal_vector,
                                     twist=ref_base_wing_cross_section.twist,
                                     control_surface_type=ref_base_wing_cross_section.control_surface_type,
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
@@ -860,7 +865,9 @@ def analyze_unsteady_convergence(
                                 x_le=ref_base_wing.x_le,
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0


From 1b37aab3bebda7ff00342f09967dc0e81f8c531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 30/30] fix: draw solvers with a single time step and no wake
 yet

---
 pterasoftware/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 8e2c4ca..2f86e4c 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -156,8 +156,8 @@ def draw(
         airplanes = solver.steady_problems[draw_step].airplanes
 
         # If the user wants to show the wake ring vortices, then get their surfaces and
-        # plot them.
-        if show_wake_vortices:
+        # plot them. There aren't any yet if the first step is the only one.
+        if show_wake_vortices and draw_step > 0:
             wake_ring_vortex_surfaces = get_wake_ring_vortex_surfaces(solver, draw_step)
             plotter.add_mesh(
                 wake_ring_vortex_surfaces,
-- 
2.43.0

