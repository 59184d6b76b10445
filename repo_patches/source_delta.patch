From 7c785bff30a30921d8247520dfaa06355a4c86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 01/25] fix: 3D elasticity/viscosity operators mixed up mu and
 lambda

---
 .../dynamics/factory/_dynamics_factory_3d.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/conmech/dynamics/factory/_dynamics_factory_3d.py b/conmech/dynamics/factory/_dynamics_factory_3d.py
index 65411b3..ef5c676 100644
--- a/conmech/dynamics/factory/_dynamics_factory_3d.py
+++ b/conmech/dynamics/factory/_dynamics_factory_3d.py
@@ -152,17 +152,17 @@ class DynamicsFactory3D(AbstractDynamicsFactory):
         return DIMENSION
 
     def calculate_constitutive_matrices(self, W, mu, lambda_):
-        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + lambda_ * W[2, 2]
-        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + lambda_ * W[2, 2]
-        A_33 = mu * W[0, 0] + lambda_ * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
+        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + mu * W[2, 2]
+        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + mu * W[2, 2]
+        A_33 = mu * W[0, 0] + mu * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
 
-        A_21 = mu * W[1, 0] + lambda_ * W[0, 1]
-        A_31 = mu * W[2, 0] + lambda_ * W[0, 2]
-        A_32 = mu * W[2, 1] + lambda_ * W[1, 2]
+        A_12 = mu * W[1, 0] + lambda_ * W[0, 1]
+        A_13 = mu * W[2, 0] + lambda_ * W[0, 2]
+        A_23 = mu * W[2, 1] + lambda_ * W[1, 2]
 
-        A_12 = lambda_ * W[1, 0] + mu * W[0, 1]
-        A_13 = lambda_ * W[2, 0] + mu * W[0, 2]
-        A_23 = lambda_ * W[2, 1] + mu * W[1, 2]
+        A_21 = lambda_ * W[1, 0] + mu * W[0, 1]
+        A_31 = lambda_ * W[2, 0] + mu * W[0, 2]
+        A_32 = lambda_ * W[2, 1] + mu * W[1, 2]
 
         return SM3(
             np.block(
-- 
2.43.0


From a8a680e8d20c96da8feda11cf71da78cd819f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 02/25] fix: nodes that are both contact and dirichlet were
 counted as contact nodes

---
 conmech/mesh/boundaries_factory.py            | 1 +
 examples/BartmanSzwarc_Bagirrov_Ochal_2025.py | 8 ++++----
 examples/Makela_et_al_1998.py                 | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 2ed8921..3fa34da 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -99,6 +99,7 @@ def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     # I
     # D
     # if node is both contact and dirichlet we treat it as dirichlet
+    contact_nodes_count -= sum(bool(is_dirichlet(node)) for node in nodes[:contact_nodes_count])
     nodes, elements, dirichlet_nodes_count = reorder(nodes, elements, is_dirichlet, to_top=False)
     # C
     # N
diff --git a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
index 8b698b3..f78b632 100644
--- a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
+++ b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
@@ -314,8 +314,8 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
             #     # f"time: {runner.step_solver.last_timing}"
             # )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
             y1 = np.asarray([contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u])
             plt.plot(x, y1 / 1e3, label=f"{f:.2e}", color=f"{1-(f/4e7)**2}", linewidth=1.0)
         plt.ylabel("Mechanical Stress [MN/m$^2$]")
@@ -347,11 +347,11 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
                 # f"time: {runner.step_solver.computation_time}"
             )
             # print(state.displaced_nodes[drawer.mesh.contact_indices][:, 1])
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
             if m == methods[0]:
                 for layer in contact.LAYERS:
                     plt.plot(x * 1000, np.full_like(x, -layer) * 1000, color="skyblue")
-            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
+            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
             y1 = [contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             # print(f)
             if m == "qsm":
diff --git a/examples/Makela_et_al_1998.py b/examples/Makela_et_al_1998.py
index f3a8542..dde38ce 100644
--- a/examples/Makela_et_al_1998.py
+++ b/examples/Makela_et_al_1998.py
@@ -229,8 +229,8 @@ def main(config: Config, methods, forces):
                 # f"time: {runner.step_solver.last_timing}"
             )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
             y1 = [MMLV99().subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             plt.plot(x, y1, label=f"{f:.2e}")
         plt.ylabel("Interlaminar binding force [kN/m$^2$]")
-- 
2.43.0


From 50caad321e1b935f8efd154b517a0723b2e4b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 03/25] fix: global optimization of relaxation problems
 iterated without the time

---
 conmech/solvers/optimization/global_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conmech/solvers/optimization/global_optimization.py b/conmech/solvers/optimization/global_optimization.py
index d76faab..1fd54cc 100644
--- a/conmech/solvers/optimization/global_optimization.py
+++ b/conmech/solvers/optimization/global_optimization.py
@@ -48,6 +48,7 @@ class QuasistaticRelaxedGlobalOptimization(GlobalOptimization):
                 absement=self.b_vector,
                 displacement=self.u_vector,
                 time_step=self.time_step,
+                time=self.current_time,
             )
         )
 
-- 
2.43.0


From 21f752854b3184bcd2c44a6077c282825098e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 04/25] fix: schur solver of relaxation problems kept the
 reduced matrix of the first step

---
 conmech/solvers/optimization/schur_complement.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 8475e7f..7b8e76c 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -171,6 +171,13 @@ class QuasistaticRelaxed(SchurComplementOptimization):
                 time=self.current_time,
             )
         )
+        # left hand side depends on time through the relaxation tensor
+        (
+            self._node_relations,
+            self.free_x_contact,
+            self.contact_x_free,
+            self.free_x_free_inverted,
+        ) = self.recalculate_displacement()
         self.node_forces_, self.forces_free = self.recalculate_forces()
 
 
-- 
2.43.0


From b88d3b8accc595680fba272a26c590226a882be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 05/25] fix: repeated solve() continued the clock of the
 previous simulation

---
 conmech/simulations/problem_solver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 72e097a..210b24f 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -395,6 +395,8 @@ class QuasistaticRelaxation(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.b_vector[:] = state.absement.T.ravel().copy()
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.iterate()
@@ -462,6 +464,8 @@ class TimeDependentSolver(ProblemSolver):
         )
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.iterate()
@@ -538,6 +542,9 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.temperature
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.t_vector[:] = state.temperature.T.ravel().copy()
@@ -631,6 +638,9 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.electric_potential
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.p_vector[:] = state.electric_potential.T.ravel().copy()
-- 
2.43.0


From 6ed245018041bbc9c63b1bc5d991571e71823cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 06/25] fix: in-place operations turned stiffness matrices into
 None

---
 conmech/struct/stiffness_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/struct/stiffness_matrix.py b/conmech/struct/stiffness_matrix.py
index c36ae8a..4665bcc 100644
--- a/conmech/struct/stiffness_matrix.py
+++ b/conmech/struct/stiffness_matrix.py
@@ -10,6 +10,7 @@ class StiffnessMatrix:
             self.data += other.data
         else:
             self.data += other
+        return self
 
     def __add__(self, other):
         if isinstance(other, StiffnessMatrix):
@@ -22,6 +23,7 @@ class StiffnessMatrix:
 
     def __imul__(self, other):
         self.data *= other
+        return self
 
     def __mul__(self, other):
         return type(self)(self.data * other)
@@ -45,6 +47,7 @@ class StiffnessMatrix:
             self.data @= other.data
         else:
             self.data @= other
+        return self
 
     def __rmatmul__(self, other):
         return other @ self.data
-- 
2.43.0


From b1a758178cd13e15df523202b386bb9e3e7f1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:35 +0000
Subject: [PATCH 07/25] fix: stress of a state stayed cached after its fields
 were updated

---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index a4646c8..7b846c6 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -33,6 +33,7 @@ class State:
         *,
         update_absement: bool = False,
     ):
+        self.__stress = None
         self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T
         self.displaced_nodes[: self.body.mesh.nodes_count, :] = (
             self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
@@ -44,6 +45,7 @@ class State:
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
+        self.__stress = None
         self.velocity = velocity_vector.reshape((self.body.mesh.dimension, -1)).T
         if update_displacement:
             dt = time - self.time
-- 
2.43.0


From 5c8fad7bf676c9012591a1f3baaa6a9cc1e8abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:35 +0000
Subject: [PATCH 08/25] fix: a failed save left the state without its sources,
 setup and constitutive law

---
 conmech/state/state.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index 7b846c6..b83b313 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -121,13 +121,14 @@ class State:
         cl = self.constitutive_law
         self.constitutive_law = None
 
-        with open(path, "wb+") as file:
-            pickle.dump(self, file)
-
-        self.body.dynamics.force.outer.source = fos
-        self.body.dynamics.force.inner.source = fis
-        self.setup = s
-        self.constitutive_law = cl
+        try:
+            with open(path, "wb+") as file:
+                pickle.dump(self, file)
+        finally:
+            self.body.dynamics.force.outer.source = fos
+            self.body.dynamics.force.inner.source = fis
+            self.setup = s
+            self.constitutive_law = cl
 
     @classmethod
     def load(cls, path):
-- 
2.43.0


From 11c606dfeffc6674e92e206db2842b626ff883dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:52 +0000
Subject: [PATCH 09/25] fix: loads kept cached values after clear() or a change
 of source

---
 conmech/scene/body_forces.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conmech/scene/body_forces.py b/conmech/scene/body_forces.py
index 40dd7b9..bde8926 100644
--- a/conmech/scene/body_forces.py
+++ b/conmech/scene/body_forces.py
@@ -47,6 +47,15 @@ class FieldSource:
     cache: Optional[np.ndarray] = None
     timestamp: Optional[float] = None
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name == "source":  # values of the previous source are no longer valid
+            self.clear()
+
+    def clear(self):
+        self.cache = None
+        self.timestamp = None
+
     def node_source(self, nodes, time: float):
         # pylint: disable=not-callable
         if time != self.timestamp:
@@ -62,8 +71,8 @@ class BodyForces:
         self.outer = FieldSource()
 
     def clear(self):
-        self.inner.cache = None
-        self.outer.cache = None
+        self.inner.clear()
+        self.outer.clear()
 
     def get_integrated_inner_forces(self, time: float):
         inner_forces = self.inner.node_source(self.body.mesh.nodes, time)
-- 
2.43.0


From 1e81428659b3a2902e59ce2498cfcb49e1a435a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 10/25] fix: free_nodes_count subtracted dirichlet nodes twice

---
 conmech/mesh/mesh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh.py b/conmech/mesh/mesh.py
index 289b6c2..3d2729a 100644
--- a/conmech/mesh/mesh.py
+++ b/conmech/mesh/mesh.py
@@ -170,8 +170,7 @@ class Mesh(RawMesh):
 
     @property
     def free_nodes_count(self):
-        # TODO: #65 CHECK
-        return self.independent_nodes_count - self.contact_nodes_count - self.dirichlet_nodes_count
+        return self.independent_nodes_count - self.contact_nodes_count
 
     @property
     def boundary_indices(self):
-- 
2.43.0


From a1a163b62bf3c21a464db272ad910018f8916fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:19 +0000
Subject: [PATCH 11/25] fix: boundary_indices selected internal nodes instead
 of the dirichlet ones

---
 conmech/mesh/boundaries.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries.py b/conmech/mesh/boundaries.py
index 4bd8041..d8ea6cf 100644
--- a/conmech/mesh/boundaries.py
+++ b/conmech/mesh/boundaries.py
@@ -94,7 +94,14 @@ class Boundaries:
 
     @property
     def boundary_indices(self):
-        return slice(self.boundary_nodes_count)
+        # dirichlet nodes are placed at the end, after the internal ones
+        dirichlet_indices = self.boundaries["dirichlet"].node_indices
+        return np.concatenate(
+            (
+                np.arange(self.contact_nodes_count + self.neumann_nodes_count),
+                np.arange(dirichlet_indices.start, dirichlet_indices.stop),
+            )
+        )
 
     @property
     def contact_boundary(self):
-- 
2.43.0


From abcad69eab8d80d83c0f6201dd6582fe7f396c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:19 +0000
Subject: [PATCH 12/25] fix: copies of states lost their products or the
 products' behaviour

---
 conmech/state/products/product.py | 3 ++-
 conmech/state/state.py            | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/conmech/state/products/product.py b/conmech/state/products/product.py
index cd1525c..bed1de2 100644
--- a/conmech/state/products/product.py
+++ b/conmech/state/products/product.py
@@ -30,7 +30,8 @@ class Product:
         return self.copy()
 
     def copy(self) -> "Product":
-        result = Product(self.name)
+        result = type(self).__new__(type(self))
+        result.__dict__.update(self.__dict__)
         result.data = self.data.copy()
         return result
 
diff --git a/conmech/state/state.py b/conmech/state/state.py
index b83b313..5a0ee61 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -157,6 +157,7 @@ class TemperatureState(State):
         copy.velocity[:] = self.velocity
         copy.time = self.time
         copy.temperature[:] = self.temperature
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         return copy
 
 
@@ -176,4 +177,5 @@ class PiezoelectricState(State):
         copy.velocity[:] = self.velocity
         copy.time = self.time
         copy.electric_potential[:] = self.electric_potential
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         return copy
-- 
2.43.0


From 43b0c4162d9058046371357616f6456b89c8b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 13/25] fix: numbered dirichlet conditions were ignored

---
 conmech/dynamics/statement.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 78a11ea..4d330c0 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -55,15 +55,11 @@ class Statement:
         boundaries = self.body.mesh.boundaries.boundaries
         if self.dirichlet_cond_name in boundaries:
             yield self.dirichlet_cond_name
-            return
-        i = 0
-        while True:
-            next_name = self.dirichlet_cond_name + "_" + str(i)
-            if next_name in boundaries:
-                yield next_name
-            else:
-                return
-            i += 1
+        # numbered conditions; those without nodes are not present in boundaries
+        prefix = self.dirichlet_cond_name + "_"
+        numbers = [name[len(prefix) :] for name in boundaries if name.startswith(prefix)]
+        for number in sorted((number for number in numbers if number.isdigit()), key=int):
+            yield prefix + number
 
 
 class StaticPoissonStatement(Statement):
-- 
2.43.0


From cf9d9da05ce7d46c743303160657e7292fefb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 14/25] fix: dynamic piezoelectric problems ignored the
 electric potential in mechanics

---
 conmech/dynamics/statement.py | 2 +-
 conmech/scenarios/problems.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 4d330c0..e934760 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -254,6 +254,6 @@ class DynamicVelocityWithPiezoelectricStatement(DynamicVelocityStatement):
 
         assert var.electric_potential is not None
 
-        A = self.body.dynamics.piezoelectricity.T @ var.electric_potential
+        A = (-1) * self.body.dynamics.piezoelectricity.T @ var.electric_potential
 
         self.right_hand_side += A
diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index bd996fb..61245f3 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -22,6 +22,7 @@ from conmech.dynamics.statement import (
     PiezoelectricStatement,
     DynamicVelocityStatement,
     QuasistaticVelocityWithPiezoelectricStatement,
+    DynamicVelocityWithPiezoelectricStatement,
     QuasistaticRelaxationStatement,
     StaticPoissonStatement,
     WaveStatement,
@@ -221,4 +222,6 @@ class PiezoelectricQuasistaticProblem(
 class PiezoelectricDynamicProblem(
     DynamicDisplacementProblem, PiezoelectricTimeDependentProblem, ABC
 ):
-    pass
+    @classmethod
+    def statement(cls, body) -> Statement:
+        return DynamicVelocityWithPiezoelectricStatement(body)
-- 
2.43.0


From 21e6008dce5668607cfcbe4ecc73689d8757969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 15/25] fix: schur and global methods crashed for problems
 without a contact law

---
 conmech/solvers/optimization/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 90236dd..badab19 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -72,10 +72,10 @@ class Optimization(Solver):
             driving_vector,
         )
         self.loss = make_cost_functional(
-            normal_condition=contact_law.potential_normal_direction,
-            normal_condition_bound=contact_law.normal_bound,
-            tangential_condition=contact_law.potential_tangential_direction,
-            tangential_condition_bound=contact_law.tangential_bound,
+            normal_condition=getattr(contact_law, "potential_normal_direction", None),
+            normal_condition_bound=getattr(contact_law, "normal_bound", None),
+            tangential_condition=getattr(contact_law, "potential_tangential_direction", None),
+            tangential_condition_bound=getattr(contact_law, "tangential_bound", None),
             variable_dimension=statement.dimension_out,
             problem_dimension=statement.dimension_in,
         )
-- 
2.43.0


From 3960a59a5c80f697de2c1aa0349490b6b06fd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 16/25] fix: relaxation operator stayed cached after the
 matrices were reinitialized

---
 conmech/dynamics/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conmech/dynamics/dynamics.py b/conmech/dynamics/dynamics.py
index 13933a3..b6f1233 100644
--- a/conmech/dynamics/dynamics.py
+++ b/conmech/dynamics/dynamics.py
@@ -58,6 +58,10 @@ class Dynamics:
         if elements_density is not None:
             self._w_matrix = self.asembly_w_matrix_with_density(elements_density)
 
+        # the relaxation operator is built from the matrices above
+        self.__relaxation = None
+        self.__relaxation_tensor = None
+
         (
             self.acceleration_operator,
             self.elasticity,
-- 
2.43.0


From 5831c65983971d2289e909834ced192d25b774c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:51 +0000
Subject: [PATCH 17/25] fix: refreshing the solvers of a poisson problem lost
 its solving method

---
 conmech/simulations/problem_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 210b24f..1fc344a 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -88,7 +88,8 @@ class ProblemSolver:
 
     @property
     def solving_method(self) -> str:
-        return str(self.step_solver)
+        # problems without the first equation have only the second solver
+        return str(self.step_solver if self.step_solver is not None else self.second_step_solver)
 
     @solving_method.setter
     def solving_method(self, value: str) -> None:
-- 
2.43.0


From 12b5794f09cb44c4ec932639f97367a88144560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:43 +0000
Subject: [PATCH 18/25] fix: schur method mixed up components of
 three-dimensional problems

---
 .../solvers/optimization/schur_complement.py   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 7b8e76c..858fb75 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -58,7 +58,7 @@ class SchurComplementOptimization(Optimization):
             contact_x_free=self.contact_x_free,
             free_x_free_inverted=self.free_x_free_inverted,
         )
-        if self.statement.dimension_in == 2:
+        if self.statement.dimension_in > 1:
             return node_forces.T, forces_free
         return node_forces.reshape(-1), forces_free.reshape(-1)
 
@@ -105,9 +105,13 @@ class SchurComplementOptimization(Optimization):
         # solution: [xc, xf, xd, yc, yf, yd]
         return solution
 
+    @property
+    def _components(self) -> int:
+        return 2 if self.driving_vector else self.statement.dimension_in
+
     def truncate_free_nodes(self, initial_guess: np.ndarray) -> np.ndarray:
-        if self.statement.dimension_in == 2 or self.driving_vector:
-            _result = initial_guess.reshape(2, -1)
+        if self._components > 1:
+            _result = initial_guess.reshape(self._components, -1)
             _result = _result[:, self.contact_ids]
             _result = _result.reshape(1, -1)
             result = _result
@@ -115,7 +119,7 @@ class SchurComplementOptimization(Optimization):
         return initial_guess[self.contact_ids]
 
     def complement_free_nodes(self, truncated_solution: np.ndarray) -> np.ndarray:
-        if self.statement.dimension_in == 2:
+        if self.statement.dimension_in > 1:
             _result = truncated_solution.reshape(-1, 1)
         else:
             _result = truncated_solution
@@ -126,9 +130,9 @@ class SchurComplementOptimization(Optimization):
         return result
 
     def merge(self, solution_contact: np.ndarray, solution_free: np.ndarray) -> np.ndarray:
-        if self.statement.dimension_in == 2 or self.driving_vector:
-            u_contact = solution_contact.reshape(2, -1)
-            u_free = solution_free.reshape(2, -1)
+        if self._components > 1:
+            u_contact = solution_contact.reshape(self._components, -1)
+            u_free = solution_free.reshape(self._components, -1)
             _result = np.concatenate((u_contact, u_free), axis=1)
             _result = _result.reshape(1, -1)
             result = np.squeeze(np.asarray(_result))
-- 
2.43.0


From dfdb455a7f45d0b2849243584d8e566b055f2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 19/25] fix: facet satisfying both contact and dirichlet
 indicators crashed mesh construction

Such a facet was listed in both boundaries, so there were more boundary surfaces than
internal nodes. As for nodes, dirichlet takes precedence.
---
 conmech/mesh/boundaries_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 3fa34da..42ab498 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -197,7 +197,12 @@ class BoundariesFactory:
 
         boundary_surfaces, boundary_internal_indices, *_ = get_boundary_surfaces(elements)
 
-        contact_boundary = apply_predicate_to_surfaces(boundary_surfaces, initial_nodes, is_contact)
+        # as for nodes, surface which is both contact and dirichlet is treated as dirichlet
+        contact_boundary = apply_predicate_to_surfaces(
+            boundary_surfaces,
+            initial_nodes,
+            lambda n: is_contact(n) and not is_dirichlet(n),
+        )
         dirichlet_boundary = apply_predicate_to_surfaces(
             boundary_surfaces, initial_nodes, is_dirichlet
         )
-- 
2.43.0


From cd5ceb76a468a2d1e1a10889bd353f16c87b92ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 20/25] fix: keep the examples as they were

---
 examples/BartmanSzwarc_Bagirrov_Ochal_2025.py | 8 ++++----
 examples/Makela_et_al_1998.py                 | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
index f78b632..8b698b3 100644
--- a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
+++ b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
@@ -314,8 +314,8 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
             #     # f"time: {runner.step_solver.last_timing}"
             # )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
             y1 = np.asarray([contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u])
             plt.plot(x, y1 / 1e3, label=f"{f:.2e}", color=f"{1-(f/4e7)**2}", linewidth=1.0)
         plt.ylabel("Mechanical Stress [MN/m$^2$]")
@@ -347,11 +347,11 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
                 # f"time: {runner.step_solver.computation_time}"
             )
             # print(state.displaced_nodes[drawer.mesh.contact_indices][:, 1])
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
             if m == methods[0]:
                 for layer in contact.LAYERS:
                     plt.plot(x * 1000, np.full_like(x, -layer) * 1000, color="skyblue")
-            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
+            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
             y1 = [contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             # print(f)
             if m == "qsm":
diff --git a/examples/Makela_et_al_1998.py b/examples/Makela_et_al_1998.py
index dde38ce..f3a8542 100644
--- a/examples/Makela_et_al_1998.py
+++ b/examples/Makela_et_al_1998.py
@@ -229,8 +229,8 @@ def main(config: Config, methods, forces):
                 # f"time: {runner.step_solver.last_timing}"
             )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
             y1 = [MMLV99().subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             plt.plot(x, y1, label=f"{f:.2e}")
         plt.ylabel("Interlaminar binding force [kN/m$^2$]")
-- 
2.43.0


From e646fa49220d090688e533775e52134470f7ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 21/25] fix: time-dependent problems on three-dimensional
 meshes were treated as two-component

---
 conmech/dynamics/statement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index e934760..c6e0832 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -113,7 +113,7 @@ class StaticDisplacementStatement(Statement):
 
 class QuasistaticRelaxationStatement(Statement):
     def __init__(self, body):
-        super().__init__(body, (2, 2))
+        super().__init__(body, (body.mesh.dimension, body.mesh.dimension))
 
     def update_left_hand_side(self, var: Variables):
         assert var.time_step is not None
@@ -135,7 +135,7 @@ class QuasistaticRelaxationStatement(Statement):
 
 class QuasistaticVelocityStatement(Statement):
     def __init__(self, body):
-        super().__init__(body, (2, 2))
+        super().__init__(body, (body.mesh.dimension, body.mesh.dimension))
 
     def update_left_hand_side(self, var: Variables):
         assert var.time_step is not None
@@ -156,7 +156,7 @@ class QuasistaticVelocityStatement(Statement):
 
 class DynamicVelocityStatement(Statement):
     def __init__(self, body):
-        super().__init__(body, (2, 2))
+        super().__init__(body, (body.mesh.dimension, body.mesh.dimension))
 
     def update_left_hand_side(self, var):
         assert var.time_step is not None
-- 
2.43.0


From 0005873aa7c13af7da7f4598405a18139e2925f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:34 +0000
Subject: [PATCH 22/25] fix: coupled problems on three-dimensional meshes
 crashed for odd numbers of nodes

---
 conmech/simulations/problem_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 1fc344a..4e0fd97 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -540,7 +540,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
-        solution = state.velocity.reshape(2, -1)
+        solution = state.velocity.reshape(self.body.mesh.dimension, -1)
         solution_t = state.temperature
 
         self.step_solver.current_time = state.time
@@ -636,7 +636,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
-        solution = state.velocity.reshape(2, -1)
+        solution = state.velocity.reshape(self.body.mesh.dimension, -1)
         solution_t = state.electric_potential
 
         self.step_solver.current_time = state.time
-- 
2.43.0


From 5e8eaa5019e753614be6233e49c315b79c9bcfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:42 +0000
Subject: [PATCH 23/25] fix: cross meshes with small elements name the nodes of
 neighbouring elements

---
 conmech/helpers/nph.py              |  4 ++--
 conmech/mesh/zoo/cross_for_tests.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/conmech/helpers/nph.py b/conmech/helpers/nph.py
index 18741ef..d65348f 100644
--- a/conmech/helpers/nph.py
+++ b/conmech/helpers/nph.py
@@ -29,9 +29,9 @@ def euclidean_norm_numba(vector: np.ndarray) -> np.ndarray:
 
 
 @numba.njit
-def get_node_index_numba(node, nodes):
+def get_node_index_numba(node, nodes, tolerance=0.0001):
     for i, n in enumerate(nodes):
-        if np.sum(np.abs(node - n)) < 0.0001:
+        if np.sum(np.abs(node - n)) < tolerance:
             return i
     raise ArgumentError
 
diff --git a/conmech/mesh/zoo/cross_for_tests.py b/conmech/mesh/zoo/cross_for_tests.py
index d44f260..0f82b71 100644
--- a/conmech/mesh/zoo/cross_for_tests.py
+++ b/conmech/mesh/zoo/cross_for_tests.py
@@ -41,19 +41,25 @@ class CrossMesh(RawMesh):
         nodes, elements, size_x, size_y, edge_len_x, edge_len_y, left_bottom_node
     ):
         index = 0
+        tolerance = 0.0001 * min(edge_len_x, edge_len_y)  # nodes lie closer in smaller meshes
         for i in range(size_x):
             for j in range(size_y):
                 left_bottom = np.array((i * edge_len_x, j * edge_len_y)) + left_bottom_node
 
-                lb = nph.get_node_index_numba(left_bottom, nodes)
-                rb = nph.get_node_index_numba(left_bottom + np.array((edge_len_x, 0.0)), nodes)
+                lb = nph.get_node_index_numba(left_bottom, nodes, tolerance)
+                rb = nph.get_node_index_numba(
+                    left_bottom + np.array((edge_len_x, 0.0)), nodes, tolerance
+                )
                 c = nph.get_node_index_numba(
                     left_bottom + np.array((0.5 * edge_len_x, 0.5 * edge_len_y)),
                     nodes,
+                    tolerance,
+                )
+                lt = nph.get_node_index_numba(
+                    left_bottom + np.array((0.0, edge_len_y)), nodes, tolerance
                 )
-                lt = nph.get_node_index_numba(left_bottom + np.array((0.0, edge_len_y)), nodes)
                 rt = nph.get_node_index_numba(
-                    left_bottom + np.array((edge_len_x, edge_len_y)), nodes
+                    left_bottom + np.array((edge_len_x, edge_len_y)), nodes, tolerance
                 )
 
                 elements[index] = np.array((lb, rb, c))
-- 
2.43.0


From 70b7ce561f9a496b67c5746179042885c642c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:17 +0000
Subject: [PATCH 24/25] fix: coupled problems ignored the minimisation method
 and other options given to solve()

---
 conmech/simulations/problem_solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 4e0fd97..a305acb 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -189,7 +189,7 @@ class ProblemSolver:
         solution = self.step_solver.solve(initial_guess, **kwargs)
         return solution
 
-    def find_solution_uzawa(self, solution, solution_t) -> Tuple[np.ndarray, np.ndarray]:
+    def find_solution_uzawa(self, solution, solution_t, **kwargs) -> Tuple[np.ndarray, np.ndarray]:
         # TODO #95
         norm = np.inf
         old_solution = solution.copy().reshape(-1, 1).squeeze()
@@ -220,7 +220,7 @@ class ProblemSolver:
                     self.step_solver.forces_free,
                 ) = self.step_solver.recalculate_forces()
             ### end iterate
-            solution = self.step_solver.solve(solution)
+            solution = self.step_solver.solve(solution, **kwargs)
             ### iterate 2
             u_vector = old_u_vector + self.step_solver.time_step * solution
             self.second_step_solver.statement.update(
@@ -238,7 +238,7 @@ class ProblemSolver:
                     self.second_step_solver.forces_free,
                 ) = self.second_step_solver.recalculate_forces()
             ### end iterate 2
-            solution_t = self.second_step_solver.solve(solution_t)
+            solution_t = self.second_step_solver.solve(solution_t, **kwargs)
             norm = (
                 np.linalg.norm(solution - old_solution) ** 2
                 + np.linalg.norm(old_solution_t - solution_t) ** 2
@@ -566,7 +566,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
                 self.step_solver.current_time += self.step_solver.time_step
                 self.second_step_solver.current_time += self.second_step_solver.time_step
 
-                solution, solution_t = self.find_solution_uzawa(solution, solution_t)
+                solution, solution_t = self.find_solution_uzawa(solution, solution_t, **kwargs)
 
                 if self.coordinates == "velocity":
                     state.set_velocity(
@@ -663,7 +663,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
                 self.step_solver.current_time += self.step_solver.time_step
                 self.second_step_solver.current_time += self.second_step_solver.time_step
 
-                solution, solution_t = self.find_solution_uzawa(solution, solution_t)
+                solution, solution_t = self.find_solution_uzawa(solution, solution_t, **kwargs)
 
                 if self.coordinates == "velocity":
                     state.set_velocity(
-- 
2.43.0


From 998188c0cd5910e20d2a8a0a410a445fa3aa5c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:17 +0000
Subject: [PATCH 25/25] fix: problems that leave out forces or sources could
 not be solved

---
 conmech/scenarios/problems.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index 61245f3..02a6a6b 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -46,15 +46,11 @@ class Problem(ABC):
         return None
 
     @staticmethod
-    def inner_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
-    ) -> np.ndarray:
+    def inner_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
         return np.zeros_like(x)
 
     @staticmethod
-    def outer_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
-    ) -> np.ndarray:
+    def outer_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
         return np.zeros_like(x)
 
 
@@ -91,21 +87,30 @@ class PoissonProblem(StaticProblem, ABC):
 
     @staticmethod
     def internal_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)
 
     @staticmethod
     def outer_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)
 
 
 @dataclass
 class WaveProblem(DynamicProblem, ABC):
+    # pylint: disable=unused-argument
     propagation: float
 
     @classmethod
     def statement(cls, body) -> Statement:
         return WaveStatement(body)
 
+    @staticmethod
+    def inner_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
+        return np.zeros(1)
+
+    @staticmethod
+    def outer_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
+        return np.zeros(1)
+
     @staticmethod
     def initial_displacement(x: np.ndarray) -> np.ndarray:
         return np.zeros_like(x)
-- 
2.43.0

