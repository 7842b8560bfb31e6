From 9f725d5def267f2812e37daf30365cb87bc3ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 01/54] fix: reject solver answers that were cut off instead of
 filling in zeros

---
 switss/solver/milp.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..8832eeb 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -10,6 +10,32 @@ try:
 except:
     print("milp.py: gurobipy is not installed. Please install it if you intend to use it.")
 
+class _CBC(pulp.PULP_CBC_CMD):
+    """CBC, but a solution file which was not written completely is an error. PuLP would take missing variables to be zero."""
+
+    def readsol_MPS(self, filename, lp, vs, variablesNames, *args, **kwargs):
+        result = super().readsol_MPS(filename, lp, vs, variablesNames, *args, **kwargs)
+        if result[0] == pulp.LpStatusOptimal:
+            with open(filename) as solution_file:
+                text = solution_file.read()
+            # variables without any coefficients are not part of the file
+            used = set(var.name for expr in [lp.objective, *lp.constraints.values()] for var, coeff in expr.items() if coeff != 0)
+            expected = [variablesNames[name] for name in used]
+            complete = text.endswith("\n") and "\0" not in text and set(text.split()).issuperset(expected)
+            if not complete:
+                raise pulp.PulpSolverError("CBC: incomplete solution file")
+        return result
+
+class _GLPK(pulp.GLPK_CMD):
+    """GLPK, but a solution file which was not written completely is an error."""
+
+    def readsol(self, filename):
+        with open(filename) as solution_file:
+            text = solution_file.read()
+        if not text.rstrip().endswith("End of output") or "\0" in text:
+            raise pulp.PulpSolverError("GLPK: incomplete solution file")
+        return super().readsol(filename)
+
 class MILP:
     """
     A MILP can either be initialized through a specification of coefficient matrices and -vectors 
@@ -78,10 +104,10 @@ class MILP:
         elif solver == "cbc":
             cbc_options = ["--integerT","0"]
             self.__pulpmodel.setSolver(
-                pulp.PULP_CBC_CMD(gapRel=1e-9,timeLimit=timeout,msg=print_output,options=cbc_options))
+                _CBC(gapRel=1e-9,timeLimit=timeout,msg=print_output,options=cbc_options))
         elif solver == "glpk":
             glpk_options = ["--tmlim",str(timeout)] if timeout != None else []
-            self.__pulpmodel.setSolver(pulp.GLPK_CMD(msg=print_output,options=glpk_options))
+            self.__pulpmodel.setSolver(_GLPK(msg=print_output,options=glpk_options))
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
-- 
2.43.0


From fdc6d2f1d9658c1c8546c6382e40fe86b6a6efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 02/54] fix: do not report answers of solvers stopped by a
 limit as optimal

---
 switss/solver/milp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 8832eeb..8b9fbda 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -27,14 +27,18 @@ class _CBC(pulp.PULP_CBC_CMD):
         return result
 
 class _GLPK(pulp.GLPK_CMD):
-    """GLPK, but a solution file which was not written completely is an error."""
+    """GLPK, but a solution file which was not written completely is an error, and a feasible solution which was not proven 
+    to be optimal (time limit) is not reported as optimal."""
 
     def readsol(self, filename):
         with open(filename) as solution_file:
             text = solution_file.read()
         if not text.rstrip().endswith("End of output") or "\0" in text:
             raise pulp.PulpSolverError("GLPK: incomplete solution file")
-        return super().readsol(filename)
+        status, values = super().readsol(filename)
+        if text.splitlines()[4][12:] == "INTEGER NON-OPTIMAL":
+            status = pulp.LpStatusNotSolved
+        return status, values
 
 class MILP:
     """
@@ -118,6 +122,8 @@ class MILP:
                     -1:"infeasible", 
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
+        if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
+            status = "notsolved" # stopped early with some feasible solution
         result_vector = np.array([var.value() for var in self.__variables])
         value = self.__pulpmodel.objective.value()
 
-- 
2.43.0


From f5706fec5b9d93f984aa4584283868ffbc92da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 03/54] fix: raise instead of returning values of an LP that
 was not solved to optimality

---
 switss/model/reachability_form.py        | 3 +++
 switss/model/reward_reachability_form.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..2224368 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -600,6 +600,7 @@ p        .. math::
                 max_z_lp.add_constraint([(st_idx,1)],"<=",1)
 
         result = max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "No optimal solution was found (status=%s)." % result.status
         return result.result_vector
 
     def max_z_state_action(self,solver="cbc"):
@@ -645,6 +646,7 @@ p        .. math::
             max_y_lp.add_constraint([(sap_idx,1)],">=",0)
 
         result = max_y_lp.solve(solver=solver)
+        assert result.status == "optimal", "No optimal solution was found (status=%s)." % result.status
         return result.result_vector
 
     def max_y_state(self,solver="cbc"):
@@ -704,6 +706,7 @@ p        .. math::
             pr_max_z_lp.add_constraint([(st_idx,1)],"<=",1)
 
         result = pr_max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "No optimal solution was found (status=%s)." % result.status
         return result.result_vector
 
 
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..8798b86 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -243,6 +243,7 @@ class RewardReachabilityForm:
             max_z_lp.add_constraint([(st_idx,1)],">=",0)
 
         result = max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "No optimal solution was found (status=%s)." % result.status
         return result.result_vector
 
     def max_z_state_action(self,solver="cbc"):
@@ -288,6 +289,7 @@ class RewardReachabilityForm:
             max_y_lp.add_constraint([(sap_idx,1)],">=",0)
 
         result = max_y_lp.solve(solver=solver)
+        assert result.status == "optimal", "No optimal solution was found (status=%s)." % result.status
         return result.result_vector
 
     def max_y_state(self,solver="cbc"):
@@ -345,4 +347,5 @@ class RewardReachabilityForm:
             pr_max_z_lp.add_constraint([(st_idx,1)],">=",0)
 
         result = pr_max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "No optimal solution was found (status=%s)." % result.status
         return result.result_vector
-- 
2.43.0


From 5480532ceae5bd68204cebe3418d7b4243e35d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 04/54] fix: reject certificates with negative entries

---
 switss/certification/certificates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..cccc827 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -110,6 +110,9 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
                 if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
                     return False
 
+    if not (farkas_vec >= -tol).all():
+        return False
+
     res_vec = farkas_matr.dot(farkas_vec)
 
     if sense == "<=":
-- 
2.43.0


From 3562452e89a8ccb64d8f2ac6a90ad96c594fb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 05/54] fix: certificates for upper bounds on minimal
 probabilities in the presence of end components

---
 switss/certification/certificates.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index cccc827..8dd6f44 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -54,7 +54,11 @@ def __get_right_constraint_set(reach_form,mode,sense,threshold):
     assert sense in ["<=","<",">=",">"]
 
     if mode == "min" and sense in ["<=","<"]:
-        return reach_form.fark_y_constraints(threshold)
+        # one may stay in a proper end component, so its states do not need to be left again
+        farkas_matr,rhs = reach_form.fark_y_constraints(threshold)
+        N = farkas_matr.shape[0] - 1
+        rows = [s for s in range(N) if not reach_form.in_proper_ec(s)] + [N]
+        return farkas_matr.tocsr()[rows,:], rhs[rows]
 
     elif mode == "max" and sense in [">=",">"]:
         return reach_form.fark_y_constraints(threshold)
@@ -165,7 +169,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From 8acfd712c106eac737243baaaa536f21ec2a49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 06/54] fix: Farkas constraints of different thresholds do not
 share their right hand side

---
 switss/model/reachability_form.py | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 2224368..a45f999 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -511,19 +511,21 @@ class ReachabilityForm:
         C,N = self.__P.shape
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
-            self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            rhs = self.__fark_z_rhs.copy()
+            rhs[C] = -threshold
+            return self.__fark_z_matr, rhs
 
-        self.__fark_z_rhs = self.to_target.A1.copy()
-        self.__fark_z_rhs.resize(C+1)
-        self.__fark_z_rhs[C] = -threshold
+        rhs = self.to_target.A1.copy()
+        rhs.resize(C+1)
+        rhs[C] = -threshold
 
         delta = np.zeros(N)
         delta[self.initial] = 1
 
-        self.__fark_z_matr = vstack((self.A,-delta))
+        matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        self.__fark_z_rhs, self.__fark_z_matr = rhs.copy(), matr
+        return matr, rhs
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -546,18 +548,20 @@ p        .. math::
         C,N = self.__P.shape
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
-            self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            rhs = self.__fark_y_rhs.copy()
+            rhs[N] = -threshold
+            return self.__fark_y_matr, rhs
 
         b = cast_dok_matrix(self.to_target)
 
-        self.__fark_y_rhs = np.zeros(N+1)
-        self.__fark_y_rhs[self.initial] = 1
-        self.__fark_y_rhs[N] = -threshold
+        rhs = np.zeros(N+1)
+        rhs[self.initial] = 1
+        rhs[N] = -threshold
 
-        self.__fark_y_matr = hstack((self.A,-b)).T
+        matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        self.__fark_y_rhs, self.__fark_y_matr = rhs.copy(), matr
+        return matr, rhs
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From 296de88027ebd97f54a8086a4e117f5dfb2ea754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 07/54] fix: publish lazily computed members only when they are
 complete

---
 switss/model/amdp.py        | 5 +++--
 switss/problem/subsystem.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..104fa95 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -124,10 +124,11 @@ class AbstractMDP(ABC):
         :rtype: Dict[int, Set[int]]
         """        
         if self.__available_actions is None:
-            self.__available_actions = InvertibleDict({})
+            available_actions = InvertibleDict({})
             for idx in range(self.C):
                 state,action = self.index_by_state_action.inv[idx]
-                self.__available_actions.add(state, action)
+                available_actions.add(state, action)
+            self.__available_actions = available_actions
         return self.__available_actions
 
     def add_label(self,state,label):
diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..5c2cfd1 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -62,14 +62,15 @@ class Subsystem:
         the subsystem and 0-entries for all that are not."""
         if self.__subsystem_mask is None:
             C,N = self.__supersys.system.P.shape
-            self.__subsystem_mask = np.zeros(N-2)
+            subsystem_mask = np.zeros(N-2)
             if self.__certform == "max":
                 for index in range(C-2):
                     if self.certificate[index] > 0:
                         (st,_) = self.__supersys.system.index_by_state_action.inv[index]
-                        self.__subsystem_mask[st] = True
+                        subsystem_mask[st] = True
             else:
-                self.__subsystem_mask = self.certificate > 0
+                subsystem_mask = self.certificate > 0
+            self.__subsystem_mask = subsystem_mask
 
         return self.__subsystem_mask
 
-- 
2.43.0


From 4b5a304599f820d2beb21c45ea18346017defcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 08/54] fix: store transition probabilities with full precision

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..9ca95f1 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %s\n" % (source, dest, repr(float(p))))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..9cb915d 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %s\n" % (source, action, dest, repr(float(p))))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 9069d859f166ce00147eaf0227118db1ad019772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 09/54] fix: only the first line of a DTMC transition file is a
 header

---
 switss/model/dtmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 9ca95f1..7dd7956 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -126,10 +126,10 @@ class DTMC(AbstractMDP):
         N = 0
 
         with open(filepath) as tra_file:
-            for line in tra_file:
+            for lineidx, line in enumerate(tra_file):
                 line_split = line.split()
                 # check for first line, which has format "#states #transitions"
-                if len(line_split) == 2:
+                if lineidx == 0:
                     N = int(line_split[0])
                     P.resize((N,N))
                 # all other lines have format "from to prob"
-- 
2.43.0


From c0bb1199cff90d7a82f41e76ac2d7eaa552a03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 10/54] fix: rounding errors of row sums do not become
 transitions to the fail state

---
 switss/model/reachability_form.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index a45f999..9fd6df2 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -328,7 +328,7 @@ class ReachabilityForm:
         if debug:
             print("shape of new_P (%s,%s)" % (new_C,new_N))
 
-        to_target = np.zeros(new_C)
+        to_target, to_fail = np.zeros(new_C), np.zeros(new_C)
 
         # mask for faster access
         target_mask = np.zeros(system.N, dtype=bool)
@@ -345,6 +345,8 @@ class ReachabilityForm:
                     if dest in to_rf_cols:
                         newdest = to_rf_cols[dest]
                         new_P[newidx, newdest] = system.P[idx, dest]
+                    else:
+                        to_fail[newidx] += system.P[idx, dest]
         if debug:
             print("computed transition matrix & to_target")
 
@@ -352,6 +354,7 @@ class ReachabilityForm:
             new_P, 
             new_index_by_state_action,
             to_target, 
+            to_fail, 
             to_rf_rows, 
             system, 
             new_target_label, 
@@ -369,7 +372,7 @@ class ReachabilityForm:
         return rf, to_rf_cols, to_rf_rows
 
     @staticmethod
-    def __initialize_system(P, index_by_state_action, to_target, mapping, configuration, target_label, fail_label):
+    def __initialize_system(P, index_by_state_action, to_target, to_fail, mapping, configuration, target_label, fail_label):
         C,N = P.shape
         P_compl = dok_matrix((C+2, N+2))
         target_state, fail_state = N, N+1
@@ -408,17 +411,14 @@ class ReachabilityForm:
         label_to_states[fail_label].add(fail_state)
         label_to_states[target_label].add(target_state)
 
-        not_to_fail = np.zeros(C)
         for (idx, dest), p in P.items():
-            not_to_fail[idx] += p
             P_compl[idx, dest] = p
 
-        for idx, p_target in enumerate(to_target):
+        for idx, (p_target, p_fail) in enumerate(zip(to_target, to_fail)):
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
-            p_fail = 1 - (p_target + not_to_fail[idx])
             if p_fail > 0:
-                P_compl[idx, fail_state] = p_fail
+                P_compl[idx, fail_state] = min(p_fail, 1)
 
         P_compl[C, target_state] = 1
         P_compl[C+1, fail_state] = 1
-- 
2.43.0


From ba9541654157ade7f94f81d99fddd6827a4d9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 11/54] fix: rounding errors of row sums do not become
 transitions of a subsystem

---
 switss/problem/subsystem.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 5c2cfd1..1ad4223 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -130,31 +130,29 @@ class Subsystem:
         new_P[new_C+1, fail_state] = 1
         new_P[new_C, target_state] = 1
 
-        not_to_fail = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if target >= N-2 or source >= N-2:
+            if source >= N-2 or not state_vector[source]:
                 # P also contains target & fail state - but state_vector only has N-2 entries
                 continue
 
-            if state_vector[source] == True and state_vector[target] == True:
-                new_source = new_to_old_states.inv[source]
+            new_source = new_to_old_states.inv[source]
+            new_row_idx = new_index_by_state_action[(new_source,action)]
+            if target == N-2:
+                new_P[new_row_idx,target_state] = prob
+            elif target < N-2 and state_vector[target] == True:
                 new_target = new_to_old_states.inv[target]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx,new_target] = prob
-                not_to_fail[new_row_idx] += prob
+            else:
+                to_fail[new_row_idx] += prob
 
-        # populate probabilities to fail
-        # maps every target state with probability 1 to itself.
-        for rowidx, p_target in enumerate(reach_form.to_target):
-            (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if state_vector[source] == True:
-                new_source = new_to_old_states.inv[source]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+        # everything else leads to fail
+        for new_row_idx, p_fail in enumerate(to_fail):
+            if p_fail > 0:
+                new_P[new_row_idx, fail_state] = min(p_fail, 1)
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 0acf185366ea404b62f21f63f613308db8cf5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 12/54] fix: keep the action labels of a subsystem

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1ad4223..5f5c5c8 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -116,7 +116,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From e378c15b95bda1f5e6c2179c747c75f7980256a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 13/54] fix: subsystems of reward reachability forms

---
 switss/model/reward_reachability_form.py |  1 +
 switss/problem/subsystem.py              | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 8798b86..3c4b049 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 5f5c5c8..776b628 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -155,13 +155,22 @@ class Subsystem:
             if p_fail > 0:
                 new_P[new_row_idx, fail_state] = min(p_fail, 1)
 
+        new_reward_vector = None
+        if reach_form.system.reward_vector is not None:
+            new_reward_vector = np.zeros(new_C+2)
+            for (new_source,action), new_row_idx in new_index_by_state_action.items():
+                if new_row_idx < new_C:
+                    rowidx = reach_form.system.index_by_state_action[(new_to_old_states[new_source],action)]
+                    new_reward_vector[new_row_idx] = reach_form.system.reward_vector[rowidx]
+
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
         modeltype = type(self.supersys.system)
         model = modeltype(P=new_P, 
             index_by_state_action=new_index_by_state_action, 
             label_to_actions=dict(new_label_to_actions), 
-            label_to_states=dict(new_label_to_states))
+            label_to_states=dict(new_label_to_states),
+            reward_vector=new_reward_vector)
 
         model = ReachabilityForm(
             model, 
@@ -170,6 +179,9 @@ class Subsystem:
             self.supersys.fail_label,
             ignore_consistency_checks=self.__ignore_consistency_checks)
 
+        if isinstance(reach_form, RewardReachabilityForm):
+            model = RewardReachabilityForm(model, new_reward_vector[:-2])
+
         self.__subsys = model
         return model
 
-- 
2.43.0


From cd441ad7c8cd0acf2fc5eb0b6c678f6e6797cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 14/54] fix: label mappings do not share their sets with the
 caller

---
 switss/utils/invertible_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..6107306 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,7 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        self.__d = { k : v.copy() for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From 596e70d1fd6b79d8c78cc6e709424e607766647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 15/54] fix: removing constraints from an (MI)LP

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 8b9fbda..978b590 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -201,7 +201,7 @@ class MILP:
         :param constridx: the name of the constraint
         :type constridx: str
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop("c%d" % constridx)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From 3ca0f50201a5ffdb9a4130aba376d8bc38c7861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 16/54] fix: setting an objective function replaces the
 previous one

---
 switss/solver/milp.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 978b590..2bb11a0 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -84,7 +84,6 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
-        self.__set_objective_function = False
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -124,11 +123,16 @@ class MILP:
                     -3:"undefined"}[self.__pulpmodel.status]
         if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
             status = "notsolved" # stopped early with some feasible solution
-        result_vector = np.array([var.value() for var in self.__variables])
+        result_vector = np.array([self._value(var) for var in self.__variables])
         value = self.__pulpmodel.objective.value()
 
         return SolverResult(status, result_vector, value)
 
+    def _value(self, var):
+        if var.value() is None: # does not occur in the problem, so any value within its bounds will do
+            return next((bound for bound in (var.lowBound, var.upBound) if bound is not None), 0)
+        return var.value()
+
     def _assert_expression(self, expression):
         for idx,(var,coeff) in enumerate(expression):
             assert var >= 0 and var < len(self.__variables), "Variable %s does not exist (@index=%d)." % (var, idx)
@@ -152,12 +156,7 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        if not self.__set_objective_function:
-            self.__set_objective_function = True
-            self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
-        else:
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+        self.__pulpmodel.setObjective(pulp.LpAffineExpression(self._expr_to_pulp(expression)))
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
@@ -369,7 +368,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 0656f73dd6fee5a6f1d4c8f6327cb5c77a335fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 17/54] fix: pass constants and labels to PRISM that are given
 as dictionaries

---
 switss/prism/prism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..48583b4 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -62,14 +62,14 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
-    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
+    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in dict(prism_constants).items()])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
-        for (label_name, label_expr) in extra_labels:
+        for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
 
-- 
2.43.0


From f1f294b2853993fe005e5711ea8e5f2809c9e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 18/54] fix: extra labels start in a new line of the PRISM
 model

---
 switss/prism/prism.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 48583b4..a294c76 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -69,6 +69,8 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
+        if len(extra_labels) > 0:
+            namedtf.write(b"\n") # the model may end in the middle of a line
         for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
-- 
2.43.0


From d00c382fbf9a974320f9718c42c8623ed6d3c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 19/54] fix: exact minimization for minimal rewards needs upper
 bounds

---
 switss/problem/formulations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..01bf9c5 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -212,6 +212,9 @@ def construct_MILP(rf, threshold, mode, labels=None, relaxed=False, known_upper_
         elif status == "optimal":
             upper_bounds = up_res
 
+    # indicators of exact minimization are bounded by 1, which is no bound for the other variables
+    assert relaxed or mode == "max" or upper_bounds is not None, "no upper bounds for exact minimization were found."
+
     if not relaxed and mode == "max" and upper_bounds is None:
         assert modeltype_str == "gurobi", "warning: exact minimization of max-properties only possible via gurobi interface at the moment."
 
-- 
2.43.0


From 25a2f052765909d3fd2425313574fd57bc12440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 20/54] fix: initial weights for labels without any states

---
 switss/problem/qsheurparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..b1e57c0 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -218,7 +218,7 @@ class InverseReachabilityInitializer(Initializer):
         for group in self.groups:
             variables = self.indicator_to_group[group]
             variablecount = len(variables)
-            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount
+            weighted_probability = sum([self.Pr[var] for var in variables])/max(variablecount,1)
             ret.append((group, self.weights[group] * np.min([1e9,1/weighted_probability if weighted_probability > 0 else 1e9])))
 
         return ret
-- 
2.43.0


From 7bf0d16efaffe65c2ad8d92cb16a2cc024f3f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 21/54] fix: error message for negative rewards

---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 104fa95..8b012e6 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %f is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
-- 
2.43.0


From 3b13cf439933e2794b45d1c1442a62debf01f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 22/54] fix: AbstractMDP.strongly_connected_components called a
 method which is not visible from Python

---
 switss/model/amdp.py   |  2 +-
 switss/utils/graph.pyx | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 8b012e6..778a9c9 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -189,7 +189,7 @@ class AbstractMDP(ABC):
         :return: A :math:`N_{S_{\\text{all}}}`-dimensional vector containing the index of the SCC every state belongs to and the number of SCCs.
         :rtype: Tuple[np.ndarray[int],int]
         """        
-        return self.__graph.strongly_connected_components()
+        return self.__graph.all_strongly_connected_components()
 
     def maximal_end_components(self):
         """Returns the Maximal End Components (MECs) of this model.
diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..490d631 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -173,6 +173,29 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the graph.
+    # returns a vector containing for each state the index of its scc, and the number of sccs
+    def all_strongly_connected_components(self):
+        srand(time(NULL))
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef TNode* treap = NULL
+        cdef int compcount = 0
+        cdef int i = 0
+        while i < self.nodecount:
+            treap = add_to_treap(treap,i)
+            i += 1
+
+        compcount = self.strongly_connected_components(treap,sccs)
+        i = 0
+        while i < self.nodecount:
+            ret[i] = sccs[i]-1
+            i += 1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, compcount
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
-- 
2.43.0


From 0bb875450f41efa375bc98f95777f32b5877684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 23/54] fix: command 'minimize' of the command line tool

---
 bin/switss | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..6ee07b6 100755
--- a/bin/switss
+++ b/bin/switss
@@ -82,6 +82,7 @@ def minargs(args):
             methodparams[k] = {C.__name__ : C for C in [
                 InverseResultUpdater
             ]}[methodparams[k]]
+    mode = methodparams.pop("mode")
     method = methodtype(**methodparams)
     vprint("method is %s" % method)
 
@@ -96,10 +97,11 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        assert result.status == "success", "no subsystem was found for instance %s, status is '%s'" % (idx, result.status)
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +109,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
@@ -327,7 +329,7 @@ parser_render.add_argument("-o", "--output", help="output file for storing .svg
 parser_render.add_argument("-vi","--view", action="store_true", help="if given, opens up a window containing rendering of system")
 parser_render.add_argument("-col","--coloring", help="list of labels that define the colors")
 args = parser.parse_args()
-try:
-    func = args.func(args)
-except AttributeError:
+if not hasattr(args, "func"):
     parser.error("too few arguments")
+args.func(args)
+
-- 
2.43.0


From 8cf4862bbdd469eb2f91c63304938bb4d8fdb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 24/54] fix: command 'subsystem' of the command line tool

---
 bin/switss | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/switss b/bin/switss
index 6ee07b6..2077ac8 100755
--- a/bin/switss
+++ b/bin/switss
@@ -2,7 +2,6 @@
 
 import argparse
 import json
-import copy
 import numpy as np
 
 from switss.utils import color_from_hash 
@@ -147,10 +146,10 @@ def subsysargs(args):
         output = "%s-%s" % (output, iteration)
         vprint("generating subsystem %s" % output,end=" - ")
         ss = Subsystem(rf, certificate, minfo["mode"])
-        sys = copy.deepcopy(rf.system)
+        sys = load_model(args)
         for s,inss in enumerate(ss.subsystem_mask):
             if inss:
-                sys.labels_by_state.add(s, args.subsys_label)
+                sys.add_label(s, args.subsys_label)
         sys.save(output)
         vprint("done.")
 
-- 
2.43.0


From cbe9ba5acea8b31be0940b3a0a46085d1de6d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 25/54] fix: a model whose saving was interrupted is not loaded
 with incomplete labels

---
 switss/model/dtmc.py | 21 +++++++++++----------
 switss/model/mdp.py  | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 7dd7956..6e61505 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -103,21 +103,22 @@ class DTMC(AbstractMDP):
         lab_path = filepath + ".lab"
 
         with open(tra_path, "w") as tra_file:
+            # if saving is interrupted, the transition file must not be usable together with incomplete labels
+            with open(lab_path, "w") as lab_file:
+                unique_labels_list = list(self.states_by_label.keys())
+                header = ["%d=\"%s\"" % (i, label) for i,label in enumerate(unique_labels_list)]
+                lab_file.write("%s\n" % (" ".join(header)))
+                for idx, labels in self.labels_by_state.items():
+                    if len(labels) == 0:
+                        continue
+                    labels_str = " ".join(map(str, map(unique_labels_list.index, labels)))
+                    lab_file.write("%d: %s\n" % (idx, labels_str))
+
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
                 tra_file.write("%d %d %s\n" % (source, dest, repr(float(p))))
 
-        with open(lab_path, "w") as lab_file:
-            unique_labels_list = list(self.states_by_label.keys())
-            header = ["%d=\"%s\"" % (i, label) for i,label in enumerate(unique_labels_list)]
-            lab_file.write("%s\n" % (" ".join(header)))
-            for idx, labels in self.labels_by_state.items():
-                if len(labels) == 0:
-                    continue
-                labels_str = " ".join(map(str, map(unique_labels_list.index, labels)))
-                lab_file.write("%d: %s\n" % (idx, labels_str))
-
         return tra_path, lab_path
 
     @classmethod
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 9cb915d..52c3828 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -120,22 +120,23 @@ class MDP(AbstractMDP):
         lab_path = filepath + ".lab"
 
         with open(tra_path, "w") as tra_file:
+            # if saving is interrupted, the transition file must not be usable together with incomplete labels
+            with open(lab_path, "w") as lab_file:
+                unique_labels_list = list(self.states_by_label.keys())
+                header = ["%d=\"%s\"" % (i, label) for i,label in enumerate(unique_labels_list)]
+                lab_file.write("%s\n" % (" ".join(header)))
+                for idx, labels in self.labels_by_state.items():
+                    if len(labels) == 0:
+                        continue
+                    labels_str = " ".join(map(str, map(unique_labels_list.index, labels)))
+                    lab_file.write("%d: %s\n" % (idx, labels_str))
+
             tra_file.write("%d %d %d\n" % (self.N, self.C, self.P.nnz))
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
                     tra_file.write("%d %d %d %s\n" % (source, action, dest, repr(float(p))))
 
-        with open(lab_path, "w") as lab_file:
-            unique_labels_list = list(self.states_by_label.keys())
-            header = ["%d=\"%s\"" % (i, label) for i,label in enumerate(unique_labels_list)]
-            lab_file.write("%s\n" % (" ".join(header)))
-            for idx, labels in self.labels_by_state.items():
-                if len(labels) == 0:
-                    continue
-                labels_str = " ".join(map(str, map(unique_labels_list.index, labels)))
-                lab_file.write("%d: %s\n" % (idx, labels_str))
-
         return tra_path, lab_path
 
     @classmethod
-- 
2.43.0


From 59d4d88ffabcd68330ef178d96365e5fa5adcc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 26/54] fix: exact minimization of maximal rewards needs the
 indices of the state-action pairs

---
 switss/model/reward_reachability_form.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 3c4b049..1092d31 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -35,6 +35,13 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def index_by_state_action(self):
+        """
+        Returns a bidict which maps state-action pairs to indices of the reward vector (without target and fail state), and vice versa
+        """
+        return self.__index_by_state_action
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From 7848e39eb43c0cbf221e39096fdbb83ddc4a5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 27/54] fix: the value of a constant objective function is not
 None

---
 switss/solver/milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 2bb11a0..02f76b1 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -124,7 +124,8 @@ class MILP:
         if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
             status = "notsolved" # stopped early with some feasible solution
         result_vector = np.array([self._value(var) for var in self.__variables])
-        value = self.__pulpmodel.objective.value()
+        objective = self.__pulpmodel.objective or {}
+        value = sum(coeff*self._value(var) for var, coeff in objective.items() if coeff != 0)
 
         return SolverResult(status, result_vector, value)
 
-- 
2.43.0


From cf8504cb25c0c06a3956b4421cdd01958ec43318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 28/54] fix: models keep their own transition matrix, without
 explicitly stored zeros

A sparse matrix with explicitly stored zeros (csr_matrix arithmetic leaves them) produced edges of
probability 0 in the model's graph, so that states that cannot reach the target were kept by reduce();
and a dok_matrix was shared with the caller, whose later changes altered P but not the graph.
---
 switss/model/amdp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 778a9c9..b267186 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -35,8 +35,13 @@ class AbstractMDP(ABC):
         :param vis_config: Used to configure how model is visualized.
         :type vis_config: VisualizationConfig
         """        
-        # transform P into dok_matrix if neccessary
-        self.P = cast_dok_matrix(P)
+        # transform P into dok_matrix if neccessary. This is a copy of its own (the given matrix may change later on),
+        # without explicitly stored zeros, which are no transitions
+        P = cast_dok_matrix(P)
+        self.P = dok_matrix(P.shape, dtype=P.dtype)
+        for (i,j), p in P.items():
+            if p != 0:
+                self.P[i,j] = p
         # for fast column & row slicing
         self.__P_csc = self.P.tocsc()
         self.__P_csr = self.P.tocsr()
-- 
2.43.0


From f11365e1ff5d8fef76d9eb08e8c2eb0c246d6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 29/54] fix: a model built from another model's label mapping
 does not share it

add_label on either of them changed both.
---
 switss/model/amdp.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index b267186..1c11108 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -49,14 +49,9 @@ class AbstractMDP(ABC):
         # transform mapping into bidict if neccessary (applying bidict to bidict doesn't change anything)
         self.index_by_state_action = bidict(index_by_state_action)
         self.reward_vector = reward_vector
-        if isinstance(label_to_actions,InvertibleDict):
-            self.__label_to_actions_invertible = label_to_actions
-        else:
-            self.__label_to_actions_invertible = InvertibleDict(label_to_actions, is_default=True)
-        if isinstance(label_to_states,InvertibleDict):
-            self.__label_to_states_invertible = label_to_states
-        else:
-            self.__label_to_states_invertible = InvertibleDict(label_to_states, is_default=True)
+        # the mappings are copied, also those taken from another model
+        self.__label_to_actions_invertible = InvertibleDict(dict(label_to_actions.items()), is_default=True)
+        self.__label_to_states_invertible = InvertibleDict(dict(label_to_states.items()), is_default=True)
         self.__check_correctness()
         self.__available_actions = None
         self.__graph = Graph(self.P, self.index_by_state_action)
-- 
2.43.0


From ece0976367e5033e62ab03e3fd93898895a746d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 30/54] fix: add up the coefficients of a variable that occurs
 twice in an expression

Only the last one was used (the Gurobi variant adds them up).
---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 02f76b1..363a82e 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -140,7 +140,10 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var, 0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
-- 
2.43.0


From 6b139b235aa4c5110765bd7c34f8bae0cea3516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 31/54] fix: a problem solved without an objective can be
 solved again

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 363a82e..bf5ea7f 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -114,6 +114,9 @@ class MILP:
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
+        if not self.__pulpmodel.objective and len(self.__variables) > 0:
+            # with an empty objective, PuLP adds a dummy variable that breaks all later calls
+            self.__pulpmodel.setObjective(pulp.LpAffineExpression([(self.__variables[0], 0)]))
         self.__pulpmodel.solve()
 
         status = {   1:"optimal",
-- 
2.43.0


From 77a77e410bf2341c882f07aa79432ea814ac3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 32/54] fix: accept a missing objective in
 MILP.from_coefficients, as documented

---
 switss/solver/milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index bf5ea7f..087a065 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -274,8 +274,6 @@ class MILP:
         b = cast_dok_matrix(b)
 
 
-        opt = cast_dok_matrix(opt)
-
         model = MILP(objective=objective)
 
         # initialize problem
@@ -285,7 +283,9 @@ class MILP:
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From da57203357b9f3100ed81c4f3739c8755fa2b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 33/54] fix: variables that do not occur in a problem anymore
 do not break solving it

PuLP keeps every variable it has seen, and writes bounds for columns that do not exist, after
a constraint was removed or the objective replaced.
---
 switss/solver/milp.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 087a065..a5b93ad 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -114,9 +114,7 @@ class MILP:
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
-        if not self.__pulpmodel.objective and len(self.__variables) > 0:
-            # with an empty objective, PuLP adds a dummy variable that breaks all later calls
-            self.__pulpmodel.setObjective(pulp.LpAffineExpression([(self.__variables[0], 0)]))
+        self._mention_variables()
         self.__pulpmodel.solve()
 
         status = {   1:"optimal",
@@ -132,6 +130,18 @@ class MILP:
 
         return SolverResult(status, result_vector, value)
 
+    def _mention_variables(self):
+        # PuLP keeps all variables it has ever seen, but solvers fail on variables that do not occur in the problem
+        # (anymore). They also fail on the dummy variable that PuLP adds for good if there is no objective.
+        model = self.__pulpmodel
+        objective = model.objective or pulp.LpAffineExpression()
+        used = set(var.name for expr in [objective, *model.constraints.values()] for var in expr)
+        missing = [var for var in model.variables() if var.name not in used]
+        if len(objective) == 0 and len(missing) == 0:
+            missing = self.__variables[:1]
+        if len(missing) > 0:
+            model.setObjective(objective + pulp.LpAffineExpression([(var, 0) for var in missing]))
+
     def _value(self, var):
         if var.value() is None: # does not occur in the problem, so any value within its bounds will do
             return next((bound for bound in (var.lowBound, var.upBound) if bound is not None), 0)
-- 
2.43.0


From fcc5d14b616c40362575705b9b0437806415a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 34/54] fix: variables missing in a CBC solution file get a
 value within their bounds

---
 switss/solver/milp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index a5b93ad..307629c 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -21,9 +21,14 @@ class _CBC(pulp.PULP_CBC_CMD):
             # variables without any coefficients are not part of the file
             used = set(var.name for expr in [lp.objective, *lp.constraints.values()] for var, coeff in expr.items() if coeff != 0)
             expected = [variablesNames[name] for name in used]
-            complete = text.endswith("\n") and "\0" not in text and set(text.split()).issuperset(expected)
+            words = set(text.split())
+            complete = text.endswith("\n") and "\0" not in text and words.issuperset(expected)
             if not complete:
                 raise pulp.PulpSolverError("CBC: incomplete solution file")
+            for var in vs: # PuLP takes those which are not part of the file to be zero
+                if variablesNames[var.name] not in words:
+                    lower = 0 if var.lowBound is None else max(0, var.lowBound)
+                    result[1][var.name] = lower if var.upBound is None else min(lower, var.upBound)
         return result
 
 class _GLPK(pulp.GLPK_CMD):
-- 
2.43.0


From 60e3974c0f3cce18f70c24ee4109f72ef3627a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 35/54] fix: keep transition probabilities of successors() and
 predecessors() in double precision

---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 490d631..e04171e 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From 9ed85257af767220826f1632f338aea5c28fcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 36/54] fix: pictures of subsystems do not require that the
 subsystem is a reachability form

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 776b628..8405862 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -201,7 +201,7 @@ class Subsystem:
             in_subsystem = not is_fail and not is_target and self.subsystem_mask[stateidx]
 
             sm = visualization.state_map(stateidx,labels)
-            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.subsys.system, DTMC)))
+            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.supersys.system, DTMC)))
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-- 
2.43.0


From fc616b07382f1c7ac4fc4cbe14927f9642059d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 37/54] fix: import of stormpy DTMCs

---
 switss/model/dtmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 6e61505..080b21a 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,3 +1,4 @@
+from collections import defaultdict
 from bidict import bidict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
@@ -142,20 +143,25 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
+    def from_stormpy_model(cls,stormpy_model,choice_model=False):
         
+        assert not choice_model, "Choice models are only available for MDPs."
         #assert stormpy_model.model_type == "ModelType.MDP"
 
         P = dok_matrix((1,1))
-        index_by_state_action = bidict()
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+
+            for slabel in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[slabel].add(sid)
+
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From f32b578cd0d4dcee4e4586edf88135aead6235f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 38/54] fix: labels of the choice states in choice models

---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 52c3828..97589ad 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -269,8 +269,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From f385eaf50cb44b1a57cfb702c2f4d9f942a49275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 39/54] fix: RewardReachabilityForm.fromsystem raised and
 changed the caller's system

---
 switss/model/reward_reachability_form.py | 30 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 1092d31..50830d0 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -54,17 +54,29 @@ class RewardReachabilityForm:
         if not ignore_consistency_checks:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
-        # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
-
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
-
-        system.add_label(N, "rf_fail")
+        # copy of the system with a dummy fail state, which is required for reachability form
+        C,N = system.P.shape
+        P = dok_matrix((C+1, N+1))
+        for (i,j), p in system.P.items():
+            P[i,j] = p
+        P[C,N] = 1
+
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N,0)] = C
+
+        label_to_states = { label : set(states) for label,states in system.states_by_label.items() }
+        label_to_states.setdefault("rf_fail", set()).add(N)
+        label_to_actions = { label : set(saps) for label,saps in system.actions_by_label.items() }
+
+        with_fail = type(system)(P=P,
+                                 index_by_state_action=index_by_state_action,
+                                 label_to_actions=label_to_actions,
+                                 label_to_states=label_to_states,
+                                 vis_config=system.visualization,
+                                 reward_vector=np.append(system.reward_vector, 0))
 
         # initialize underlying reachability form
-        return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
+        return cls(ReachabilityForm(with_fail, initial_label, target_label, "rf_fail", ignore_consistency_checks), with_fail.reward_vector[:-2])
 
 
     @staticmethod
-- 
2.43.0


From d0aeee3412110d7021b59c8f0cfcbfecd43fcfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 40/54] fix: states outside the model were read as memory
 outside the graph's array

---
 switss/utils/graph.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index e04171e..b3d8e43 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -38,11 +38,16 @@ cdef class Graph:
                 self.nodes[i] = Node(NULL,NULL,0,0)
             for (i,d),p in P.items():
                 s,a = index_by_state_action.inv[i]
+                self.check_node(s)
                 self.add_successor(s,a,p,d)
 
     def get_nodecount(self):
         return self.nodecount
 
+    def check_node(self, nodeidx):
+        if not 0 <= nodeidx < self.nodecount:
+            raise IndexError("There is no node %s in a graph of %s nodes" % (nodeidx, self.nodecount))
+
     cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
@@ -64,12 +69,14 @@ cdef class Graph:
         tonode[0].predecessors = newpreds
 
     def successors(self, nodeidx, actionidx=None):
+        self.check_node(nodeidx)
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].succcount):
             if actionidx is None or actionidx == node[0].successors[i][1]:
                 yield node[0].successors[i]
     
     def predecessors(self, nodeidx, actionidx=None):
+        self.check_node(nodeidx)
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].predcount):
             if actionidx is None or actionidx == node[0].predecessors[i][1]:
@@ -321,6 +328,10 @@ cdef class Graph:
     def reachable(self, fromset, direction, blocklist=set()):
         assert len(fromset) > 0
         assert direction in ["forward", "backward"]
+        for idx in fromset:
+            self.check_node(idx)
+        for idx in blocklist:
+            self.check_node(idx)
 
         cdef int* reachablemask = <int *> malloc(self.nodecount * sizeof(int))
         cdef int* instack = <int *> malloc(self.nodecount * sizeof(int))
-- 
2.43.0


From 9ac2cbd8f4d7c4405793f1a7d06b79dbc5bf3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 41/54] fix: max_y_state counted the initial state once too
 often

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 9fd6df2..5902a1f 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -672,7 +672,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 50830d0..58fdc76 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -331,7 +331,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From 0671e046a0cc56157b0a9c6ffaa3c4586b69a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 42/54] fix: exact minimisation with Gurobi's indicator
 constraints raised

---
 switss/problem/formulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 01bf9c5..43ef2c3 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -133,7 +133,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
-- 
2.43.0


From 60f24d3e1dce6f80b0c89955ef8c47c4dc61dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 43/54] fix: Gurobi's indicator constraints could not be added

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 307629c..758fefd 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -522,7 +522,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) >> (self.__variables[rhs_varidx] == 0), name)
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
-- 
2.43.0


From 9930c3b168aa028ca6203ddf9870c61ca550ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 44/54] fix: constraints without coefficients raised with
 Gurobi

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 758fefd..baefca6 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -446,7 +446,7 @@ class GurobiMILP(MILP):
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _eval_pulp_expr(self, expression):
-        return sum([ self.__variables[var]*coeff for var, coeff in expression ])
+        return sum([ self.__variables[var]*coeff for var, coeff in expression ], gp.LinExpr())
 
     def set_objective_function(self, expression):
         """Sets the objective function of the form
-- 
2.43.0


From 3aa55e229206b7dc2b80f9d7621a878b41961703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 45/54] fix: with Gurobi, constraints could not be removed or
 changed before the problem was solved

---
 switss/solver/milp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index baefca6..147f397 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -508,6 +508,7 @@ class GurobiMILP(MILP):
 
     def add_to_constraint(self, constridx, coeff, varidx):
         constr = self.__constraints[constridx]
+        self.__model.update() # constraints are pending until then
         self.__model.chgCoeff(constr, self.__variables[varidx], coeff)
 
     def add_indicator_constraint(self, ind_varidx, rhs_varidx):
@@ -534,6 +535,7 @@ class GurobiMILP(MILP):
         :param constridx: index of the constraint
         :type constridx: int
         """
+        self.__model.update() # constraints are pending until then
         self.__model.remove(self.__constraints[constridx])
         self.__constraints[constridx] = None
 
-- 
2.43.0


From fd81f68b65fded813e6f1b4f5f202488d08aa8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 46/54] fix: the time limit of one Gurobi run was kept for
 later runs without limit

---
 switss/solver/milp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 147f397..a024079 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -417,8 +417,7 @@ class GurobiMILP(MILP):
 
 
     def solve(self, solver, timeout=None,print_output=False):
-        if timeout is not None:
-            self.__model.setParam('TimeLimit',timeout)
+        self.__model.setParam('TimeLimit',timeout if timeout is not None else GRB.INFINITY)
         self.__model.optimize()
 
         if print_output:
-- 
2.43.0


From 7ab8f326dbcbc70a9b54fe1f593e40dff19cf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 47/54] fix: variables without lower bound were non-negative
 with Gurobi

---
 switss/solver/milp.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index a024079..a0680e9 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -554,15 +554,9 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
-            if lb is not None:
-                if ub is not None:
-                    var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-                else:
-                    var = self.__model.addVar(lb=lb, vtype=cat, name=varname)
-            elif ub is not None:
-                var = self.__model.addVar(ub=ub, vtype=cat, name=varname)
-            else:
-                var = self.__model.addVar(vtype=cat, name=varname)
+            lb = -GRB.INFINITY if lb is None else lb # Gurobi's own default is 0
+            ub = GRB.INFINITY if ub is None else ub
+            var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
 
             self.__variables.append(var)
 
-- 
2.43.0


From 0d7d5b3ad836a31f47c51ceddceb93a056fda485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 48/54] fix: GurobiMILP.from_coefficients without objective
 raised

---
 switss/solver/milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index a0680e9..137b19a 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -610,8 +610,6 @@ class GurobiMILP(MILP):
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        opt = cast_dok_matrix(opt)
-
         model = GurobiMILP(objective=objective)
 
         # initialize problem
@@ -621,7 +619,9 @@ class GurobiMILP(MILP):
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From 89996711398cf05fbdab07d3904b1a0e6ce7e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 49/54] fix: find_interior_point called points strictly inside
 that a failed solver run left behind

---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 8dd6f44..c73f936 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -46,7 +46,7 @@ def find_interior_point(A, b, xgeq0=False, zero_vars = [], solver="cbc"):
     result = lp.solve(solver)
     sres = result.result_vector[-1]
 
-    return result.result_vector[:-1], (result.status == "optimal" and sres <= 0), sres < 0
+    return result.result_vector[:-1], (result.status == "optimal" and sres <= 0), (result.status == "optimal" and sres < 0)
 
 def __get_right_constraint_set(reach_form,mode,sense,threshold):
 
-- 
2.43.0


From f7f2f062827f67b722044bfe3f82f0716e0035fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 50/54] fix: models shared the caller's reward vector

---
 switss/model/amdp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 1c11108..c3d3ba7 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -1,5 +1,6 @@
 from abc import ABC, abstractclassmethod, abstractmethod
 import numpy as np
+from copy import copy
 from scipy.sparse import dok_matrix
 from collections import defaultdict
 from graphviz import Digraph
@@ -48,7 +49,7 @@ class AbstractMDP(ABC):
         self.C, self.N = self.P.shape
         # transform mapping into bidict if neccessary (applying bidict to bidict doesn't change anything)
         self.index_by_state_action = bidict(index_by_state_action)
-        self.reward_vector = reward_vector
+        self.reward_vector = copy(reward_vector)
         # the mappings are copied, also those taken from another model
         self.__label_to_actions_invertible = InvertibleDict(dict(label_to_actions.items()), is_default=True)
         self.__label_to_states_invertible = InvertibleDict(dict(label_to_states.items()), is_default=True)
-- 
2.43.0


From 6170569cb3d14bf4c487c68ce76b4b526d17836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 51/54] fix: cut-off solution files of the Gurobi command line
 were taken as complete answers

---
 switss/solver/milp.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 137b19a..143a611 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -45,6 +45,22 @@ class _GLPK(pulp.GLPK_CMD):
             status = pulp.LpStatusNotSolved
         return status, values
 
+class _GUROBI(pulp.GUROBI_CMD):
+    """Gurobi via its command line, where a solution file which isn't complete is an error (PuLP just keeps
+    the previous values of those variables which are missing)."""
+
+    def actualSolve(self, lp):
+        self.__names = set(var.name for var in lp.variables())
+        return super().actualSolve(lp)
+
+    def readsol(self, filename):
+        with open(filename) as solution_file:
+            text = solution_file.read()
+        result = super().readsol(filename)
+        if not text.endswith("\n") or "\0" in text or not self.__names.issubset(result[1]):
+            raise pulp.PulpSolverError("GUROBI: incomplete solution file")
+        return result
+
 class MILP:
     """
     A MILP can either be initialized through a specification of coefficient matrices and -vectors 
@@ -108,7 +124,7 @@ class MILP:
                 ("IntFeasTol",1e-9),("NumericFocus",3)]
             if timeout != None:
                 gurobi_options.append(("TimeLimit",str(timeout)))
-            self.__pulpmodel.setSolver(pulp.GUROBI_CMD(msg=print_output,options=gurobi_options))
+            self.__pulpmodel.setSolver(_GUROBI(msg=print_output,options=gurobi_options))
         elif solver == "cbc":
             cbc_options = ["--integerT","0"]
             self.__pulpmodel.setSolver(
-- 
2.43.0


From 58e2e68fbe67331ca7169e7453d28fdd52b58893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 52/54] fix: solutions of a Gurobi command line run stopped by
 a limit were reported as optimal

---
 switss/solver/milp.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 143a611..baa547a 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -1,6 +1,7 @@
 from ..utils import cast_dok_matrix
 from . import SolverResult
 from scipy.sparse import dok_matrix
+import os.path
 import pulp
 import numpy as np
 
@@ -47,11 +48,23 @@ class _GLPK(pulp.GLPK_CMD):
 
 class _GUROBI(pulp.GUROBI_CMD):
     """Gurobi via its command line, where a solution file which isn't complete is an error (PuLP just keeps
-    the previous values of those variables which are missing)."""
+    the previous values of those variables which are missing), and where a solution that was found by the time
+    a limit was reached isn't optimal (only the log file tells, PuLP doesn't look at it)."""
 
     def actualSolve(self, lp):
         self.__names = set(var.name for var in lp.variables())
-        return super().actualSolve(lp)
+        logfile, = self.create_tmp_files(lp.name, "log")
+        self.optionsDict["logPath"] = logfile
+        try:
+            status = super().actualSolve(lp)
+            if os.path.exists(logfile):
+                with open(logfile) as log:
+                    if "limit reached" in log.read():
+                        status = pulp.LpStatusNotSolved
+                        lp.assignStatus(status)
+            return status
+        finally:
+            self.delete_tmp_files(logfile)
 
     def readsol(self, filename):
         with open(filename) as solution_file:
-- 
2.43.0


From 67e792a10591a1a61e3fdcb263a06e17882f583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 53/54] fix: an interrupted first use of InvertibleDict.inv
 left an inverse that did not pass changes on

---
 switss/utils/invertible_dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index 6107306..59c52aa 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -104,6 +104,8 @@ class InvertibleDict:
             for key, vals in self.__d.items():
                 for val in vals:
                     i[val].add(key)
-            self.__i = InvertibleDict(dict(i), is_default=self.__is_default)
-            self.__i.__i = self
+            inverse = InvertibleDict(dict(i), is_default=self.__is_default)
+            inverse.__i = self
+            # only a complete inverse is kept, even if this is interrupted
+            self.__i = inverse
         return self.__i
-- 
2.43.0


From 692cf86dba6b420a90a4ba839129ce3e3d0c80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 54/54] fix: an interrupted MILP.add_constraint made all later
 ones fail

---
 switss/solver/milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index baa547a..cbbaa89 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -240,8 +240,9 @@ class MILP:
         constridx = len( self.__constraints )
         name = "c%d" % constridx
         constraint = pulp.LpConstraint(name=name, e=lhs, sense=sense, rhs=rhs)
-        self.__pulpmodel += constraint
+        # take the number first: if the next line is interrupted, it must not be used again
         self.__constraints.append(constraint)
+        self.__pulpmodel += constraint
         
         return constridx
 
-- 
2.43.0

