From 0672a28e84cb0e7774396db18922dbc3db4f8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 01/61] fix: OptionsDictionary.get raised KeyError for a
 deprecated option name

---
 openmdao/util/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index d7c3329..f797806 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -157,7 +157,7 @@ class OptionsDictionary(object):
         elif name in self._deprecations:
             newname = self._deprecations[name]
             _print_deprecation(name, newname)
-            return self._options[name]['val']
+            return self._options[newname]['val']
         return default
 
     def iteritems(self):
-- 
2.43.0


From 74d77cd364b8c1691e1ac19718b3bbc711729943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 02/61] fix: dividing a number by a unit with an offset
 silently dropped the offset

---
 openmdao/units/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index d1368c6..7f2510f 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -465,6 +465,8 @@ class PhysicalUnit(object):
     __truediv__ = __div__   # for python 3
 
     def __rdiv__(self, other):
+        if self.offset != 0:
+            raise TypeError("cannot divide units with non-zero offset")
         return PhysicalUnit({str(other): 1}-self.names,
                           float(other)/self.factor,
                           [-x for x in self.powers])
-- 
2.43.0


From 53caee7fc35c3b3c0457a87cfa8b3793db4b0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 03/61] fix: PhysicalQuantity.in_base_units ignored the offset
 of the unit

---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 7f2510f..67c43b5 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -301,7 +301,7 @@ class PhysicalQuantity(object):
             The same quantity converted to base units,
             i.e., SI units in most cases.
         """
-        new_value = self.value * self.unit.factor
+        new_value = (self.value + self.unit.offset) * self.unit.factor
         num = ''
         denom = ''
         for unit, power in zip(_UNIT_LIB.base_names, self.unit.powers):
-- 
2.43.0


From 06ebcd0445de294203df7102a8ea045e0db36050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 04/61] fix: the meaning of a prefixed unit depended on which
 units were used before (dam after am)

---
 openmdao/units/units.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 67c43b5..1039664 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -643,17 +643,19 @@ def _find_unit(unit):
                     try:
                         eval(item, {'__builtins__':None}, _UNIT_LIB.unit_table)
                     except Exception: #maybe is a prefixed unit then
+                        #check for double letter prefix before unit. This comes
+                        #first so that 'dam' doesn't turn into 'd' + 'am' once
+                        #the prefixed unit 'am' has been added to the unit_table.
+                        if(item[0:2] in _UNIT_LIB.prefixes and \
+                           item[2:] in _UNIT_LIB.unit_table):
+                            add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
+                                     _UNIT_LIB.unit_table[item[2:]])
+
                         #check for single letter prefix before unit
-                        if(item[0] in _UNIT_LIB.prefixes and \
-                           item[1:] in _UNIT_LIB.unit_table):
+                        elif(item[0] in _UNIT_LIB.prefixes and \
+                             item[1:] in _UNIT_LIB.unit_table):
                             add_unit(item, _UNIT_LIB.prefixes[item[0]]* \
-                                     _UNIT_LIB.unit_table[item[1:]])
-
-                        #check for double letter prefix before unit
-                        elif(item[0:2] in _UNIT_LIB.prefixes and \
-                             item[2:] in _UNIT_LIB.unit_table):
-                            add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
-                                      _UNIT_LIB.unit_table[item[2:]])
+                                      _UNIT_LIB.unit_table[item[1:]])
 
                         #no prefixes found, unknown unit
                         else:
-- 
2.43.0


From 878b4284736626d276401d3a1700f7556a98aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 05/61] fix: a second prefix was accepted on a prefixed unit
 once that unit had been used (dacre after cre)

---
 openmdao/units/units.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 1039664..e7c1650 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -647,13 +647,15 @@ def _find_unit(unit):
                         #first so that 'dam' doesn't turn into 'd' + 'am' once
                         #the prefixed unit 'am' has been added to the unit_table.
                         if(item[0:2] in _UNIT_LIB.prefixes and \
-                           item[2:] in _UNIT_LIB.unit_table):
+                           item[2:] in _UNIT_LIB.unit_table and \
+                           item[2:] not in _UNIT_LIB.prefixed_units):
                             add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
                                      _UNIT_LIB.unit_table[item[2:]])
 
                         #check for single letter prefix before unit
                         elif(item[0] in _UNIT_LIB.prefixes and \
-                             item[1:] in _UNIT_LIB.unit_table):
+                             item[1:] in _UNIT_LIB.unit_table and \
+                             item[1:] not in _UNIT_LIB.prefixed_units):
                             add_unit(item, _UNIT_LIB.prefixes[item[0]]* \
                                       _UNIT_LIB.unit_table[item[1:]])
 
@@ -662,6 +664,9 @@ def _find_unit(unit):
                             raise ValueError("no unit named '%s' is defined"
                                              % item)
 
+                        #a prefix only applies to units without one
+                        _UNIT_LIB.prefixed_units.add(item)
+
                 unit = eval(name, {'__builtins__':None}, _UNIT_LIB.unit_table)
 
             _UNIT_CACHE[name] = unit
@@ -737,6 +742,7 @@ def import_library(libfilepointer):
     _UNIT_LIB.base_types = dict()
     _UNIT_LIB.unit_table = dict()
     _UNIT_LIB.prefixes = dict()
+    _UNIT_LIB.prefixed_units = set()
     _UNIT_LIB.help = list()
 
     for prefix, factor in _UNIT_LIB.items('prefixes'):
-- 
2.43.0


From 507f4d9258ff7119ab56f4b054685c15e5a3b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 06/61] fix: resolve the unknown source of every linked input

A param linked to sourced inputs through several input-input connections
could be left with neither a source nor a dangling report (depending on the
order in which the graph was walked), and a second, different source of such
a param was silently ignored.
---
 openmdao/core/problem.py | 81 +++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c5bde79..dce8a3e 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -250,28 +250,67 @@ class Problem(object):
 
         # now all nodes that are downstream of an unknown source have been
         # marked.  Anything left must be an input that is either dangling or
-        # upstream of an input that does have an unknown source.
-        for node in input_graph.nodes_iter():
-            # only look at unmarked nodes that have 0 in_degree
-            if node not in newconns and len(input_graph.pred[node]) == 0:
-                nosrc = [node]
-                # walk dfs from this input 'src' node until we hit a param
-                # that has an unknown src
-                for s, t in nx.dfs_edges(input_graph, node):
-                    if t in newconns:  # found param with unknown src
-                        src = newconns[t][0][0]
-                        # connect the unknown src to all of the inputs connected
-                        # to the current node that have no unknown src
-                        for n in nosrc:
-                            newconns[n] = [(src, None)]
-                        break
-                    else:
+        # linked to an input that does have an unknown source. Start from the
+        # ones with 0 in_degree.
+        for node in sorted(input_graph.nodes_iter(),
+                           key=lambda n: len(input_graph.pred[n]) > 0):
+            if node in newconns or node in self._input_inputs:
+                continue
+
+            # find all of the unmarked inputs that are linked, in either
+            # direction, to this one, and the unknown srcs of the marked
+            # inputs they are connected to.
+            nosrc = [node]
+            set_nosrc = set(nosrc)
+            known = []
+            for n in nosrc:
+                for t in chain(input_graph.succ[n], input_graph.pred[n]):
+                    if t in newconns:
+                        known.append((n, t))
+                    elif t not in set_nosrc:
+                        set_nosrc.add(t)
                         nosrc.append(t)
-                else: # didn't find an unknown src, so must be dangling
-                    set_nosrc = set(nosrc)
-                    for n in nosrc:
-                        self._dangling[to_prom_name[n]] = set_nosrc
-                        self._input_inputs[n] = nosrc
+
+            if not known: # didn't find an unknown src, so must be dangling
+                for n in nosrc:
+                    self._dangling[to_prom_name[n]] = set_nosrc
+                    self._input_inputs[n] = nosrc
+                continue
+
+            # connect the unknown src to all of the inputs in this set. If
+            # there is more than one unknown src, it's an error
+            srcs = OrderedDict()
+            for n, t in known:
+                for src, idxs in newconns[t]:
+                    srcs.setdefault(src, []).append((n, t, idxs))
+
+            for src, starts in iteritems(srcs):
+                src_idxs = {}
+                stack = []
+                for n, t, idxs in starts:
+                    if n not in src_idxs:
+                        full = input_graph[n][t]['idxs'] is None
+                        src_idxs[n] = idxs if full else None
+                        stack.append(n)
+                for s in stack:
+                    sidxs = src_idxs[s]
+                    for t in input_graph.succ[s]:
+                        if t in set_nosrc and t not in src_idxs:
+                            tidxs = input_graph[s][t]['idxs']
+                            if tidxs is None:
+                                tidxs = sidxs
+                            elif sidxs is not None:
+                                tidxs = np.array(sidxs)[tidxs]
+                            src_idxs[t] = tidxs
+                            stack.append(t)
+                    for t in input_graph.pred[s]:
+                        if t in set_nosrc and t not in src_idxs:
+                            full = input_graph[t][s]['idxs'] is None
+                            src_idxs[t] = sidxs if full else None
+                            stack.append(t)
+
+                for n in nosrc:
+                    newconns.setdefault(n, []).append((src, src_idxs[n]))
 
         # connections must be in order across processes, so use an OrderedDict
         # and sort targets before adding them
-- 
2.43.0


From a5d5646b6b3665216632a673eb8ad151df2c4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 07/61] fix: relative finite difference step of a negative
 input was not scaled by its magnitude

---
 openmdao/core/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a51c7f6..9c164e4 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -686,7 +686,7 @@ class System(object):
 
                     # Relative or Absolute step size
                     if fdtype == 'relative':
-                        step = target_input[idx] * fdstep
+                        step = abs(target_input[idx]) * fdstep
                         if step < fdstep:
                             step = fdstep
                     else:
-- 
2.43.0


From 0e4305445a8ea5b4d2fae15cc2926b44cdb2b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 08/61] fix: finite difference of an array design variable that
 is also a response had the wrong shape

---
 openmdao/core/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 9c164e4..375d0ac 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -771,10 +771,10 @@ class System(object):
                             if qoi_indices and u_name in qoi_indices:
                                 q_idxs = qoi_indices[u_name]
                                 if idx in q_idxs:
-                                    row = qoi_indices[u_name].index(idx)
+                                    row = list(q_idxs).index(idx)
                                     jac[u_name, p_name][row][col] = 1.0
                             else:
-                                jac[u_name, p_name] = np.array([[1.0]])
+                                jac[u_name, p_name][idx][col] = 1.0
 
                     # Restore old residual
                     resultvec.vec[:] = cache1
-- 
2.43.0


From 2e3335aa06746488947b19f9fc20459c11c21771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 09/61] fix: finite difference left rounding errors in the
 params and unknowns and changed the residuals

---
 openmdao/core/system.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 375d0ac..1518456 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -597,6 +597,11 @@ class System(object):
 
         cache1 = resultvec.vec.copy()
 
+        # Running the model changes more than the result vector, so remember
+        # everything that has to be put back.
+        saved = [unknowns, resids] if total_derivs else [params, unknowns, resids]
+        saved = [(vec.vec, vec.vec.copy()) for vec in saved]
+
         gather_jac = False
 
         fd_count = -1
@@ -692,6 +697,8 @@ class System(object):
                     else:
                         step = fdstep
 
+                    orig_val = target_input[idx]
+
                     if cs == 'cs':
 
                         probdata = unknowns._probdata
@@ -776,8 +783,10 @@ class System(object):
                             else:
                                 jac[u_name, p_name][idx][col] = 1.0
 
-                    # Restore old residual
-                    resultvec.vec[:] = cache1
+                    # Restore old values
+                    for vec, old_vals in saved:
+                        vec[:] = old_vals
+                    target_input[idx] = orig_val
 
         if self._num_par_fds > 1:
             if trace:  # pragma: no cover
-- 
2.43.0


From 708b5f4decc246e9cd0a5d60e132e3a3e8d1565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 10/61] fix: derivatives of a variable that is both an input
 and an output of calc_gradient went to the wrong rows

---
 openmdao/core/problem.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index dce8a3e..19e51a4 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1621,7 +1621,8 @@ class Problem(object):
         else:
             usize = 0
             psize = 0
-            Jslices = OrderedDict()
+            Jrows = OrderedDict()
+            Jcols = OrderedDict()
             for u in unknown_list:
                 start = usize
                 if u in self._qoi_indices:
@@ -1629,7 +1630,7 @@ class Problem(object):
                     usize += len(idx)
                 else:
                     usize += self.root.unknowns.metadata(u)['size']
-                Jslices[u] = slice(start, usize)
+                Jrows[u] = slice(start, usize)
 
             for p in indep_list:
                 start = psize
@@ -1638,7 +1639,7 @@ class Problem(object):
                     psize += len(idx)
                 else:
                     psize += unknowns.metadata(p)['size']
-                Jslices[p] = slice(start, psize)
+                Jcols[p] = slice(start, psize)
             J = np.zeros((usize, psize))
 
         if fwd:
@@ -1815,22 +1816,22 @@ class Problem(object):
 
                             else:
                                 if fwd:
-                                    J[Jslices[item], Jslices[param].start+i] = dxval
+                                    J[Jrows[item], Jcols[param].start+i] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= in_scale[param]
+                                        J[Jrows[item], Jcols[param].start+i] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= un_scale[item]
+                                        J[Jrows[item], Jcols[param].start+i] *= un_scale[item]
 
                                 else:
-                                    J[Jslices[param].start+i, Jslices[item]] = dxval
+                                    J[Jrows[param].start+i, Jcols[item]] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= in_scale[param]
+                                        J[Jrows[param].start+i, Jcols[item]] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= un_scale[item]
+                                        J[Jrows[param].start+i, Jcols[item]] *= un_scale[item]
 
         # Clean up after ourselves
         root.clear_dparams()
-- 
2.43.0


From 22661422d8678f30edf396e52a4240ebf34cd38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 11/61] fix: array scalers of a response were applied to the
 columns of finite difference total derivatives

---
 openmdao/core/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 19e51a4..5d41573 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1473,7 +1473,7 @@ class Problem(object):
                     if ikey in dv_scale:
                         J[okey][ikey] *= dv_scale[ikey]
                     if okey in cn_scale:
-                        J[okey][ikey] *= cn_scale[okey]
+                        J[okey][ikey] *= np.reshape(cn_scale[okey], (-1, 1))
 
         else:
             usize = 0
@@ -1512,7 +1512,7 @@ class Problem(object):
                     if p in dv_scale:
                         J[ui:ui+rows, pi:pi+cols] *= dv_scale[p]
                     if u in cn_scale:
-                        J[ui:ui+rows, pi:pi+cols] *= cn_scale[u]
+                        J[ui:ui+rows, pi:pi+cols] *= np.reshape(cn_scale[u], (-1, 1))
 
                     pi += cols
                 ui += rows
-- 
2.43.0


From 987908594332bf35bf3294efef879c86e8327172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 12/61] fix: linear Gauss-Seidel subtracted pass-by-object
 variables of an IndepVarComp from each other

---
 openmdao/components/indep_var_comp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/components/indep_var_comp.py b/openmdao/components/indep_var_comp.py
index 0009097..4aab517 100644
--- a/openmdao/components/indep_var_comp.py
+++ b/openmdao/components/indep_var_comp.py
@@ -105,7 +105,7 @@ class IndepVarComp(Component):
                 rhs_vec[voi].vec[:] -= sol_vec[voi].vec
             else:
                 for var, meta in iteritems(self.dumat[voi]):
-                    if var in gs_outputs[voi]:
+                    if var in gs_outputs[voi] and not meta.get('pass_by_obj'):
                         rhs_vec[voi][var] -= sol_vec[voi][var]
 
     def _sys_linearize(self, params, unknowns, resids, force_fd=False):
-- 
2.43.0


From 693a903283d95c79ee78c75e59fceeed86979187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 13/61] fix: calc_gradient raised IndexError for a driver
 variable that is irrelevant to everything

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 5d41573..4d1d977 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1744,7 +1744,8 @@ class Problem(object):
                         # Note, we solve a slightly modified version of the unified
                         # derivatives equations in OpenMDAO.
                         # (dR/du) * (du/dr) = -I
-                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc:
+                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc and \
+                           voi_srcs[vkey] in self.root.dumat[vkey]:
                             rhs[vkey][voi_idxs[vkey][i]] = -1.0
 
                     # Solve the linear system
-- 
2.43.0


From e1a64940dddf5f46ad2bf70769b15f3cd4358f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 14/61] fix: the partials of states in a component without
 connected params were left out of the linear system

---
 openmdao/core/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index eda51c0..21da6c2 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -514,7 +514,9 @@ class Group(System):
                         self._do_apply[(s.pathname, voi)] = True
                         break
                 else:
-                    self._do_apply[(s.pathname, voi)] = False
+                    # states have partials too
+                    self._do_apply[(s.pathname, voi)] = \
+                        any(n in s.dumat[voi] for n in s.states)
 
         self._relname_map = None  # reclaim some memory
 
-- 
2.43.0


From 746d3c15854bc1a56b75a242e66841d331246b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 15/61] fix: the direct solver ignored the quantity of interest
 it solves for and a change of mode

---
 openmdao/core/group.py        | 15 ++++++++++----
 openmdao/solvers/ln_direct.py | 39 +++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 21da6c2..99076ed 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -979,7 +979,7 @@ class Group(System):
             if isinstance(system, Group):
                 system.clear_dparams()  # only call on Groups
 
-    def assemble_jacobian(self, mode='fwd', method='assemble', mult=None):
+    def assemble_jacobian(self, mode='fwd', method='assemble', mult=None, voi=None):
         """ Assemble and return an ndarray containing the Jacobian for this
         Group.
 
@@ -1000,6 +1000,9 @@ class Group(System):
         mult : function(None)
             Solver mult function to coordinate the matrix vector product
 
+        voi : str(None)
+            Quantity of interest whose relevant variables make up the Jacobian.
+
         Returns
         -------
         ndarray : Jacobian Matrix. Note: if mode is 'rev', then the transpose
@@ -1012,7 +1015,7 @@ class Group(System):
         Note, if mode is 'rev', then rows and columns are swapped.
 
         """
-        u_vec = self.unknowns
+        u_vec = self.dumat[voi]
         n_edge = u_vec.vec.size
 
         # OpenMDAO does matrix vector product.
@@ -1030,7 +1033,7 @@ class Group(System):
         else:
 
             partials = -np.eye(n_edge)
-            icache = self._icache
+            icache = self._icache.setdefault(voi, {})
             conn = self.connections
             sys_prom_name = self._sysdata.to_prom_name
 
@@ -1072,7 +1075,11 @@ class Group(System):
                                 continue
 
                             i_var_src = conn[i_var_abs][0]
-                            i_var_pro = sys_prom_name[i_var_src]
+                            i_var_pro = sys_prom_name.get(i_var_src)
+
+                        # Only relevant variables are in the system.
+                        if o_var_pro not in u_vec or i_var_pro not in u_vec:
+                            continue
 
                         o_start, o_end = u_vec._dat[o_var_pro].slice
                         i_start, i_end = u_vec._dat[i_var_pro].slice
diff --git a/openmdao/solvers/ln_direct.py b/openmdao/solvers/ln_direct.py
index d9a1c71..383eb2c 100644
--- a/openmdao/solvers/ln_direct.py
+++ b/openmdao/solvers/ln_direct.py
@@ -58,6 +58,9 @@ class DirectSolver(MultLinearSolver):
         self.lup = None
         self.mode = None
 
+        # Jacobian and its factors for each quantity of interest.
+        self._cache = {}
+
     def setup(self, system):
         """ Initialization. Allocate Jacobian and set up some helpers.
 
@@ -67,6 +70,8 @@ class DirectSolver(MultLinearSolver):
             System that owns this solver.
         """
 
+        self._cache = {}
+
         # Only need to setup if we are assembling the whole jacobian
         if self.options['jacobian_method'] == 'MVP':
             return
@@ -104,36 +109,40 @@ class DirectSolver(MultLinearSolver):
 
         self.system = system
 
-        if self.mode is None:
-            self.mode = mode
-
         sol_buf = OrderedDict()
+        method = self.options['jacobian_method']
 
-        for voi, rhs in rhs_mat.items():
-            self.voi = None
+        # Must build a new jacobian if the derivatives or the mode changed.
+        if system._jacobian_changed or self.mode != mode:
+            self.mode = mode
+            self._cache = {}
+            system._jacobian_changed = False
 
-            if system._jacobian_changed:
-                method = self.options['jacobian_method']
+        for voi, rhs in rhs_mat.items():
 
-                # Must clear the jacobian if we switch modes
-                if method == 'assemble' and self.mode != mode:
-                    self.setup(system)
-                self.mode = mode
+            # When only some of the variables are relevant to a quantity of
+            # interest, it has its own (smaller) system to solve.
+            self.voi = None
+            if system.dumat[voi].vec.size != system.dumat[None].vec.size:
+                self.voi = voi
 
+            if self.voi not in self._cache:
                 self.jacobian, _ = system.assemble_jacobian(mode=mode, method=method,
-                                                            mult=self.mult)
-                system._jacobian_changed = False
-
+                                                            mult=self.mult, voi=self.voi)
+                self.lup = None
                 if self.options['solve_method'] == 'LU':
                     self.lup = lu_factor(self.jacobian)
+                self._cache[self.voi] = (self.jacobian, self.lup)
+
+            self.jacobian, self.lup = self._cache[self.voi]
 
             if self.options['solve_method'] == 'LU':
                 deriv = lu_solve(self.lup, rhs)
             else:
                 deriv = np.linalg.solve(self.jacobian, rhs)
 
-            self.system = None
             sol_buf[voi] = deriv
 
+        self.system = None
         return sol_buf
 
-- 
2.43.0


From 3e2b053e77059dba451b3abe179e5282f2a4c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 16/61] fix: the assembled jacobian ignored units, source
 indices, residual scalers and shared sources

---
 openmdao/core/group.py | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 99076ed..ca41610 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1048,8 +1048,15 @@ class Group(System):
                          "'apply_linear' is used on a component (%s)." % sub.pathname
                     raise RuntimeError(msg)
 
-                sub_u = sub.unknowns
                 sub_name = sub.pathname
+                user = sub.deriv_options['type'] == 'user'
+
+                # The residual of a state has no implied -I term.
+                for var in sub.states:
+                    s_var_pro = sys_prom_name['.'.join((sub_name, var))]
+                    if s_var_pro in u_vec:
+                        s_start, s_end = u_vec._dat[s_var_pro].slice
+                        partials[s_start:s_end, s_start:s_end] = 0.0
 
                 for key in jac:
                     o_var, i_var = key
@@ -1089,10 +1096,33 @@ class Group(System):
                     else:
                         (o_start, o_end, i_start, i_end) = icache[key2]
 
-                    if mode=='fwd':
-                        partials[o_start:o_end, i_start:i_end] = jac[o_var, i_var]
-                    else:
-                        partials[i_start:i_end, o_start:o_end] = jac[o_var, i_var].T
+                    J = jac[key]
+                    cols = np.arange(i_start, i_end)
+
+                    if i_var not in sub.states:
+                        meta = sub.params._dat[i_var].meta
+
+                        # A param may be connected to some of its source's
+                        # elements.
+                        idxs = meta.get('src_indices')
+                        if idxs is not None:
+                            cols = cols[np.asarray(idxs, dtype=int).ravel()]
+
+                        # Finite difference is taken in the source's units.
+                        if user and 'unit_conv' in meta:
+                            J = J * meta['unit_conv'][0]
+
+                    scaler = sub.resids._dat[o_var].meta.get('resid_scaler')
+                    if user and scaler:
+                        J = J / scaler
+
+                    # Params of a component may share a source (or an element
+                    # of it.)
+                    for j, col in enumerate(cols):
+                        if mode == 'fwd':
+                            partials[o_start:o_end, col] += J[:, j]
+                        else:
+                            partials[col, o_start:o_end] += J[:, j]
 
         return partials, icache
 
-- 
2.43.0


From 85b23d93be179be45070a3e50875286c295e4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 17/61] fix: a finite differenced group solved only for the
 first quantity of interest

---
 openmdao/core/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index ca41610..1a7a502 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -938,7 +938,7 @@ class Group(System):
         if self.deriv_options['type'] is not 'user':
             for voi in vois:
                 sol_vec[voi].vec[:] = -rhs_vec[voi].vec
-                return
+            return
 
         # Solve Jacobian, df |-> du [fwd] or du |-> df [rev]
         rhs_buf = OrderedDict()
-- 
2.43.0


From 8263234ff4f8d2ac1e20be62e990ddcad11b3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 18/61] fix: a variable that is both an input and an output
 lost the relevance of what it feeds

---
 openmdao/core/relevance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/relevance.py b/openmdao/core/relevance.py
index 2fa553a..4428505 100644
--- a/openmdao/core/relevance.py
+++ b/openmdao/core/relevance.py
@@ -186,7 +186,8 @@ class Relevance(object):
             for node in nodes:
                 unode = to_abs_uname[node]
                 comp = unode.rsplit('.', 1)[0]
-                relevant[node] = set()
+                # a variable may be both an input and an output
+                relevant.setdefault(node, set())
                 if comp in sgraph:
                     preds = set((comp,))
                     preds.update(v for u, v in nx.dfs_edges(grev, comp))
-- 
2.43.0


From a9028074f0f6d37e7e4d4b3ac09022fabcdea584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 19/61] fix: applying the linear operator in reverse rescaled
 the vector it was applied to

---
 openmdao/core/system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 1518456..619e7ce 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -893,10 +893,13 @@ class System(object):
                     if force_fd:
                         self._apply_linear_jac(self.params, self.unknowns, dparams, dunknowns, dresids, mode)
                     else:
+                        # The vector being multiplied must keep its values.
+                        unscaled = dresids.vec.copy()
                         dresids._scale_derivatives()
                         try:
                             self.apply_linear(self.params, self.unknowns, dparams, dunknowns, dresids, mode)
                         finally:
+                            dresids.vec[:] = unscaled
                             dparams._apply_unit_derivatives(rel_inputs=rel_inputs)
                             dunknowns._scale_derivatives()
 
-- 
2.43.0


From d2fc59bec6396d9522fad92bc09ce6b82e8e3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 20/61] fix: the reverse linear operator of an IndepVarComp
 added to what was there before

---
 openmdao/components/indep_var_comp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/indep_var_comp.py b/openmdao/components/indep_var_comp.py
index 4aab517..1681e69 100644
--- a/openmdao/components/indep_var_comp.py
+++ b/openmdao/components/indep_var_comp.py
@@ -86,11 +86,12 @@ class IndepVarComp(Component):
         """
         if mode == 'fwd':
             sol_vec, rhs_vec = self.dumat, self.drmat
-            for voi in vois:
-                rhs_vec[voi].vec[:] = 0.0
         else:
             sol_vec, rhs_vec = self.drmat, self.dumat
 
+        for voi in vois:
+            rhs_vec[voi].vec[:] = 0.0
+
         # Note, we solve a slightly modified version of the unified
         # derivatives equations in OpenMDAO.
         # (dR/du) * (du/dr) = -I
-- 
2.43.0


From 4c494bb19af6f33742b8e02e84dfb9385a9dcd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 21/61] fix: the convergence norm of linear Gauss-Seidel left
 out the variables that are not promoted

---
 openmdao/solvers/ln_gauss_seidel.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index abd9d68..49aa632 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -252,10 +252,8 @@ class LinearGaussSeidel(LinearSolver):
             solve.
         """
 
-        # we used to build gs_outputs up using dumat, but dumat is already
-        # identical to gs_outputs in the vois we care about, so just use it.
-        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys(),
-                                gs_outputs=system.dumat)
+        # all outputs take part in the residual of the whole system.
+        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys())
 
         if mode == 'fwd':
             rhs_vec = system.drmat
-- 
2.43.0


From cff5490154e58e148765b1bfbb2c3fecab1b712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:53 +0000
Subject: [PATCH 22/61] fix: forward linear Gauss-Seidel counted the previous
 solution of a subsystem twice when it iterated

---
 openmdao/solvers/ln_gauss_seidel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index 49aa632..0a478ad 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -136,6 +136,12 @@ class LinearGaussSeidel(LinearSolver):
                     if not sub.is_active():
                         continue
 
+                    # The subsystem solves for its own variables, so their
+                    # previous values are no part of its right-hand side.
+                    for voi in vois:
+                        if voi in sub.dumat:
+                            sub.dumat[voi].vec[:] = 0.0
+
                     # print(sub.name, sorted(gs_outputs['fwd'][sub.name][None]))
 
                     # Groups and all other systems just call their own
-- 
2.43.0


From 715c622167d2bf92b6926e0aaf075c60da05bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 23/61] fix: a finite differenced group took a param for
 another one whose absolute name is the same

---
 openmdao/core/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 619e7ce..ec3f5b4 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -618,7 +618,8 @@ class System(object):
 
             # If our input is connected to a IndepVarComp, then we need to twiddle
             # the unknowns vector instead of the params vector.
-            src = self.connections.get(p_name)
+            # (Connections have absolute names, p_name is relative to here.)
+            src = None if self.pathname else self.connections.get(p_name)
             if src is not None:
                 param_src = src[0]  # just the name
 
-- 
2.43.0


From fc50f89b5b7a9fc26dc9183e0242117d59e00cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 24/61] fix: setting a design variable with indices wrote whole
 rows of a variable that is not flat

---
 openmdao/core/driver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 3724efe..cd1a4f1 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -518,7 +518,11 @@ class Driver(object):
             idx = meta.get('indices')
 
         if idx is not None:
-            self.root.unknowns[name][idx] = value
+            if isinstance(val, _ByObjWrapper):
+                self.root.unknowns[name][idx] = value
+            else:
+                # indices count the elements of the flattened variable
+                self.root.unknowns._dat[name].val[idx] = value
         else:
             self.root.unknowns[name] = value
 
-- 
2.43.0


From 64f10f7f6c1b9d5db05066d66ef00bddd02179c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 25/61] fix: setting element 0 of a design variable overwrote
 all of it

---
 openmdao/core/driver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index cd1a4f1..1691e49 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -478,7 +478,7 @@ class Driver(object):
             Index of the desvar to set.
         """
         # support for uncertain samples
-        if index:
+        if index is not None:
             val = self.root.unknowns._dat[name].val[index]
         else:
             val = self.root.unknowns._dat[name].val
@@ -491,7 +491,7 @@ class Driver(object):
         adder = meta['adder']
 
         if isinstance(scaler, np.ndarray):
-            if index:
+            if index is not None:
                 value = value/scaler[index]
             else:
                 value = value/scaler
@@ -504,7 +504,7 @@ class Driver(object):
         # (as in always doing the scaler/adder operation.)
 
         if isinstance(adder, np.ndarray):
-            if index:
+            if index is not None:
                 value = value - adder[index]
             else:
                 value = value - adder
@@ -512,7 +512,7 @@ class Driver(object):
             value = value - adder
 
         # Only set the indices we requested when we set the design variable.
-        if index:
+        if index is not None:
             idx = index
         else:
             idx = meta.get('indices')
-- 
2.43.0


From 3621cb4d48998b5490b27a3b611e7fb5480df9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 26/61] fix: indices of a driver variable given as an array or
 tuple were refused, dropped or misread

---
 openmdao/core/driver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 1691e49..5fcbd2c 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -362,7 +362,7 @@ class Driver(object):
         param['upper'] = upper
         param['adder'] = adder
         param['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             param['indices'] = np.array(indices, dtype=int)
 
         self._desvars[name] = param
@@ -568,8 +568,8 @@ class Driver(object):
         obj = OrderedDict()
         obj['adder'] = adder
         obj['scaler'] = scaler
-        if indices:
-            obj['indices'] = indices
+        if indices is not None and len(indices) > 0:
+            obj['indices'] = np.array(indices, dtype=int)
             if len(indices) > 1 and not self.supports['multiple_objectives']:
                 raise RuntimeError("Multiple objective indices specified for "
                                    "variable '%s', but driver '%s' doesn't "
@@ -706,8 +706,8 @@ class Driver(object):
         con['jacs'] = jacs
         con['active_tol'] = active_tol
 
-        if indices:
-            con['indices'] = indices
+        if indices is not None and len(indices) > 0:
+            con['indices'] = np.array(indices, dtype=int)
         self._cons[name] = con
 
     def get_constraints(self, ctype='all', lintype='all'):
-- 
2.43.0


From 2baabc3874c81cd9f81f5427f367cc976fa0d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 27/61] fix: the step limiter failed for bounded unknowns that
 are not flat and ignored those declared with pass_by_obj=False

---
 openmdao/core/vec_wrapper.py | 64 ++++++++++--------------------------
 1 file changed, 18 insertions(+), 46 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index ea87137..b12bb29 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -895,72 +895,44 @@ class SrcVecWrapper(VecWrapper):
                 # Skip any remote vars. Also, skip any vars that are
                 # pass_by_obj. Gradients are undefined for objects, so we
                 # can't determine how far to go to the bound anyway.
-                if 'remote' in meta or 'pass_by_obj' in meta:
+                if 'remote' in meta or meta.get('pass_by_obj'):
                     continue
 
-                val = self[name]
+                # flat values, as alpha is flat too
+                val = self._dat[name].val
+                step = duvec._dat[name].val
                 idx = duvec._dat[name].slice[0]
 
                 upper = meta.get('upper')
                 if upper is not None:
-                    diff = upper - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
+                    diff = numpy.ravel(upper) - val
+                    alpha_bound = diff/step
+                    for j, new_val in enumerate(alpha_bound):
 
                         # If we are already violated for any reason,
                         # bring it back to the boundary.
-                        if diff < 0.0:
-                            alpha[idx] = alpha_bound
+                        if diff[j] < 0.0:
+                            alpha[idx+j] = new_val
 
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
-
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] < 0.0:
+                        elif new_val >= 0.0:
+                            if new_val < alpha[idx+j]:
                                 alpha[idx+j] = new_val
 
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
-
                 lower = meta.get('lower')
                 if lower is not None:
-                    diff = lower - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
+                    diff = numpy.ravel(lower) - val
+                    alpha_bound = diff/step
+                    for j, new_val in enumerate(alpha_bound):
 
                         # If we are already violated for any reason,
                         # bring it back to the boundary.
-                        if diff > 0.0:
-                            alpha[idx] = alpha_bound
+                        if diff[j] > 0.0:
+                            alpha[idx+j] = new_val
 
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
-
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] > 0.0:
+                        elif new_val >= 0.0:
+                            if new_val < alpha[idx+j]:
                                 alpha[idx+j] = new_val
 
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
-
         # Return numpy warn to what it was
         finally:
             numpy.seterr(divide=old_warn['divide'], invalid=old_warn['invalid'])
-- 
2.43.0


From 51ddd4ea959e0692af0892c9b23be899380bfe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 28/61] fix: an infinite step length was granted to a violated
 unknown that does not move, which made it nan

---
 openmdao/core/vec_wrapper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index b12bb29..9118bd5 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -910,8 +910,9 @@ class SrcVecWrapper(VecWrapper):
                     for j, new_val in enumerate(alpha_bound):
 
                         # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff[j] < 0.0:
+                        # bring it back to the boundary, unless nothing
+                        # moves it.
+                        if diff[j] < 0.0 and step[j] != 0.0:
                             alpha[idx+j] = new_val
 
                         elif new_val >= 0.0:
@@ -925,8 +926,9 @@ class SrcVecWrapper(VecWrapper):
                     for j, new_val in enumerate(alpha_bound):
 
                         # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff[j] > 0.0:
+                        # bring it back to the boundary, unless nothing
+                        # moves it.
+                        if diff[j] > 0.0 and step[j] != 0.0:
                             alpha[idx+j] = new_val
 
                         elif new_val >= 0.0:
-- 
2.43.0


From 65ff28c33ae69290335bc2b292759fe4997f2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:22 +0000
Subject: [PATCH 29/61] fix: the shape of a source declared with
 pass_by_obj=False was never checked

---
 openmdao/core/_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 9cea879..3dc25d1 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -32,7 +32,7 @@ def check_connections(connections, params_dict, unknowns_dict, to_prom_name):
         tmeta = params_dict[tgt]
         smeta = unknowns_dict[src]
         _check_types_match(smeta, tmeta, to_prom_name)
-        if 'pass_by_obj' not in smeta and 'pass_by_obj' not in smeta:
+        if not smeta.get('pass_by_obj'):
             errors.extend(_check_shapes_match(smeta, tmeta, to_prom_name))
 
     # FileRefs require a separate check, because if multiple input FileRefs
-- 
2.43.0


From d52f3be696e1fd66e737b404ea6baa60b2214768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:28 +0000
Subject: [PATCH 30/61] fix: source indices of the wrong length were accepted
 when source and target have the same shape

---
 openmdao/core/_checks.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 3dc25d1..f1eebb7 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -110,17 +110,17 @@ def __check_shapes_match(src, target, to_prom_name):
 
     src_idxs = target.get('src_indices')
 
-    if src['shape'] != target['shape']:
-        if src_idxs is not None:
-            if len(src_idxs) != target['size']:
-                errors.append("Size %d of the indexed sub-part of source "
-                                 "%s must be the same as size %d of target "
-                                 "%s." %
-                                 (len(target['src_indices']),
-                                 _both_names(src, to_prom_name),
-                                 target['size'],
-                                 _both_names(target, to_prom_name)))
-        elif 'src_indices' in src:
+    if src_idxs is not None:
+        if len(src_idxs) != target['size']:
+            errors.append("Size %d of the indexed sub-part of source "
+                             "%s must be the same as size %d of target "
+                             "%s." %
+                             (len(target['src_indices']),
+                             _both_names(src, to_prom_name),
+                             target['size'],
+                             _both_names(target, to_prom_name)))
+    elif src['shape'] != target['shape']:
+        if 'src_indices' in src:
             if target['size'] != src['distrib_size']:
                 errors.append("Total size %d of  distributed source "
                         "%s must be the same as size "
-- 
2.43.0


From 97ee7c4fc2c6d54d188ba651162dc8945c34ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:50 +0000
Subject: [PATCH 31/61] fix: Gauss-Seidel and the line search reported a solve
 that converged on its last iteration as failed

---
 openmdao/solvers/backtracking.py    | 3 ++-
 openmdao/solvers/nl_gauss_seidel.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 6a664f0..ac486d2 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -146,7 +146,8 @@ class BackTracking(LineSearch):
             self.print_norm(self.print_name, system, itercount,
                             fnorm, fnorm0, indent=1, solver='LS')
 
-        if itercount >= maxiter or isnan(fnorm):
+        if isnan(fnorm) or (itercount >= maxiter and
+                            (base_norm - fnorm) < c*ls_alpha*base_norm):
 
             if self.options['err_on_maxiter']:
                 msg = "Solve in '{}': BackTracking failed to converge after {} " \
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 83e28bf..6aace60 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -200,7 +200,8 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(normval):
+        if isnan(normval) or (self.iter_count >= maxiter and normval > atol and
+                              normval/basenorm > rtol and u_norm > utol):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
-- 
2.43.0


From 27e2b7f6890379eaa0a82eae19e1ea47a230aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:10 +0000
Subject: [PATCH 32/61] fix: a failure inside Newton left the derivative
 options of its system changed and unlocked

---
 openmdao/solvers/newton.py | 141 +++++++++++++++++++------------------
 1 file changed, 71 insertions(+), 70 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 2643281..7ca0d8c 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -177,79 +177,80 @@ class Newton(NonLinearSolver):
         system.deriv_options.locked = False
         system.deriv_options['type'] = 'user'
 
-        while self.iter_count < maxiter and f_norm > atol and \
-                f_norm/f_norm0 > rtol and u_norm > utol:
-
-            # Linearize Model with partial derivatives
-            system._sys_linearize(params, unknowns, resids, total_derivs=False)
-
-            # Calculate direction to take step
-            arg.vec[:] = -resids.vec
-            with system._dircontext:
-                system.solve_linear(system.dumat, system.drmat,
-                                    [None], mode='fwd', solver=self.ln_solver,
-                                    rel_inputs=self.rel_inputs)
-
-            # Keeping this commented-out line here. This was a brute-force
-            # fix to a problem with subsystem linear solvers being corrupted
-            # by values left in out-of-scope dparams. It's mostly fixed, but
-            # there may be corner cases. If you see something weird, you
-            # could try uncommenting and see if this changes anything (which
-            # it should not.)
-            #system.clear_dparams()
-
-            self.iter_count += 1
-
-            # Allow different alphas for each value so we can keep moving when we
-            # hit a bound.
-            alpha = alpha_scalar*np.ones(len(unknowns.vec))
-
-            # If our step will violate any upper or lower bounds, then reduce
-            # alpha in just that direction so that we only step to that
-            # boundary.
-            alpha = unknowns.distance_along_vector_to_limit(alpha, result)
-
-            # Cache the current norm
-            if ls:
-                base_u[:] = unknowns.vec
-                base_norm = f_norm
-
-            # Apply step that doesn't violate bounds
-            unknowns_cache[:] = unknowns.vec
-            unknowns.vec += alpha*result.vec
-
-            # Metadata update
-            update_local_meta(local_meta, (self.iter_count, 0))
-
-            # Just evaluate (and optionally solve) the model with the new
-            # points
-            if self.options['solve_subsystems']:
-                system.children_solve_nonlinear(local_meta)
-            system.apply_nonlinear(params, unknowns, resids, local_meta)
-
-            self.recorders.record_iteration(system, local_meta)
-
-            f_norm = resids.norm()
-            u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
-            if iprint == 2:
+        try:
+            while self.iter_count < maxiter and f_norm > atol and \
+                    f_norm/f_norm0 > rtol and u_norm > utol:
+
+                # Linearize Model with partial derivatives
+                system._sys_linearize(params, unknowns, resids, total_derivs=False)
+
+                # Calculate direction to take step
+                arg.vec[:] = -resids.vec
+                with system._dircontext:
+                    system.solve_linear(system.dumat, system.drmat,
+                                        [None], mode='fwd', solver=self.ln_solver,
+                                        rel_inputs=self.rel_inputs)
+
+                # Keeping this commented-out line here. This was a brute-force
+                # fix to a problem with subsystem linear solvers being corrupted
+                # by values left in out-of-scope dparams. It's mostly fixed, but
+                # there may be corner cases. If you see something weird, you
+                # could try uncommenting and see if this changes anything (which
+                # it should not.)
+                #system.clear_dparams()
+
+                self.iter_count += 1
+
+                # Allow different alphas for each value so we can keep moving when we
+                # hit a bound.
+                alpha = alpha_scalar*np.ones(len(unknowns.vec))
+
+                # If our step will violate any upper or lower bounds, then reduce
+                # alpha in just that direction so that we only step to that
+                # boundary.
+                alpha = unknowns.distance_along_vector_to_limit(alpha, result)
+
+                # Cache the current norm
+                if ls:
+                    base_u[:] = unknowns.vec
+                    base_norm = f_norm
+
+                # Apply step that doesn't violate bounds
+                unknowns_cache[:] = unknowns.vec
+                unknowns.vec += alpha*result.vec
+
+                # Metadata update
+                update_local_meta(local_meta, (self.iter_count, 0))
+
+                # Just evaluate (and optionally solve) the model with the new
+                # points
+                if self.options['solve_subsystems']:
+                    system.children_solve_nonlinear(local_meta)
+                system.apply_nonlinear(params, unknowns, resids, local_meta)
+
+                self.recorders.record_iteration(system, local_meta)
+
+                f_norm = resids.norm()
+                u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
+                if iprint == 2:
+                    self.print_norm(self.print_name, system, self.iter_count,
+                                    f_norm, f_norm0, u_norm=u_norm)
+
+                # Line Search to determine how far to step in the Newton direction
+                if ls:
+                    f_norm = ls.solve(params, unknowns, resids, system, self,
+                                      alpha_scalar, alpha, base_u, base_norm,
+                                      f_norm, f_norm0, metadata)
+
+            # Final residual print if you only want the last one
+            if iprint == 1:
                 self.print_norm(self.print_name, system, self.iter_count,
                                 f_norm, f_norm0, u_norm=u_norm)
 
-            # Line Search to determine how far to step in the Newton direction
-            if ls:
-                f_norm = ls.solve(params, unknowns, resids, system, self,
-                                  alpha_scalar, alpha, base_u, base_norm,
-                                  f_norm, f_norm0, metadata)
-
-
-        # Final residual print if you only want the last one
-        if iprint == 1:
-            self.print_norm(self.print_name, system, self.iter_count,
-                            f_norm, f_norm0, u_norm=u_norm)
-
-        # Return system's FD status back to what it was
-        system.deriv_options['type'] = save_type
-        system.deriv_options.locked = True
+        finally:
+            # Return system's FD status back to what it was
+            system.deriv_options['type'] = save_type
+            system.deriv_options.locked = True
 
         if self.iter_count >= maxiter or isnan(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
-- 
2.43.0


From da6f01cfd7d63855499ce98a8169768c454b7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:27 +0000
Subject: [PATCH 33/61] fix: a nonlinear solve with an infinite residual, or an
 undefined change of its unknowns, was reported as converged

---
 openmdao/solvers/backtracking.py    | 7 ++++---
 openmdao/solvers/newton.py          | 5 +++--
 openmdao/solvers/nl_gauss_seidel.py | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index ac486d2..09434ba 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -1,6 +1,6 @@
 """ Backtracking line search using the Armijo-Goldstein condition."""
 
-from math import isnan
+from math import isnan, isinf
 
 import numpy as np
 
@@ -146,8 +146,9 @@ class BackTracking(LineSearch):
             self.print_norm(self.print_name, system, itercount,
                             fnorm, fnorm0, indent=1, solver='LS')
 
-        if isnan(fnorm) or (itercount >= maxiter and
-                            (base_norm - fnorm) < c*ls_alpha*base_norm):
+        if isnan(fnorm) or isinf(fnorm) or \
+                (itercount >= maxiter and
+                 (base_norm - fnorm) < c*ls_alpha*base_norm):
 
             if self.options['err_on_maxiter']:
                 msg = "Solve in '{}': BackTracking failed to converge after {} " \
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 7ca0d8c..11f2e8e 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -1,6 +1,6 @@
 """ Non-linear solver that implements a Newton's method."""
 
-from math import isnan
+from math import isnan, isinf
 
 import numpy as np
 
@@ -252,7 +252,8 @@ class Newton(NonLinearSolver):
             system.deriv_options['type'] = save_type
             system.deriv_options.locked = True
 
-        if self.iter_count >= maxiter or isnan(f_norm):
+        if self.iter_count >= maxiter or isnan(f_norm) or isinf(f_norm) or \
+                isnan(u_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 6aace60..30b4ef0 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -1,6 +1,6 @@
 """ Gauss Seidel non-linear solver."""
 
-from math import isnan
+from math import isnan, isinf
 
 import numpy as np
 
@@ -200,8 +200,9 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        if isnan(normval) or (self.iter_count >= maxiter and normval > atol and
-                              normval/basenorm > rtol and u_norm > utol):
+        if isnan(normval) or isinf(normval) or isnan(u_norm) or \
+                (self.iter_count >= maxiter and normval > atol and
+                 normval/basenorm > rtol and u_norm > utol):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
-- 
2.43.0


From a9591470e96fa5343fa64edc272edefb958e9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 34/61] fix: repeated interchanges in one column keep a Latin
 hypercube

---
 openmdao/drivers/latinhypercube_driver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index f62337b..78dd521 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -234,8 +234,7 @@ class _LHC_Individual(object):
             while el1 == el2:
                 el2 = randint(0, n - 1)
 
-            new_doe[el1, col] = self.doe[el2, col]
-            new_doe[el2, col] = self.doe[el1, col]
+            new_doe[[el1, el2], col] = new_doe[[el2, el1], col]
 
         return _LHC_Individual(new_doe, self.q, self.p)
 
-- 
2.43.0


From 9cf2653039ede8ca78faf864d4b5606d8b368800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 35/61] fix: an optimized Latin hypercube of one sample does
 not loop forever

---
 openmdao/drivers/latinhypercube_driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index 78dd521..3639fe8 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -225,6 +225,9 @@ class _LHC_Individual(object):
 
         new_doe = self.doe.copy()
         n, k = self.doe.shape
+        if n < 2:
+            # a single sample has nothing to interchange
+            mutation_count = 0
         for count in range(mutation_count):
             col = randint(0, k - 1)
 
-- 
2.43.0


From e79e9e31ca213864628a351866f46c91ecb550ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:57 +0000
Subject: [PATCH 36/61] fix: a parallel worker reports the results of a case,
 not those of the next one it runs

---
 openmdao/drivers/predeterminedruns_driver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4d77d9b..7c48f5a 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -6,6 +6,7 @@ from __future__ import print_function
 
 import sys
 import os
+import copy
 import traceback
 import logging
 from itertools import chain
@@ -57,8 +58,11 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
                 if terminate:
                     complete_case = (metadata, [])
                 else:
+                    # the queue pickles in another thread, possibly not before
+                    # the next case has changed the model
                     complete_case = (metadata,
-                             [_get_root_var(root, n) for n in response_vars])
+                             [copy.deepcopy(_get_root_var(root, n))
+                              for n in response_vars])
             except:
                 # we generally shouldn't get here, but just in case,
                 # handle it so that the main process doesn't hang at the
-- 
2.43.0


From 6ff54c48d0639787e50c1adc5ed67fa533b0e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:57 +0000
Subject: [PATCH 37/61] fix: a parallel worker that has failed answers the
 cases it drops, so that the run ends

---
 openmdao/drivers/predeterminedruns_driver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 7c48f5a..37ec956 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -49,6 +49,8 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
             #logging.info("worker %d, case id %d, case %s" % (worker_id, case_id, case))
 
             if terminate:
+                # every case that was handed out has to be answered
+                response_queue.put((metadata, []))
                 continue
 
             metadata = driver._prep_case(case, case_id)
-- 
2.43.0


From 111e2f94766c611771d5d0163bb1d23115f93510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:35 +0000
Subject: [PATCH 38/61] fix: linear Gauss-Seidel reported a solve that
 converged on its last iteration as failed, and one that diverged to nan as
 converged

---
 openmdao/solvers/ln_gauss_seidel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index 0a478ad..bebc6a4 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -223,7 +223,11 @@ class LinearGaussSeidel(LinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, indent=1, solver='LN')
 
-        if maxiter > 1 and self.iter_count >= maxiter:
+        # (a norm that is not a number has not converged either)
+        converged = f_norm <= self.options['atol'] or \
+            f_norm/f_norm0 <= self.options['rtol']
+
+        if maxiter > 1 and not converged:
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             failed = True
         else:
-- 
2.43.0


From e223c2601a13f662a4822a900aae64f38d274b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:35 +0000
Subject: [PATCH 39/61] fix: a direct solver inside of the solve for one
 quantity of interest overwrote the vectors of that solve

---
 openmdao/solvers/ln_direct.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/openmdao/solvers/ln_direct.py b/openmdao/solvers/ln_direct.py
index 383eb2c..be5033a 100644
--- a/openmdao/solvers/ln_direct.py
+++ b/openmdao/solvers/ln_direct.py
@@ -121,20 +121,24 @@ class DirectSolver(MultLinearSolver):
         for voi, rhs in rhs_mat.items():
 
             # When only some of the variables are relevant to a quantity of
-            # interest, it has its own (smaller) system to solve.
-            self.voi = None
+            # interest, it has its own (smaller) system to solve. The columns
+            # are computed in its own vectors in any case: those of other
+            # quantities of interest may share their memory with the vectors of
+            # a solve that is going on in a parent system.
+            self.voi = voi
+            key = None
             if system.dumat[voi].vec.size != system.dumat[None].vec.size:
-                self.voi = voi
+                key = voi
 
-            if self.voi not in self._cache:
+            if key not in self._cache:
                 self.jacobian, _ = system.assemble_jacobian(mode=mode, method=method,
                                                             mult=self.mult, voi=self.voi)
                 self.lup = None
                 if self.options['solve_method'] == 'LU':
                     self.lup = lu_factor(self.jacobian)
-                self._cache[self.voi] = (self.jacobian, self.lup)
+                self._cache[key] = (self.jacobian, self.lup)
 
-            self.jacobian, self.lup = self._cache[self.voi]
+            self.jacobian, self.lup = self._cache[key]
 
             if self.options['solve_method'] == 'LU':
                 deriv = lu_solve(self.lup, rhs)
-- 
2.43.0


From 102bc161c433106e23e77277b6f78bda200a779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:07 +0000
Subject: [PATCH 40/61] fix: the states of a finite differenced group had no
 derivative of their own in the linear system

---
 openmdao/core/system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index ec3f5b4..309c298 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -830,6 +830,9 @@ class System(object):
         """
         force_fd = self.deriv_options['type'] is not 'user'
         states = self.states
+        if force_fd and self._local_subsystems:
+            # The total derivatives of a group treat its states as outputs.
+            states = ()
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
 
-- 
2.43.0


From f61619eafd55897c7261361fabbafff9b7d6989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 41/61] fix: the assembled jacobian left out the derivatives of
 a finite differenced group

---
 openmdao/core/group.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 1a7a502..f9482cd 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -258,6 +258,22 @@ class Group(System):
         return self.subsystems(local=local, recurse=recurse, typ=Component,
                                include_self=include_self)
 
+    def _jacobian_systems(self):
+        """
+        Returns
+        -------
+        iterator
+            Iterator over the systems in this `Group` that have a Jacobian of
+            their own: its `Components`, except for those in a finite
+            differenced `Group`, which has one for all of them.
+        """
+        for sub in itervalues(self._subsystems):
+            if isinstance(sub, Group) and sub.deriv_options['type'] == 'user':
+                for s in sub._jacobian_systems():
+                    yield s
+            else:
+                yield sub
+
     def _init_sys_data(self, parent_path, probdata):
         """Set the absolute pathname of each `System` in the tree.
 
@@ -1037,7 +1053,7 @@ class Group(System):
             conn = self.connections
             sys_prom_name = self._sysdata.to_prom_name
 
-            for sub in self.components(recurse=True):
+            for sub in self._jacobian_systems():
 
                 jac = sub._jacobian_cache
 
@@ -1051,8 +1067,10 @@ class Group(System):
                 sub_name = sub.pathname
                 user = sub.deriv_options['type'] == 'user'
 
-                # The residual of a state has no implied -I term.
-                for var in sub.states:
+                # The residual of a state has no implied -I term (but the total
+                # derivatives of a group treat its states as outputs).
+                states = () if isinstance(sub, Group) else sub.states
+                for var in states:
                     s_var_pro = sys_prom_name['.'.join((sub_name, var))]
                     if s_var_pro in u_vec:
                         s_start, s_end = u_vec._dat[s_var_pro].slice
@@ -1065,13 +1083,13 @@ class Group(System):
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
-                        o_var_abs = '.'.join((sub_name, o_var))
+                        o_var_abs = sub.unknowns._dat[o_var].meta['pathname']
                         i_var_abs = '.'.join((sub_name, i_var))
                         i_var_pro = sys_prom_name[i_var_abs]
                         o_var_pro = sys_prom_name[o_var_abs]
 
                         # States are fine ...
-                        if i_var in sub.states:
+                        if i_var in states:
                             pass
 
                         #... but inputs need to find their source.
@@ -1099,7 +1117,7 @@ class Group(System):
                     J = jac[key]
                     cols = np.arange(i_start, i_end)
 
-                    if i_var not in sub.states:
+                    if i_var not in states:
                         meta = sub.params._dat[i_var].meta
 
                         # A param may be connected to some of its source's
-- 
2.43.0


From 7537897ebd19e76560d6c567c992e519fe878b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 42/61] fix: finite difference of a Group uses the settings of
 each promoted param

Group._get_fd_params gives the params of a Group by the names they have in it,
but fd_jacobian looked only for promoted names, so the step_size, form and
step_calc given to a promoted param were ignored.
---
 openmdao/core/system.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 309c298..e976edd 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -646,7 +646,11 @@ class System(object):
             # params.  We've checked earlier to make sure that step_size,
             # step_calc, type, and form are not defined differently for each
             # matching param.  If they differ, a warning has already been issued.
-            if p_name in abs_pnames:
+            # The params of a Group are given by their own names in it.
+            abs_name = '.'.join((self.pathname, p_name)) if self.pathname else p_name
+            if abs_name in self._params_dict:
+                mydict = self._params_dict[abs_name]
+            elif p_name in abs_pnames:
                 mydict = self._params_dict[abs_pnames[p_name][0]]
 
             # Local settings for this var trump all
-- 
2.43.0


From 40e0066bc96fa82d31a10c49dac9923e85d13972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 43/61] fix: complex step of a component ignored the unit
 conversion of the stepped param

Also let a component with pass_by_obj variables be complex stepped; the wrapper
of its unknowns expected every variable to have a shape.
---
 openmdao/core/vec_wrapper_complex_step.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index dbd2b59..1933608 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -33,7 +33,12 @@ class ComplexStepTgtVecWrapper(object):
             The unflattened value of the named variable.
         """
         if name == self.step_var:
-            return self.step_val.reshape(self.vecwrap[name].shape)
+            val = self.step_val
+            meta = self.vecwrap._dat[name].meta
+            if 'unit_conv' in meta:
+                scale, offset = meta['unit_conv']
+                val = scale*(val + offset)
+            return val.reshape(self.vecwrap[name].shape)
 
         return self.vecwrap._dat[name].get()
 
@@ -150,6 +155,9 @@ class ComplexStepSrcVecWrapper(object):
 
         # Make complex copies of every unknown or state
         for name, val in iteritems(vec):
+            if val.get('pass_by_obj'):
+                self.vals[name] = vec[name]
+                continue
             self.vals[name] = np.zeros(val['shape'], dtype=np.complex)
             self.vals[name][:] = vec[name]
 
-- 
2.43.0


From ff3fe3f6594c7625cce0f52389d4a1d81c9f9890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 44/61] fix: complex step of a component overwrote its
 residuals

---
 openmdao/core/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 9c67408..0d929a8 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -886,6 +886,9 @@ class Component(System):
             step_size = option_overrides.get('check_step_size', step_size)
 
         jac = {}
+        # The wrappers share the real vectors, so running the component
+        # through them overwrites the residuals.
+        saved_resids = resids.vec.copy()
         csparams = ComplexStepTgtVecWrapper(params)
         csunknowns = ComplexStepSrcVecWrapper(unknowns)
         csresids = ComplexStepSrcVecWrapper(resids)
@@ -946,6 +949,8 @@ class Component(System):
             # different vector (state vs param)
             stepvec.set_complex_var(None)
 
+        resids.vec[:] = saved_resids
+
         return jac
 
     def alloc_jacobian(self):
-- 
2.43.0


From f5955a641e8b57ce9126999e576bcee1818245af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 45/61] fix: finite difference of a problem with pass_by_obj
 independent variables

---
 openmdao/core/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index f9482cd..3ef0a69 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -631,7 +631,8 @@ class Group(System):
                     scname = src.rsplit('.', 1)[0]
                     if mypath == scname[:mplen]:
                         src_comp = self.find_subsystem(scname[mplen:])
-                        if isinstance(src_comp, IndepVarComp):
+                        if isinstance(src_comp, IndepVarComp) and \
+                                not self._unknowns_dict[src].get('pass_by_obj'):
                             params.append(tgt[mplen:])
                     else:
                         scoped_tgt = tgt[mplen:]
-- 
2.43.0


From edc9a62f78a6bf7a844f64d30c70ccaa3a604ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:15 +0000
Subject: [PATCH 46/61] fix: finite difference of the residuals started from
 residuals of another point

The residuals a partial derivative is taken of were those left from the last
time they were evaluated, which may have been at other values.
---
 openmdao/core/system.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index e976edd..67247de 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -595,13 +595,20 @@ class System(object):
             if fd_states is not None:
                 states = fd_states
 
-        cache1 = resultvec.vec.copy()
-
         # Running the model changes more than the result vector, so remember
         # everything that has to be put back.
         saved = [unknowns, resids] if total_derivs else [params, unknowns, resids]
         saved = [(vec.vec, vec.vec.copy()) for vec in saved]
 
+        if not total_derivs:
+            # The residuals may not have been evaluated at the current point.
+            run_model(params, unknowns, resids)
+
+        cache1 = resultvec.vec.copy()
+
+        for vec, old_vals in saved:
+            vec[:] = old_vals
+
         gather_jac = False
 
         fd_count = -1
-- 
2.43.0


From aaae36e65e9e1f208b5ee21333b7d0eb342e70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:08 +0000
Subject: [PATCH 47/61] fix: complex steps of a component started from the
 results of the step before

---
 openmdao/core/component.py                | 3 +++
 openmdao/core/vec_wrapper_complex_step.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 0d929a8..c396a9e 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -936,6 +936,9 @@ class Component(System):
             # apply Complex Step on each index in array
             for j, idx in enumerate(p_idxs):
 
+                # Every step starts from the same values.
+                csunknowns._reset_vals()
+
                 stepvec.step_complex(idx, fdstep)
                 self._sys_apply_nonlinear(csparams, csunknowns, csresids)
 
diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index 1933608..55b141e 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -152,8 +152,11 @@ class ComplexStepSrcVecWrapper(object):
         self.step_var = None
         self.step_val = None
         self.vals = {}
+        self._reset_vals()
 
-        # Make complex copies of every unknown or state
+    def _reset_vals(self):
+        """ Make complex copies of every unknown or state."""
+        vec = self.vecwrap
         for name, val in iteritems(vec):
             if val.get('pass_by_obj'):
                 self.vals[name] = vec[name]
-- 
2.43.0


From 10522e7724fd653635417586dd1bd92b4dbfad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:08 +0000
Subject: [PATCH 48/61] fix: finite difference of an index wanted twice of an
 independent variable filled one row only

---
 openmdao/core/system.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 67247de..58ee61e 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -788,10 +788,9 @@ class System(object):
                     for u_name in pass_unknowns:
                         if u_name == param_src:
                             if qoi_indices and u_name in qoi_indices:
-                                q_idxs = qoi_indices[u_name]
-                                if idx in q_idxs:
-                                    row = list(q_idxs).index(idx)
-                                    jac[u_name, p_name][row][col] = 1.0
+                                for row, q_idx in enumerate(qoi_indices[u_name]):
+                                    if q_idx == idx:
+                                        jac[u_name, p_name][row][col] = 1.0
                             else:
                                 jac[u_name, p_name][idx][col] = 1.0
 
-- 
2.43.0


From 078f3ad378afad2734b3a4969fbb323b5d309113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 49/61] fix: InMemoryRecorder keeps the values of an iteration
 instead of references to the live vectors

---
 openmdao/recorders/inmem_recorder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 8ec23f4..4bb7d8b 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -5,6 +5,7 @@ and using it for real problems could use up large amounts of memory.
 """
 
 import sys
+from copy import deepcopy
 
 from six import string_types, iteritems
 
@@ -78,17 +79,17 @@ class InMemoryRecorder(BaseRecorder):
         data['msg'] = metadata['msg']
 
         if self.options['record_params']:
-            data['params'] = {p:v for p,v in
+            data['params'] = {p:deepcopy(v) for p,v in
                                  iteritems(self._filter_vector(params,'p',
                                                         iteration_coordinate))}
 
         if self.options['record_unknowns']:
-            data['unknowns'] = {u:v for u,v in
+            data['unknowns'] = {u:deepcopy(v) for u,v in
                                   iteritems(self._filter_vector(unknowns,'u',
                                                         iteration_coordinate))}
 
         if self.options['record_resids']:
-            data['resids'] = {r:v for r,v in
+            data['resids'] = {r:deepcopy(v) for r,v in
                                   iteritems(self._filter_vector(resids,'r',
                                                          iteration_coordinate))}
 
-- 
2.43.0


From 0461fb395aff4e0c333f5c6dae7b4fafb0dd1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:20 +0000
Subject: [PATCH 50/61] fix: iteration coordinates of nested solvers name each
 level once

---
 openmdao/solvers/backtracking.py    | 2 +-
 openmdao/solvers/brent.py           | 2 +-
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 09434ba..ab3a30a 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -101,7 +101,7 @@ class BackTracking(LineSearch):
         c = self.options['c']
         iprint = self.options['iprint']
         result = system.dumat[None]
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
 
         itercount = 0
         ls_alpha = alpha_scalar
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index d443ffc..44327c0 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -142,7 +142,7 @@ class Brent(NonLinearSolver):
         """
         self.sys = system
         self.metadata = metadata
-        self.local_meta = create_local_meta(self.metadata, self.sys.pathname)
+        self.local_meta = create_local_meta(self.metadata, self.sys.name)
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 11f2e8e..41d70d2 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -147,7 +147,7 @@ class Newton(NonLinearSolver):
 
         # Metadata setup
         self.iter_count = 0
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         if self.ln_solver:
             self.ln_solver.local_meta = local_meta
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 30b4ef0..7888406 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -107,7 +107,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.iter_count = 1
 
         # Metadata setup
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
-- 
2.43.0


From 4b393863c268e01d3bca3f3f8dd9d5319656366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 51/61] fix: ScipyOptimizer computes the gradient at the point
 it is asked for

Newton-CG asks for gradients at points where it has not evaluated the
objective; _gradfunc ignored x_new and returned the gradient of the last
point the model ran at.
---
 openmdao/drivers/scipy_optimizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 58bd891..f5b9afd 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -83,6 +83,7 @@ class ScipyOptimizer(Driver):
         self.exit_flag = 0
         self.grad_cache = None
         self.con_cache = None
+        self._x_run = None
         self.con_idx = OrderedDict()
         self.cons = None
         self.objs = None
@@ -197,6 +198,7 @@ class ScipyOptimizer(Driver):
             jac = None
 
         # optimize
+        self._x_run = None
         self._problem = problem
         result = minimize(self._objfunc, x_init,
                           #args=(),
@@ -237,6 +239,7 @@ class ScipyOptimizer(Driver):
         metadata = self.metadata
 
         # Pass in new parameters
+        self._x_run = np.array(x_new)
         i = 0
         for name, meta in self.get_desvar_metadata().items():
             size = meta['size']
@@ -330,6 +333,11 @@ class ScipyOptimizer(Driver):
             Gradient of objective with respect to parameter array.
         """
 
+        # Some optimizers (e.g., Newton-CG) also ask for the gradient at points
+        # where they have not evaluated the objective.
+        if not np.array_equal(x_new, self._x_run):
+            self._objfunc(x_new)
+
         grad = self.calc_gradient(self.params, self.objs+self.cons,
                                   return_format='array')
         self.grad_cache = grad
-- 
2.43.0


From eae52f4d893178b2affd311f3b1df4a014bcb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:05 +0000
Subject: [PATCH 52/61] fix: record the shape of the value a variable was
 declared with, not an unused shape argument

---
 openmdao/core/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index c396a9e..0110355 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -162,8 +162,8 @@ class Component(System):
             meta['size'] = 0
             meta['pass_by_obj'] = True
 
-        if isinstance(shape, int) and shape > 1:
-            meta['shape'] = (shape,)
+            if isinstance(shape, int) and shape > 1:
+                meta['shape'] = (shape,)
 
         if 'low' in kwargs:
             raise TypeError("Used arg 'low' when adding variable '%s'. "
-- 
2.43.0


From 708675d5b00b0b012b199f09bed5070d6d8a3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:05 +0000
Subject: [PATCH 53/61] fix: metamodel training gives each array-valued param
 its own columns

---
 openmdao/components/meta_model.py         | 1 +
 openmdao/components/multifi_meta_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 671a00e..c5f7b09 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -332,6 +332,7 @@ class MetaModel(Component):
                         if not isinstance(v, np.ndarray):
                             v = np.array(v)
                         new_input[row_idx, idx:idx+sz] = v.flat
+                    idx += sz
 
         # add training data for each output
         for name, shape in self._surrogate_output_names:
diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index d6bec20..f509d96 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -182,6 +182,7 @@ class MultiFiMetaModel(MetaModel):
                             if not isinstance(v, np.ndarray):
                                 v = np.array(v)
                             new_inputs[fi][row_idx, idx[fi]:idx[fi]+sz] = v.flat
+                        idx[fi] += sz
 
         # add training data for each output
         outputs=self._nfi*[None]
-- 
2.43.0


From 814f747852504df9df5f4e7a103ffb5fc5e33e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:25 +0000
Subject: [PATCH 54/61] fix: multi-fidelity metamodel finds the training data
 of every fidelity level

---
 openmdao/components/multifi_meta_model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index f509d96..7194e4b 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -127,26 +127,26 @@ class MultiFiMetaModel(MetaModel):
         num_sample = self._nfi*[None]
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if num_sample[fi] is None:
                     num_sample[fi] = len(val)
                 elif len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number"\
                           " of training points. Expected {0} but found {1} "\
                           "points for '{2}'."\
-                          .format(num_sample[fi], len(val), name)
+                          .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         for name, shape in self._surrogate_output_names:
             for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
+                name_fi = _get_name_fi(name, fi)
+                val = self.params['train:' + name_fi]
                 if len(val) != num_sample[fi]:
                     msg = "MetaModel: Each variable must have the same number" \
                           " of training points. Expected {0} but found {1} " \
                           "points for '{2}'." \
-                        .format(num_sample[fi], len(val), name)
+                        .format(num_sample[fi], len(val), name_fi)
                     raise RuntimeError(msg)
 
         if self.warm_restart:
@@ -172,8 +172,8 @@ class MultiFiMetaModel(MetaModel):
         for name, sz in self._surrogate_param_names:
             for fi in range(self._nfi):
                 if num_sample[fi] > 0:
-                    name = _get_name_fi(name, fi)
-                    val = self.params['train:' + name]
+                    name_fi = _get_name_fi(name, fi)
+                    val = self.params['train:' + name_fi]
                     if isinstance(val[0], float):
                         new_inputs[fi][:, idx[fi]] = val
                         idx[fi] += 1
-- 
2.43.0


From ddc3244902fa21ea4f1c52f6cd9ba537ea6cbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:41 +0000
Subject: [PATCH 55/61] fix: ExecComp variable names with colons that are part
 of other names

---
 openmdao/components/exec_comp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index f688bdc..bee273f 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -178,7 +178,8 @@ class ExecComp(Component):
     def _compile_exprs(self, exprs):
         exprs = exprs[:]
         for i in range(len(exprs)):
-            for n in self._colon_names:
+            # longest first, as one name may be part of another
+            for n in sorted(self._colon_names, key=len, reverse=True):
                 exprs[i] = exprs[i].replace(n, self._from_colons[n])
 
         return [compile(expr, expr, 'exec') for expr in exprs]
-- 
2.43.0


From 1f3129d44fae3b0aa7eeb46d7b690015949019af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:41 +0000
Subject: [PATCH 56/61] fix: gradients of two radial basis functions (comp=-3,
 and comp=1 with one input)

---
 .../surrogate_models/nn_interpolators/rbf_interpolator.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index 4f599e4..e0c7423 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -157,7 +157,7 @@ class RBFInterpolator(NNBase):
             #                             (216. * T * T) + (120. * T * T * T) +
             #                             (25. * T * T * T * T)))
         elif self.comp == -3:
-            frnt = T / np.sqrt((T * T) * 1.)
+            frnt = T / np.sqrt((T * T) + 1.)
             dRp_poly = [1.]
         else:
             dims = self._indep_dims + 1
@@ -170,7 +170,7 @@ class RBFInterpolator(NNBase):
                     # dRp = -1.
                 elif self.comp == 1:
                     frnt = 1.
-                    dRp_poly = [1., -2., 1., 0.]
+                    dRp_poly = [-1., 2., -1., 0.]
                     # dRp = -T * (1. - T) * (1. - T)
                 elif self.comp == 2:
                     frnt = np.power(1. - T, 4.) / -20.
-- 
2.43.0


From 2c2b2bad294d465e95d5120b33b45644f441ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:41 +0000
Subject: [PATCH 57/61] fix: gradient of the linear interpolant with one input
 and several outputs

---
 .../surrogate_models/nn_interpolators/linear_interpolator.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index 9b2b7c4..78f7c75 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -109,7 +109,7 @@ class LinearInterpolator(NNBase):
         normal, pc = self._find_hyperplane(nloc)
         if np.any(normal[:, -1, :]) == 0:
             return gradient
-        gradient[:] = (-normal[:, :-1, :] / normal[:, -1, :]).squeeze().T
+        gradient[:] = np.transpose(-normal[:, :-1, :] / normal[:, -1:, :], (0, 2, 1))
 
         grad = gradient * (self._tvr[:, np.newaxis] / self._tpr)
         return grad
-- 
2.43.0


From e697a470d601df7cb8cc1e724b06be6e24bc431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:41 +0000
Subject: [PATCH 58/61] fix: nearest neighbor surrogates leave the shape of the
 point they are evaluated at

---
 .../surrogate_models/nn_interpolators/linear_interpolator.py  | 4 ++--
 .../surrogate_models/nn_interpolators/rbf_interpolator.py     | 4 ++--
 .../nn_interpolators/weighted_interpolator.py                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index 78f7c75..57a5c61 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -54,7 +54,7 @@ class LinearInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
@@ -92,7 +92,7 @@ class LinearInterpolator(NNBase):
 
         if len(PredPoints.shape) == 1:
             # Reshape vector to n x 1 array
-            PredPoints.shape = (1, PredPoints.shape[0])
+            PredPoints = PredPoints.reshape((1, PredPoints.shape[0]))
 
         normPredPts = (PredPoints - self._tpm) / self._tpr
         nppts = normPredPts.shape[0]
diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index e0c7423..17d02f4 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -290,7 +290,7 @@ class RBFInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         nppts = normalized_pts.shape[0]
@@ -317,7 +317,7 @@ class RBFInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         # Setup prediction points and find their radial neighbors
diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index da9be5c..bf8c4e7 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -37,7 +37,7 @@ class WeightedInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
         nppts = normalized_pts.shape[0]
@@ -77,7 +77,7 @@ class WeightedInterpolator(NNBase):
 
         if len(prediction_points.shape) == 1:
             # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
+            prediction_points = prediction_points.reshape((1, prediction_points.shape[0]))
 
         normalized_pts = (prediction_points - self._tpm) / self._tpr
 
-- 
2.43.0


From 41a46f88406cda45c3afb48dee4c8a1ca5432ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:41 +0000
Subject: [PATCH 59/61] fix: warm restart of a multi-fidelity metamodel with a
 single fidelity level

---
 openmdao/components/multifi_meta_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index 7194e4b..5614005 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -89,7 +89,8 @@ class MultiFiMetaModel(MetaModel):
         self._nfi = nfi
 
         # generalize MetaModel training inputs to a list of training inputs
-        self._training_input = nfi*[np.zeros(0)]
+        if nfi > 1:
+            self._training_input = nfi*[np.zeros(0)]
         self._input_sizes = nfi*[0]
 
     def add_param(self, name, val=_NotSet, **kwargs):
@@ -106,7 +107,8 @@ class MultiFiMetaModel(MetaModel):
 
     def add_output(self, name, val=_NotSet, **kwargs):
         super(MultiFiMetaModel, self).add_output(name, val, **kwargs)
-        self._training_output[name]=self._nfi*[np.zeros(0)]
+        if self._nfi > 1:
+            self._training_output[name]=self._nfi*[np.zeros(0)]
 
         # Add train:<outvar>_fi<n>
         for fi in range(self._nfi):
-- 
2.43.0


From 1a56dd88bfd872c3fdef96177ae9cb316e68f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 60/61] fix: gradient rows of active constraints solved for
 together with inactive ones

---
 openmdao/core/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 4d1d977..d750d33 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1730,11 +1730,13 @@ class Problem(object):
                 # linear solve. Instead, allocate zeros for the solution and
                 # let the remaining code partition that into the return array
                 # or dict.
-                if inactives and not fwd and voi in inactives and i in inactives[voi]:
+                # All of the variables of the group are solved for together.
+                if inactives and not fwd and \
+                   all(v in inactives and i in inactives[v] for v in params):
                     dx_mat = OrderedDict()
                     for voi in params:
                         vkey = self._get_voi_key(voi, params)
-                        dx_mat[vkey] = np.zeros((len(duvec.vec), ))
+                        dx_mat[vkey] = np.zeros((len(rhs[vkey]), ))
 
                 else:
                     for voi in params:
-- 
2.43.0


From 74bf19d59b10f1ad6d8080669f99e9d3c4606c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:41 +0000
Subject: [PATCH 61/61] fix: DumpRecorder labels a failed iteration as it
 labels a successful one

---
 openmdao/recorders/dump_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 49167f4..7274852 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -158,7 +158,7 @@ class DumpRecorder(BaseRecorder):
         if latest iteration didn't succeed.
         """
         self.out.write("Iteration succeeded: %s\n" %
-                           'yes' if metadata['success'] else 'no')
+                           ('yes' if metadata['success'] else 'no'))
         if not metadata['success']:
             self.out.write("Error msg: %s\n" % metadata['msg'])
 
-- 
2.43.0

