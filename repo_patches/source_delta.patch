From e5b2fa14af9e582a663f6b444f84a9a1ddbd8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:03 +0000
Subject: [PATCH 01/17] fix: treat an unreadable matrix cache file as a miss

A crash or a full disk while a cache file was being written left a torn
pickle behind, and every later import or lookup failed on it.
---
 vts/matrix_of_signs.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/vts/matrix_of_signs.py b/vts/matrix_of_signs.py
index 8bcdb07..c10bbe6 100644
--- a/vts/matrix_of_signs.py
+++ b/vts/matrix_of_signs.py
@@ -17,8 +17,13 @@ def write_to_cache(name, obj):
 def cache_hit(name):
   return os.path.isfile(os.path.join('cache', name))
 def read_cache(name):
-  with open(os.path.join('cache', name), 'rb') as f:
-    return pickle.load(f)
+  # a file that can't be read (e.g. writing it was cut short) is not a hit
+  try:
+    with open(os.path.join('cache', name), 'rb') as f:
+      return pickle.load(f)
+  except Exception as exception:
+    print "ignoring unreadable cache file %s (%r)" %(name, exception)
+    return None
     
 def load_or_create_matrix():
   # TODO remove old implementation
@@ -79,8 +84,9 @@ def new_get_matrix(n):
   if cache_hit(name):
     print "hit for %d" %n
     matrix = read_cache(name)
-    lookup[n] = matrix
-    return matrix
+    if matrix is not None:
+      lookup[n] = matrix
+      return matrix
 
   
   print "miss for %d" %n
@@ -121,8 +127,9 @@ def new_get_matrix_inverse(n):
   if cache_hit(name):
     print "inv hit for %d" %n
     matrix = read_cache(name)
-    lookup[n] = matrix
-    return matrix
+    if matrix is not None:
+      lookup[n] = matrix
+      return matrix
 
   
   print "inv miss for %d" %n
@@ -164,7 +171,9 @@ def load_or_create_inverse():
   cache_key = 'matrix_of_signs_inverse.pkl'
   if cache_hit(cache_key):
     print 'getting from cache'
-    return read_cache(cache_key)
+    ret = read_cache(cache_key)
+    if ret is not None:
+      return ret
     
   print 'creating new'
   
-- 
2.43.0


From 9650b65d05cfc1cce152cbf0375e6ab096591416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 02/17] fix: hand out copies of the cached matrices of signs

A caller that changed the matrix it got changed every later lookup, and
the inverses that were then computed and cached on disk.
---
 vts/matrix_of_signs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vts/matrix_of_signs.py b/vts/matrix_of_signs.py
index c10bbe6..ac548f2 100644
--- a/vts/matrix_of_signs.py
+++ b/vts/matrix_of_signs.py
@@ -145,7 +145,8 @@ def new_get_matrix_inverse(n):
   return inverse
 
 def get_matrix(polies_size):
-  return new_get_matrix(polies_size)
+  # a copy, callers may change what they get
+  return new_get_matrix(polies_size).copy()
   global matrix_of_signs_lookup
   
   if polies_size in matrix_of_signs_lookup:
@@ -184,7 +185,8 @@ def load_or_create_inverse():
 matrix_of_signs_inverse_lookup = load_or_create_inverse()
 
 def get_matrix_inverse(polies_size):
-  return new_get_matrix_inverse(polies_size)
+  # a copy, callers may change what they get
+  return new_get_matrix_inverse(polies_size).copy()
   global matrix_of_signs_inverse_lookup
   
   if polies_size in matrix_of_signs_inverse_lookup:
-- 
2.43.0


From 7f61a1b757b6d36b8d11e5caa183a06488080608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:29 +0000
Subject: [PATCH 03/17] fix: term substitution tests the value of each
 polynomial

evaluate() threw the value away and compared the builtin sum with zero,
so ts never found an equality or inequality satisfied.
---
 vts/uni_vts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..2173e40 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,10 +777,10 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    value = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
-    if not strategy.condition(sum):
+    if not strategy.condition(value):
       raise ConditionExc(point, poly, strategy.msg)
       
 def evaluate_vts_root(root, eq, lt):
-- 
2.43.0


From 8182f0a299cda2db36bd664dcac292d1e31b73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 04/17] fix: parsing a variable no longer rebinds a global of
 grf_parser

sympy.var injects the symbol into the calling module, so a variable called
sympy made that parse and every later one fail.
---
 vts/grf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..2c68eca 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,8 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  # not sympy.var, it would also bind the name in this module
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From 9f6ab5ba53ab58c66943f9622f019279b0fa5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 05/17] fix: read the example store where it is written

---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..46786d4 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -90,7 +90,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -127,7 +127,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From e15c97f13079372729effb480a1dd2fbd54008a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 06/17] fix: the example checker survives a refuted formula

---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..53f96cd 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[(file_index, ex_index)] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0


From ecd12cf185c0fb515997b01ae186f5d418f2cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:23 +0000
Subject: [PATCH 07/17] fix: the partial Muchnik procedures can be called with
 their default assigner

The default was the plain function, not the bound method, so every call that
relied on it raised a TypeError instead of asking the user.
---
 highschool_qe/muchnik.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/highschool_qe/muchnik.py b/highschool_qe/muchnik.py
index 2c0a36b..f9da223 100644
--- a/highschool_qe/muchnik.py
+++ b/highschool_qe/muchnik.py
@@ -359,15 +359,17 @@ class Muchniker:
       diagram[p][column] = (0, p)
     return self.complex_extend(diagram, todo)
 
-  def complex_partial(self, ps, assigner = c_assignment_interactive):
+  def complex_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over complexes
     
     Keyword arguments:
     ps -- input polynomials
     assigner -- assigner which determines to which terms are assigned.
                 Either c_assignment_all_zero, c_assigment_all_one or
-                c_assigment_interactive
+                c_assigment_interactive (the default)
     """
+    if assigner is None:
+      assigner = self.c_assignment_interactive
     muchnik_seq = self.muchnik_sequence(
       sortedset([self._algebra.zero()], key = self._poly_deg_key), ps)
     
@@ -626,15 +628,17 @@ class Muchniker:
         diagram[q][right_new_col] = diagram[q][col]
     return self.real_extend(diagram, todo)
 
-  def real_partial(self, ps, assigner = r_assignment_interactive):
+  def real_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over reals
     
     Keyword arguments:
     ps -- input polynomials
     assigner -- assigner which determines to which terms are assigned.
                 Either r_assignment_all_pos, r_assigment_all_zero, 
-                r_assignment_all_neg or r_assigment_interactive
+                r_assignment_all_neg or r_assigment_interactive (the default)
     """
+    if assigner is None:
+      assigner = self.r_assignment_interactive
     muchnik_seq = self.muchnik_sequence(
       sortedset([self._algebra.zero()], key = self._poly_deg_key), 
       ps
-- 
2.43.0


From 3e54334400586337249eb32d4c3c8ed6053dd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 08/17] fix: promoting a second equation no longer loses the
 first

The old equation was reduced by the new one and the new one by the old: both
ended up saying the same and GRF reported a counterexample to a valid sequent.
---
 GRF/grf.sage | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..9eebc1e 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -200,9 +200,12 @@ class RCF_Goal(RCF):
                 I = ideal([gh.poly])
                 B = I.groebner_basis()
                 # Currently, B = I :-)!
-                # Simplify current goal_hyps using new gh
+                # Simplify current goal_hyps using new gh. The equations
+                # among them must stay as they are, as gh is itself
+                # reduced by them below.
                 for h in self.goal_hyps:
-                    h.quotient_ring_inject(B)
+                    if h.op != '=':
+                        h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
             if self.gb != []:
                 # Simplify new gb using current goal_hyps
-- 
2.43.0


From 61b5239443d24ea6c43c9f743c5a2e7b586bca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 09/17] fix: isolate the irrational roots of a polynomial that
 has a rational one

Only the rational roots of such a polynomial were used, so whole sectors had
no sample point and hypotheses that are needed were hidden.
---
 GRF/grf.sage | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 9eebc1e..628121f 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -444,19 +444,18 @@ class QE_Factory(RCF):
         if (univ_polys==[]):
             return []
         else:
-            easy_roots_global, rri = [], []
             prod = 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
-            #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+                prod = prod * p
+            easy_roots = [a for (a, m) in prod.roots()]
+            out = []
+            for ((l, u), m) in prod.real_root_intervals():
+                # An interval that isolates a rational root becomes that root
+                exact = [a for a in easy_roots if l < a and a < u]
+                if exact != []:
+                    l, u = exact[0], exact[0]
+                out.append(((l, u), m))
+            return out
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From 85a1c9e6caed853a09b0f101f4f82460fd0ff562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 10/17] fix: no local search for a sequent without hypotheses
 left

It picked from an empty list; the failure hid the counterexample.
---
 GRF/grf.sage | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 628121f..58f9564 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -792,6 +792,8 @@ class RCF_GD_Decide(RCF):
     # Generic entry point for sampling
     # EPZ
     def sample_points(self,dict,sampling_params = None):
+        if self.hyps == []:
+            return [] # No hypothesis is left for a sample point to falsify
         return lss.local_search_sampling(self, dict, sampling_params);
         #return self.k_sample_points_in_ball(dict,25,0.05)
 
-- 
2.43.0


From d584821c629a898b2e8fd9b9dcefeddce5558b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 11/17] fix: rule out the empty set of hypotheses

When no hypothesis held at any bad sample point the candidate set was empty
and promoting its first member raised an IndexError.
---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 58f9564..73477ca 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -877,7 +877,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From 166537faae72c9c0bcc54de6b4d5c2c13d75c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 12/17] fix: the variable order of the local search is per
 problem

---
 GRF/local_search.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..8b60e10 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -153,6 +153,7 @@ def get_symb_flipping_func(A,x,margin):
 # EPZ
 def local_search_sampling(Prob,D,sample_params): 
     N = Prob.num_vars
+    VarOrder.order = None # The last problem may have had other variables
 
     # Search parameters; TODO: should put into a structure
     repeat_num = 10;
-- 
2.43.0


From f74d64f2a89e08c67120d3832406bf61ba0eff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 13/17] fix: number only the antecedent in hide_antecedent

The negated further succedents are appended to it, and were reported once
more under indices the antecedent does not have.
---
 GRF/smt2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..d73ac59 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -112,6 +112,7 @@ class SMTContext:
 
         self.antecedent = [a for a in self.antecedent]
         self.succedent = [s for s in self.succedent]
+        num_antecedent = len(self.antecedent)
 
         self.witness = None
         #print "Performing Geometric Relevance Filtering:"
@@ -168,7 +169,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in self.antecedent[:num_antecedent]:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0


From 1e2264eed9a7c6600f084c25c863db5f66412c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 14/17] fix: a sequent is filtered in the parser's current
 context

---
 GRF/smt2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index d73ac59..0f9cd81 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -422,7 +422,7 @@ class ParseSMT():
                         setParseAction(proc_succedent)
 
         cmd = (lit_lpar + lit_sequent + str_sym + cmd_antecedent + cmd_succedent + lit_rpar).\
-              setParseAction(self.context.perform_grf)
+              setParseAction(lambda s, l, t: self.context.perform_grf(s, l, t))
         self.cmds = ZeroOrMore(cmd)
 
     def fmlsTokenList(self, s):
-- 
2.43.0


From b25f81afac791075d3ef65412b80b7a998c10467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 15/17] fix: an atom reduced by a basis has the variables of
 its new polynomial

eval_on_dict tests self.vars to see whether a partial sample point decides the
atom; with the old variables it compared a polynomial with 0.
---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 73477ca..363e8c7 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = self.poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From e75177d197b1b5ea819883052784a1d454637f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:21 +0000
Subject: [PATCH 16/17] fix: sort the rows of a printed Cohen-Hormander diagram
 by their text

Two polynomials have no order of their own (sympy raises TypeError), so every
elimination with a diagram of two rows ended in an exception.
---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..6ed2869 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -614,7 +614,7 @@ class CohenHormander:
       header.update(diagram[row].keys())
     #print map(lambda x: x, header)
     print "-" * max_len
-    for row in sortedset(diagram.keys()):
+    for row in sortedset(diagram.keys(), key = str):
       print str("%%%ds   " %max_len) %row,
   #     print "%s " %diagram[row],
   #     for index in diagram[row].keys():
-- 
2.43.0


From 669edcf10a031f993103051a5ffa27747dbfad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 17/17] fix: a decomposition without a goal to stop at can be
 lifted

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 363e8c7..ca80567 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -635,7 +635,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if goal != None and goal.eval_on_dict(parent_dict) == True:
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0

