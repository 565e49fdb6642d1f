From c3b8514a656cf91b2b4ed57070b57d53f8ef6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 01/34] fix: tan_id must not hand an already solved unknown
 back to tan_solve

When the assigner wraps around it can offer an unknown that is already solved.
tan_id reported SUCCESS for it because solvable_tan stays True, so tan_solve and
rank solved it a second time (ICP5p5_A21, Parkman13: th_1 with three solutions
and listed twice in the solve order).
---
 ikbtleaves/tan_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 177257d..2738201 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -217,7 +217,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
             #continue #stop looking at equations for the same unknown                      
         tick.blackboard.set('curr_unk', u)
         tick.blackboard.set('unknowns',unknowns)   # the current list of unknowns
-        if u.solvable_tan:
+        if u.solvable_tan and not u.solved:  # never re-solve a solved unknown
             return b3.SUCCESS
         else:
             return b3.FAILURE
-- 
2.43.0


From 172fcc2c8105ef11a53cd16377be2ef8755938de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 02/34] fix: make_LHS_versions must pick each unknown's branch
 by its own solution count

The count was taken once per row from the last solved unknown, so every earlier
unknown with two solutions only ever used its first branch (or the index ran off
the end of a shorter list).
---
 ikbtbasics/ik_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..4fb64fa 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -207,7 +207,6 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
@@ -218,6 +217,7 @@ class Robot:
                 LHS =  sp.var(self.solution_nodes[col].name + 'v' + str(row+1)) #versions begin w/ 1
                 #LHS = theta_expand(LHS)
                 #print('\n\n   make_LHS_versions:         LHS: ', LHS , '\n\n')
+                nsols = self.solution_nodes[col].unknown.nsolutions
                 thisSol = self.solution_nodes[col].unknown.solutions[row%nsols]
                 RHS = thisSol.subs(subdict) # substitute versions for this row
                 thiseqn = kc.kequation(LHS,RHS)
-- 
2.43.0


From 8261cbe941781694d4554ed1caeaf67ca1faccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 03/34] fix: name the first solved unknown by its version in
 the solution set

Its column used the solution names (th_1s1) while make_LHS_versions defines the
version names (th_1v1), so generated code referred to names nobody assigns.
---
 ikbtbasics/ik_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 4fb64fa..c3a43c4 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -262,8 +262,9 @@ class Robot:
 
             else: # first time through
                 #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
+                for i in range(len(u.versionNames)):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))  # the name make_LHS_versions() defines
+                    solListMatrix.append([u.LHSversionNames[i]])
                     #solListMatrix.append([u.name+'v'+'1'])
                     #print('create_solution_sets: creating ', u, solListMatrix)
             #print('---')
-- 
2.43.0


From b60445b52ae1fee12532d12535151903c89304ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 04/34] fix: end normally when no unknown could be solved

The report generator indexed an empty solution matrix (ArmRobo, Raven-II, ...).
---
 ikSolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ikSolver.py b/ikSolver.py
index 867102a..6912ac6 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -405,6 +405,9 @@ if VERSION02:
 #
 R.create_solution_set()
 
+if len(R.solution_nodes) == 0:   # nothing to report or to generate code for
+    print("\n\n       I'm sorry, no solutions were found \n\n")
+    quit()
 
 ol.output_latex_solution(R,unks, R.solutionSet)  # calling args could be optimized for V3
 op.output_python_code(R, R.solutionSet)
-- 
2.43.0


From 5c86d7c341cca3e88e83a84e2c3b2b95cc0db737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 05/34] fix: missing comma hid the DZhang robot from the robot
 list

---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..925c284 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -53,7 +53,7 @@ def robot_params(name):
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
-- 
2.43.0


From ab59c0c0d2c5315725f1614532e192ee0fbb3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 06/34] fix: MiniDD joint type vector needs one entry per DH
 row

forward_kinematics() reads vv[5] and stopped with IndexError.
---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 925c284..c63b38b 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -366,7 +366,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,1]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
-- 
2.43.0


From ee36ca61ca8f502d512bbc7d6cef3c330c4a898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 07/34] fix: memory composites used xrange, which Python 3 does
 not have

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From c17de16a773b5e981134eed130317f5707a42873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 08/34] fix: RepeatUntil decorators must return a status when
 no loop is left to run

---
 b3/decorators/repeatuntilfailure.py | 2 ++
 b3/decorators/repeatuntilsuccess.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..0e09cee 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,8 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..da3fbd4 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,8 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
+
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 435d3b4c787c8b0e77056a83682d8a42dc8b8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 09/34] fix: BehaviorTree.dump must keep the order of children
 and accept a decorator without child

---
 b3/core/behaviortree.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..a2dd079 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -92,12 +92,10 @@ class BehaviorTree(object):
                 data['custom_nodes'].append(subdata)
 
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
-                children = []
+                spec['children'] = [c.id for c in node.children]
                 for c in reversed(node.children):
-                    children.append(c.id)
                     stack.append(c)
-                spec['children'] = children
-            elif node.category == b3.DECORATOR and hasattr(node, 'child'):
+            elif node.category == b3.DECORATOR and node.child:
                 stack.append(node.child)
                 spec['child'] = node.child.id
 
-- 
2.43.0


From c9c467cf88fad5bd611033cf16955d76a57c4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 10/34] fix: BehaviorTree.load raised a misspelled exception
 for unknown node names

---
 b3/core/behaviortree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index a2dd079..713656d 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,7 +33,7 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
-- 
2.43.0


From 605c491ecf6d612a2b03a369218015dd08babce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 11/34] fix: RPY4_N and H_inv_N always raised

---
 ikbtbasics/pykinsym.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 43d12db..e1b9e70 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -326,20 +326,19 @@ def RPY3_N(r,p,y):
 
 def RPY4_N(r,p,y):
    R = RPY3_N(r,p,y)
-   #T = np.matrix(np.zeros(16).reshape(4,4))
-   T = np.matrix(np.zeros(4))
+   T = np.matrix(np.zeros(16).reshape(4,4))
    for i in range(0,3):
      for j in range(0,3):
        T[i,j] = R[i,j]
    T[3,3] = 1.0
    return T
 
-#   Get the inverse of a symbolic 4x4 Homogeneous transform
+#   Get the inverse of a numerical 4x4 Homogeneous transform
 def H_inv_N(T):
   R = T[0:3,0:3].T
   P = -R*T[0:3,3]
-  T1 = R.row_join(P)
-  T1 = T1.col_join(sp.Matrix([0,0,0,1]).T)
+  T1 = np.hstack([R, P])
+  T1 = np.vstack([T1, np.matrix([0,0,0,1])])
   return T1
 
 
-- 
2.43.0


From 365ee161d260307ccbd040b5819c0ab90c4a7407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 12/34] fix: sum_of_angles_transform registered a sum found on
 a left hand side twice

---
 ikbtbasics/ik_classes.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index c3a43c4..3a9edb6 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -393,13 +393,9 @@ class Robot:
 
                     # simplify LHS
 
+                    # (sum_of_angles_sub() itself registers a new unknown and its equation)
                     lhs, newj, newe = sum_of_angles_sub(self, lhs, variables)
 
-                    if newj:
-                        variables.append(newj)
-                    if newe:
-                        self.kequation_aux_list.append(newe)
-
                     # simplify RHS
                     rhs, newj, newe= sum_of_angles_sub(self, rhs, variables)
 
-- 
2.43.0


From bc12987f97fa87491839d3bb649efa427b311af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 13/34] fix: an interrupted run must not leave a truncated
 kinematics cache behind

---
 ikbtbasics/ik_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 3a9edb6..95ba5b8 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -108,8 +108,10 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
         #R.generate_solution_nodes(unks) # generate solution nodes
 
         print(' Storing kinematics pickle for '+rname + '('+name+')')
-        with open(name,'wb') as pf:
+        tmpname = name + '.tmp' + str(os.getpid())
+        with open(tmpname,'wb') as pf:
             pickle.dump( [m, R, unks], pf, protocol=pprotocol)
+        os.replace(tmpname, name)  # readers only ever see a complete file
         unknowns = unks    # be sure to return updated unknown list (including SOAs)
 
     return [m,R,unknowns]
-- 
2.43.0


From 94a9d7d41c7075230dc303ff3bc4259a5574429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 14/34] fix: a run from the kinematics cache lost the parameter
 list and values of a fresh run

---
 fkOnly.py                | 2 +-
 ikSolver.py              | 2 +-
 ikbtbasics/ik_classes.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/fkOnly.py b/fkOnly.py
index de7e3e1..d5cbfad 100644
--- a/fkOnly.py
+++ b/fkOnly.py
@@ -113,7 +113,7 @@ testing = False
 print('GOT HERE (after FK): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # includes the ca_i/sa_i parameters created by the forward kinematics
 R.variables = unknowns
 
 ##   check the pickle in case DH params were changed
diff --git a/ikSolver.py b/ikSolver.py
index 6912ac6..236a1e6 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -110,7 +110,7 @@ print('Solver:  unknowns:', unknowns)
 print('GOT HERE (Fk completed): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # includes the ca_i/sa_i parameters created by the forward kinematics
 
 ##   check the pickle in case DH params were changed
 dhp = M.DH
diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 95ba5b8..a4845b9 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -83,6 +83,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
         with open(name, 'rb') as pick:
             print('\Trying to read pre-computed forward kinematics from '+name)
             [m, R, unknowns]  = pickle.load(pick)
+            m.pvals.update(pvals)  # numerical values do not enter the stored equations
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
     else:
-- 
2.43.0


From 25249e200d1bb11b532c1ad52dcddef532aa8be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 15/34] fix: generated Python must solve every variable and
 test each asin/acos argument

---
 ikbtfunctions/output_python.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..640974f 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -268,22 +268,14 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
+            rhs = sp.sympify(solEqnVer.RHS)
+            # the pose is unreachable if an asin/acos argument is out of range
+            for fn in sorted(rhs.atoms(sp.asin, sp.acos), key=str):
                 print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
+                print(indent + 'if (solvable_pose and abs(' + str(fn.args[0]) + ') > 1):', file=f)
                 print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+            print(indent + 'if (solvable_pose):', file=f)
+            print(indent*2 + str(solEqnVer.LHS) + ' = ' + str(rhs), file=f)
 
     print('''
 ##################################
@@ -313,6 +305,8 @@ pi = np.pi
         #print(gs.sort, file=f) # in place
         grp_lists.append(gs)
 
+    print(indent + 'if(not solvable_pose):', file=f)
+    print(indent*2 + 'return(False)', file=f)
     print(indent +  'solution_list = []', file=f)
     for g in grp_lists:
         g.sort()
@@ -324,10 +318,7 @@ pi = np.pi
 
 
     # we are done.   Return
-    print(indent + 'if(solvable_pose):', file=f)
-    print(indent*2 + 'return(solution_list)', file=f)
-    print(indent + 'else: ', file=f)
-    print(indent*2 + 'return(False)', file=f)
+    print(indent + 'return(solution_list)', file=f)
 
     # __main__()  code for testing:
     print('''
-- 
2.43.0


From fbf0c9b4a92751ec1d07a9237687a2a045229148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 16/34] fix: generated Python did not parse (parameter
 indentation, function name, print statements)

---
 ikbtfunctions/output_python.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 640974f..ec66827 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -177,9 +177,8 @@ from math import asin
 pi = np.pi
 
 '''
-    fixed_name = Robot.name.replace(r'_', r'\_')  # this is for LaTex output
-    fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
+    fixed_name = re.sub(r'\W', '_', orig_name)  # must be a valid Python identifier
 
     DirName = 'CodeGen/Python/'
     fname = DirName + 'IK_equations'+orig_name+'.py'
@@ -193,10 +192,10 @@ pi = np.pi
     if(Robot.Mech.pvals != {}):  # if we have numerical values stored
         for p in Robot.params:
             val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
+            tmp += '    ' + str(p) + ' = ' + val + '\n'
     else:                        # no stored numerical values
         for p in Robot.params:
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+            tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
@@ -214,7 +213,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to ' + funcname + '")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -372,10 +371,10 @@ if __name__ == "__main__":
 
     i = 0
     for sol in list:
-        print ''
-        print 'Solution ', i
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From ef0dc5b37100ba661f2913972da425e0a2d32d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 17/34] fix: generated FK code must declare joint variables
 without a subscript, C++ parameters need a C++ comment

---
 ikbtfunctions/output_cpp.py    |  2 +-
 ikbtfunctions/output_python.py | 27 +++++++++++++--------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..7767d05 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -103,7 +103,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # parameter Declarations
     tmp = '\n'
     for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
     par_decl_str = tmp
 
     nlist = Robot.solution_nodes
diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index ec66827..669bb2b 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -110,20 +110,19 @@ pi = np.pi
     for v in Robot.variables:
         ss = str(v).split('_')   # get joint subscript(s)
         print('Variabl: SofA: ', str(v), ss)
-        if len(ss) > 1:
-            if len(ss[1]) > 1:  # we have a sum_of_angles
-                print('Sum of ang found in variable: ', str(v))
-                subs = [*ss[1]] # make list of
-                soa = str(v) + ' = ' # e.g. 'th_23 = '
-                for s in subs:
-                    print('Debug subscript s:',ss, s)
-                    # find var with this subscript:
-                    for v1 in Robot.variables:
-                        if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
-                            soa += f' {str(v1)} +'
-                print(indent + soa[:-1], file=f)
-            else:
-                print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+        if len(ss) > 1 and len(ss[1]) > 1:  # we have a sum_of_angles
+            print('Sum of ang found in variable: ', str(v))
+            subs = [*ss[1]] # make list of
+            soa = str(v) + ' = ' # e.g. 'th_23 = '
+            for s in subs:
+                print('Debug subscript s:',ss, s)
+                # find var with this subscript:
+                for v1 in Robot.variables:
+                    if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
+                        soa += f' {str(v1)} +'
+            print(indent + soa[:-1], file=f)
+        else:
+            print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0


From 6a6f040d944cb27153c768b5af7fef2448747cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/34] fix: generated C++ must define every solution version
 by its own equation

---
 ikbtfunctions/output_cpp.py | 60 +++++++++----------------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 7767d05..8bc7331 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -177,18 +177,8 @@ int False = 0;
             print('Cpp Output Gen: Solution Equation Version: ', solEqnVer)
             c.line('\n// solution '+str(solno))
             solno += 1
-            solrhs = str(solEqnVer.RHS)
-            # detect arcsin() or arccos()
-            #
-            #  BH   21-Sept
-            #  This code needs a serious refactor.  When solution is for example:
-            #    th5_ijk = arcsin(x) + atan2(y1,x1)
-            #       (here 'x' is a complicated expression)
-            #  then it is important that the generated code will test  -1 < x < +1
-            #  if this test fails the pose is unreachable and arcsin fails.
-            #
-            #
-            trig = False
+            rhs = sp.sympify(solEqnVer.RHS)
+            solrhs = sp.ccode(rhs)  # valid C++ for powers, fractions and pi
             print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
             print('solvemethod: ', node.solvemethod)
             print(' LHS: ', str(solEqnVer.LHS))
@@ -199,40 +189,18 @@ int False = 0;
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
 
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
-               print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-               c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
-               c.push()
-               c.line('solvable_pose = False; ')
-               c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
-               c.pop()
-
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
+            #  test  -1 < x < +1 for every arcsin(x)/arccos(x) in this version:
+            #  if this test fails the pose is unreachable
+            for fn in sorted(rhs.atoms(sp.asin, sp.acos), key=str):
+                print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
+                c.line('// Arcsin() or Arccos() based solution:')
+                c.line('argument = ' + sp.ccode(fn.args[0]) + ';')
+                c.line('if (solvable_pose && fabs(argument) > 1)')
+                c.push()
+                c.line('solvable_pose = False; ')
+                c.pop()
+
+            c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
 
     c.line('''
 //##################################
-- 
2.43.0


From 07d95e92789495d803035555e8ebdcde3f5d738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 19/34] fix: generated C++ needs a result column for every
 solved variable

---
 ikbtfunctions/output_cpp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 8bc7331..fad8f7e 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -59,6 +59,9 @@ def output_cpp_code(Robot, solution_groups):
     fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
+    # columns of the result: sum of angles variables can make more than 6
+    ncols = max([6] + [len(g) for g in solution_groups])
+
     c = cpp_output()
 
     DirName = 'CodeGen/Cpp/'
@@ -80,7 +83,7 @@ double pi = 3.1415926;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+int ikin(double T[4][4], double solution_list[64][''' + str(ncols) + ''']);
 
 ''')
 
@@ -114,7 +117,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list[64]['+str(ncols)+'] = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -129,7 +132,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list[64]['+str(ncols)+'] )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
-- 
2.43.0


From 74f1ef727524c7747d50999403082311edea4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 20/34] fix: Mackler13 did not declare its parameter h, Sims11
 joint types had a seventh entry

---
 ikbtfunctions/ik_robots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index c63b38b..e766af2 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -428,7 +428,7 @@ def robot_params(name):
             [0.,        0.,         0.,         0.]
             ])
             
-        vv = [0, 0, 1, 1, 1, 1, 1]
+        vv = [0, 0, 1, 1, 1, 1]
         variables = [unknown(d_1), unknown(d_2), unknown(th_3), unknown(th_4), unknown(th_5)]
         params = [l_1, l_2, l_3]
         pvals = {l_1: 5, l_2:2, l_3:4}
@@ -481,8 +481,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From 81c3d41e18ea04ed03c3375d04e0ff5a4b8d7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 21/34] fix: sincos_solve must decline an equation whose right
 side lacks the unknown

---
 ikbtleaves/sincos_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..de4842a 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -204,6 +204,8 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                     print("sincos_solve (arcsin branch):  Somethings Wrong!")
                     return b3.FAILURE
                 A = d[Aw]
+                if(A == 0):    # the unknown is not on this side of the equation
+                    return b3.FAILURE
                 if(d[Bw] is not None):
                     B = d[Bw]
                 else:
@@ -238,6 +240,8 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                     return b3.FAILURE                    
                 else:        
                     A = d[Aw]
+                    if(A == 0):    # the unknown is not on this side of the equation
+                        return b3.FAILURE
                     if(d[Bw] is not None):
                         B = d[Bw]
                     else:
-- 
2.43.0


From eb61db4c06769c4a402f5d20102b32f21048c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 22/34] fix: a sum of a joint angle and a sum of angles got two
 names

---
 ikbtbasics/ik_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index a4845b9..821636b 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -480,6 +480,7 @@ def sum_of_angles_sub(R, expr, variables):
             ni = ''
             for c in nil:  # make into a string
                 ni += c   # build up subscript e.g. 234
+            ni = ''.join(sorted(ni))  # same name if one of them is a SOA itself (24 and 3)
 
             #print 'New index: '+ni
             vexists = False
-- 
2.43.0


From ed817291bb9fc9228bdb5fbe068167b8a59edd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 23/34] fix: sum_id raised NameError (find_xy does not exist)
 on every sum of angles

---
 ikbtleaves/sum_id.py | 88 ++++----------------------------------------
 1 file changed, 7 insertions(+), 81 deletions(-)

diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..2231bb0 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -40,87 +40,13 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                 
                 
         for matr_equ in R.mequation_list:
-            
-            Tmatrix = matr_equ
-            
-            #print 'sum_transform.py: working on ', Tmatrix
-            #Tmatrix_squeeze = sp.simplify(notation_squeeze(Tmatrix))
-            
-            #if(self.BHdebug):
-                ##print 'sum of angles transform: input: '
-                ##sp.pprint(matr_equ.Ts)
-                ###print out the squeezed form
-                #print 'sum of angles transform: squeezed test input:'
-                #sp.pprint(Tmatrix_squeeze)
-                
-            unkn_sums_sym = set() #keep track of joint variable symbols
-            
-            thx = sp.Wild('thx')   # sympy wildcards for template matching
-            thy = sp.Wild('thy')
-            sgn = sp.Wild('sgn')
-            
-            success_flag = False
-            
-            Tmlist = Tmatrix.get_kequation_list() # convert to list of equns
-            for Teqn in Tmlist:   
-                for expr in [Teqn.LHS, Teqn.RHS]:
-                        # need new ways to identify thx +/- thy
-                        # notation_squeeze does not pick up - cases
-                        #eLHS = expr.LHS
-                        #eRHS = expr.RHS
-    
-                        
-                        #print 'sum_of_angles_ID: ', expr 
-                    
-                        sub_sin = expr.find(sp.sin(thx + sgn * thy)) #returns a subset of expressions with the query pattern, this finds sin(thx) too
-                        sub_cos = expr.find(sp.cos(thx + sgn * thy))
-                            
-                        found = False
-                        while len(sub_sin) > 0 and not found:
-                            sin_expr = sub_sin.pop()
-                            d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0: #has to be joint variable
-                                found = True
-
-                            
-                        while len(sub_cos) > 0 and not found:
-                            cos_expr = sub_cos.pop()
-                            d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0:
-                                found = True
-                            
-                        if found:
-                            print('- - - - - - - - >>>> test: found:', expr)
-                            success_flag = True
-                            th_xy = find_xy(d[thx], d[thy])
-                            #if not exists in the unknown list (this requires proper hashing), create variable
-                            if th_xy not in unkn_sums_sym:
-                                print("found NEW 'joint' (updated) (sumofangle) variable: ")
-                                print(th_xy)
-                                #  try moving soa equation to Tm.auxeqns
-                                unkn_sums_sym.add(th_xy) #add into the joint variable set
-                                newjoint = unknown(th_xy)
-                                # extract subscripts from SOA variables to get combined variable
-                                #   ([3:] eliminates 'th_' from string name)
-                                #print('test: .n ',str(d[thx])[3:], str(d[thy])[3:])
-                                newjoint.n = int(str(d[thx])[3:]+str(d[thy])[3:]) # store new subscript
-                                #newjoint.joint_eq = d[thx] + d[sgn] * d[thy]
-                                alreadyThere = False
-                                for u in unknowns:
-                                    if u.n == newjoint.n:
-                                        print('>>> Skipping a duplicate variable: Th', newjoint.n)
-                                        alreadyThere=True
-                                if not alreadyThere:
-                                    print('>>>>     appending variable to unknowns: ', newjoint)
-                                    unknowns.append(newjoint) #add it to unknowns list
-                                tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
-                                print('sumofanglesT: appending ', tmpeqn)
-                                # store the SOA aux equation 
-                                R.kequation_aux_list.append(tmpeqn)
-                                print(d[thx] + d[sgn]*d[thy])
-                                #substitute all thx +/- thy expression with th_xy
-                                matr_equ.Ts = matr_equ.Ts.subs(d[thx] + d[sgn] * d[thy], th_xy)
-                                matr_equ.Td = matr_equ.Td.subs(d[thx] + d[sgn] * d[thy], th_xy) 
+            for i in [0,1,2]:   # only first three rows are interesting
+                for j in [0,1,2,3]:
+                    for M in [matr_equ.Td, matr_equ.Ts]:
+                        # only look closer (slow!) where there is a sum in a sin() or cos()
+                        if any(f.args[0].is_Add for f in M[i,j].atoms(sp.sin, sp.cos)):
+                            # (this itself registers a new unknown and its equation)
+                            M[i,j], newj, newe = sum_of_angles_sub(R, M[i,j], unknowns)
         
         tick.blackboard.set('Robot', R)
 
-- 
2.43.0


From f2b0467d62b63e052a7fec55c23256e9d3773350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 24/34] fix: a sum of angles with a constant part or a
 difference ended with an assertion

---
 ikbtbasics/ik_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 821636b..d7dcc5d 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -470,6 +470,9 @@ def sum_of_angles_sub(R, expr, variables):
 
         newjoint = None
         tmpeqn = None
+        known = [v.symbol for v in variables]
+        if any(v not in known for v in varlist):
+            continue   # a difference, a multiple or a constant part, e.g. th_1 + pi/4: not a SOA
         if(found2 or found3):  # we've got a SOA!
 
             # generate index of the SOA variable
-- 
2.43.0


From 6085065075c9fae920236c074ecd4f6666b6b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 25/34] fix: sincos_solve must decline, not stop on an
 assertion, when the unknown also appears outside sin/cos

---
 ikbtleaves/sincos_solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index de4842a..7dbbd78 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -215,8 +215,8 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
                 # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                if(targument.has(u.symbol)):
+                    return b3.FAILURE
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -248,8 +248,8 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                         B = 0
                             
                     targument = (u.eqntosolve.LHS-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    if(targument.has(u.symbol)):
+                        return b3.FAILURE
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From 1115e1b7d7aad704257e3af981f8272c3a78441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 26/34] fix: sinandcos_id must not accept an equation with the
 product of sine and cosine

---
 ikbtleaves/sinANDcos_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..b25faeb 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,7 +132,7 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  if not (d[Aw].has(u.symbol) or d[Bw].has(u.symbol) or d[Cw].has(u.symbol)):
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
-- 
2.43.0


From 72492fa7d28e1ace199ff9aadc5f7a057e8aedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 27/34] fix: two first runs at once could both try to create
 the kinematics directory

---
 ikbtbasics/ik_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d7dcc5d..ea743cb 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -73,7 +73,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
 
     if not os.path.isdir(pickle_dir):  # if this doesn't exist, create it.
         print('Creating a new pickle directory: ./'+pickle_dir)
-        os.mkdir(pickle_dir)
+        os.makedirs(pickle_dir, exist_ok=True)  # another run may create it meanwhile
 
     name = pickle_dir + rname + '_pickle.p'
 
-- 
2.43.0


From d9a66ad9ac154a30b4b204c94ce7ff6bd6fe7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 28/34] fix: the robot list named Chair6DOF, which has no
 table, so its lookup ended with an error instead of the refusal

---
 ikbtfunctions/ik_robots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index e766af2..1be6cc1 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,7 +45,7 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
+                        # below not solvable yet
             'Khat6DOF',    
             'Craig417', 
             'KawasakiRS05L',
-- 
2.43.0


From a040c3f3a29ffc97b0a01ea96835278eb6d8e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 29/34] fix: row order of the generated solutions depended on
 the interpreter's hash seed

---
 ikSolver.py                   | 7 ++++---
 ikbtfunctions/output_cpp.py   | 2 +-
 ikbtfunctions/output_latex.py | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ikSolver.py b/ikSolver.py
index 236a1e6..39406eb 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -409,9 +409,10 @@ if len(R.solution_nodes) == 0:   # nothing to report or to generate code for
     print("\n\n       I'm sorry, no solutions were found \n\n")
     quit()
 
-ol.output_latex_solution(R,unks, R.solutionSet)  # calling args could be optimized for V3
-op.output_python_code(R, R.solutionSet)
-oc.output_cpp_code(R, R.solutionSet)
+solgroups = sorted(R.solutionSet)   # the order of a set changes from run to run
+ol.output_latex_solution(R,unks, solgroups)  # calling args could be optimized for V3
+op.output_python_code(R, solgroups)
+oc.output_cpp_code(R, solgroups)
 
 
 #################################################
diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index fad8f7e..a86ae0a 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -98,7 +98,7 @@ int ikin(double T[4][4], double solution_list[64][''' + str(ncols) + ''']);
 
     #  Variable Declarations
     tmp = 'double'
-    for v in sol_vars:
+    for v in sorted(sol_vars, key=str):
         tmp += ' ' + str(v) + ','
 
     var_decl_str = tmp[:-1] + ';'   # drop trailing comma and end the line
diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index 88f7781..1145242 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -287,7 +287,7 @@ The following is the abstract representation of solution graph for this manipula
     sameline = '     '
     sepstr = sameline
     print('test: Starting Graph output')
-    for edge in graph:
+    for edge in sorted(graph, key=str):
         i+=1
         if i%2==0:
             sepstr = eol
@@ -325,7 +325,7 @@ The following are the sets of joint solutions (poses) for this manipulator:
     ncols = len(list(Robot.solutionSet)[0])
     colstr = '|' + 'l|'*ncols
     tablestr = r'\section{Solution Set v3} \begin{tabular}{' + colstr + r'}\hline' + eol
-    for s in Robot.solutionSet:
+    for s in sorted(Robot.solutionSet):
         tablestr += '$'+s[0]+'$'
         for v in s[1:]:
             tablestr += ' & $' + v + '$ '
-- 
2.43.0


From 50a7fec62b99d7b3e09b43e81fc91e2ac434601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 30/34] fix: generated C++ did not declare all versions it
 assigns and did not compile

---
 ikbtfunctions/output_cpp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index a86ae0a..71eb3e1 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -95,6 +95,8 @@ int ikin(double T[4][4], double solution_list[64][''' + str(ncols) + ''']);
     #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
     for s in solution_groups:
         sol_vars.update(s)
+    for row in Robot.FinalEqnMatrix:  # every version gets a value below
+        sol_vars.update(str(e.LHS) for e in row)
 
     #  Variable Declarations
     tmp = 'double'
-- 
2.43.0


From a1f3eefb18ba16533d15981134a3d42778d62764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:56 +0000
Subject: [PATCH 31/34] fix: simu_id accepted a pair with the unknown also
 outside sin/cos and solved it in terms of itself

---
 ikbtleaves/two_eqn_m7.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..45e142e 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -61,6 +61,12 @@ def canonical_second_eqn(u, e1, e2):
         return None
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
+    # the rest of each equation must be free of u, or u would be solved in
+    # terms of itself.
+    for rest in (A, B, e1 - A*sp.sin(u) - B*sp.cos(u),
+                       e2 - a2*sp.cos(u) + b2*sp.sin(u)):
+        if rest.expand().has(u) and rest.simplify().has(u):
+            return None
     if a2 == A and b2 == B:
         return e2
     if a2 == -A and b2 == -B:
-- 
2.43.0


From 2865ccebc5275f5595aed057392bb01ae708855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:04 +0000
Subject: [PATCH 32/34] fix: a tree-scoped blackboard value under the key
 'node_memory' was the memory of the tree's nodes

---
 b3/core/blackboard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/b3/core/blackboard.py b/b3/core/blackboard.py
index a1c8193..29ca35d 100644
--- a/b3/core/blackboard.py
+++ b/b3/core/blackboard.py
@@ -4,19 +4,19 @@ class Blackboard(object):
     def __init__(self):
         self._base_memory = {}
         self._tree_memory = {}
+        self._node_memory = {}
         self.set('TotalCost', 0)
 
     def _get_tree_memory(self, tree_scope):
         if (tree_scope not in self._tree_memory):
             self._tree_memory[tree_scope] = {
-                'node_memory': {},
                 'open_nodes': []
             }
 
         return self._tree_memory[tree_scope]
 
-    def _get_node_memory(self, tree_memory, node_scope):
-        memory = tree_memory['node_memory']
+    def _get_node_memory(self, tree_scope, node_scope):
+        memory = self._node_memory.setdefault(tree_scope, {})
 
         if (node_scope not in memory):
             memory[node_scope] = {}
@@ -30,7 +30,7 @@ class Blackboard(object):
             memory = self._get_tree_memory(tree_scope)
 
             if (node_scope is not None):
-                memory = self._get_node_memory(memory, node_scope)
+                memory = self._get_node_memory(tree_scope, node_scope)
 
         return memory
 
-- 
2.43.0


From c4a9b874c11a7bbe81ce9bf81d6317e92bb203a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:11 +0000
Subject: [PATCH 33/34] fix: code for a robot with values for only some of its
 parameters ended with KeyError

---
 ikbtfunctions/output_python.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 669bb2b..1dd015e 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,11 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
@@ -188,12 +187,11 @@ pi = np.pi
 
     # parameter Declarations (a_3, d_5, etc).
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += '    ' + str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
-- 
2.43.0


From 823f59923bfe685d8caca4fe1944695db0deab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:11 +0000
Subject: [PATCH 34/34] fix: stored kinematics kept values of parameters the
 robot table no longer gives

---
 ikbtbasics/ik_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index ea743cb..ef546a7 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -83,7 +83,9 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
         with open(name, 'rb') as pick:
             print('\Trying to read pre-computed forward kinematics from '+name)
             [m, R, unknowns]  = pickle.load(pick)
-            m.pvals.update(pvals)  # numerical values do not enter the stored equations
+            # numerical values do not enter the stored equations: take those given now
+            m.pvals = {p: v for p, v in m.pvals.items() if p not in constants}
+            m.pvals.update(pvals)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
     else:
-- 
2.43.0

