From 8ef8d0fdf08f71a9fcd701a6cdb7883a64bf2eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 01/24] fix: mip algorithms fail when all committees are
 winning

---
 abcvoting/abcrules_mip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..5c5b459 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -3,7 +3,7 @@
 import functools
 import itertools
 import mip
-from abcvoting.misc import sorted_committees
+from abcvoting.misc import binom, sorted_committees
 from abcvoting import scores
 from abcvoting.output import output
 
@@ -157,6 +157,10 @@ def _optimize_rule_mip(
             break
         if max_num_of_committees is not None and len(committees) >= max_num_of_committees:
             return committees
+        if len(committees) == binom(profile.num_cand, committeesize):
+            # all committees have been found, i.e., the remaining model is trivially infeasible
+            # (CBC does not reliably detect this)
+            break
 
         # find a new committee that has not been found yet by excluding previously found committees
         if reuse_model:
-- 
2.43.0


From a9d7a7670b81fc934657645c476853dac231168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 02/24] =?UTF-8?q?fix:=20avoid=20CBC=20failures=20when=20re?=
 =?UTF-8?q?-solving=20Monroe=20and=20minimax-Phragm=C3=A9n=20models?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_mip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 5c5b459..375d6fc 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -299,6 +299,7 @@ def _mip_monroe(profile, committeesize, resolute, max_num_of_committees, solver_
         max_num_of_committees=max_num_of_committees,
         solver_id=solver_id,
         name="monroe",
+        reuse_model=False,  # CBC may crash when solving a modified Monroe model again
         committeescorefct=scores.monroescore,
     )
     return sorted_committees(committees)
@@ -380,6 +381,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         max_num_of_committees=max_num_of_committees,
         solver_id=solver_id,
         name="minimaxphragmen",
+        reuse_model=False,  # CBC may return wrong results when solving a modified model again
     )
     return sorted_committees(committees)
 
-- 
2.43.0


From a8324b7ceb657562c05440a785a596413ba27deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 03/24] =?UTF-8?q?fix:=20respect=20max=5Fnum=5Fof=5Fcommitt?=
 =?UTF-8?q?ees=20in=20Phragm=C3=A9n=20rules=20if=20too=20few=20candidates?=
 =?UTF-8?q?=20are=20approved?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 8 ++++----
 abcvoting/abcrules_mip.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..9f702ef 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -427,10 +427,10 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         if resolute:
             return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )[:max_num_of_committees]
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -523,10 +523,10 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         if resolute:
             return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )[:max_num_of_committees]
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 375d6fc..d38a1b8 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -368,10 +368,10 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         if resolute:
             return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )[:max_num_of_committees]
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From 714c3fd6a4344a13e226f2a70e994a3c02c7a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 04/24] =?UTF-8?q?fix:=20minimax-Phragm=C3=A9n=20finds=20no?=
 =?UTF-8?q?=20solution=20for=20weights=20smaller=20than=201?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 6 ++++--
 abcvoting/abcrules_mip.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 9f702ef..de4342a 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -379,9 +379,11 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
 
     def set_opt_model_func(model, in_committee):
         load = {}
+        # a voter with weight w has to carry a load of up to 1/w (per unit of weight)
+        max_load = max(1.0, float(1 / min(voter.weight for voter in profile)))
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(ub=max_load, lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +406,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, ub=committeesize * max_load, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index d38a1b8..c7f87c2 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -320,10 +320,12 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
 
     def set_opt_model_func(model, profile, in_committee, committeesize):
         load = {}
+        # a voter with weight w has to carry a load of up to 1/w (per unit of weight)
+        max_load = max(1.0, float(1 / min(voter.weight for voter in profile)))
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, ub=max_load, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -346,7 +348,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
             )
 
         loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
+            lb=0, ub=committeesize * max_load, var_type=mip.CONTINUOUS, name="loadbound"
         )
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
-- 
2.43.0


From 6216e95cfcc7ab69b62815e34a185067b072a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 05/24] =?UTF-8?q?fix:=20leximax-Phragm=C3=A9n=20treats=20v?=
 =?UTF-8?q?oters=20with=20weights=20as=20single=20voters?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index de4342a..91f4c38 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -4,6 +4,9 @@ import functools
 import gurobipy as gb
 import itertools
 import math
+import numbers
+from fractions import Fraction
+from abcvoting.preferences import Profile
 from abcvoting.misc import sorted_committees
 from abcvoting import scores
 from abcvoting import misc
@@ -530,6 +533,20 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
         )[:max_num_of_committees]
 
+    if not profile.has_unit_weights() and all(
+        isinstance(voter.weight, numbers.Rational) for voter in profile
+    ):
+        # The sorted vector of loads is defined for unit weights: a voter with weight w counts as
+        # w voters. Scaling all weights by the same factor does not change the winning committees.
+        weights = [Fraction(voter.weight) for voter in profile]
+        denominator = math.prod({weight.denominator for weight in weights})
+        copies = [int(weight * denominator) for weight in weights]
+        divisor = functools.reduce(math.gcd, copies)
+        voters = list(profile)
+        profile = Profile(profile.num_cand)
+        for voter, num in zip(voters, copies):
+            profile.add_voters([voter.approved] * (num // divisor))
+
     loadbounds = []
     for iteration in range(len(profile) - 1):
         # in interation we enforce a new loadbound.
-- 
2.43.0


From 29033c07d846d395ebe69b6b4a849bac2b9fd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 06/24] fix: EPH fails for a single candidate

---
 abcvoting/abcrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..1cc64e7 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4515,7 +4515,8 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        # 2nd smallest value (if there are at least two candidates)
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From f10619f0d7a2aaeb6e7cbf87f872d39d0582d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 07/24] =?UTF-8?q?fix:=20seq-Phragm=C3=A9n=20ignores=20supp?=
 =?UTF-8?q?orted=20candidates=20for=20weights=20smaller=20than=201?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 1cc64e7..f157814 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2816,6 +2816,8 @@ def _seqphragmen_resolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    # upper bound on loads; weights smaller than 1 allow for loads larger than `committeesize`
+    load_bound = committeesize * max(1, division(1, min(voter.weight for voter in profile)))
     load = start_load
     if load is None:
         load = [0 for _ in range(len(profile))]
@@ -2839,13 +2841,13 @@ def _seqphragmen_resolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else load_bound + 1
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                new_maxload[cand] = load_bound + 2  # that's larger than any possible value
         opt = min(new_maxload)
         if algorithm == "float-fractions":
             tied_cands = [
@@ -2894,6 +2896,8 @@ def _seqphragmen_irresolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    # upper bound on loads; weights smaller than 1 allow for loads larger than `committeesize`
+    load_bound = committeesize * max(1, division(1, min(voter.weight for voter in profile)))
 
     load = start_load
     if load is None:
@@ -2917,13 +2921,13 @@ def _seqphragmen_irresolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else load_bound + 1
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                new_maxload[cand] = load_bound + 2  # that's larger than any possible value
         # compute new loads
         new_committee_load_pairs = []
         for cand in profile.candidates:
-- 
2.43.0


From 9a9847c8e2ea4f7710bf67a0d243c572f7833c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 08/24] fix: reverse sequential Thiele rules may return the
 same committee twice

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index f157814..3966f2d 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1713,7 +1713,7 @@ def _revseq_thiele_irresolute(scorefct_id, profile, committeesize, max_num_of_co
                 cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
             ]
             for cand in cands_to_remove:
-                next_committee = tuple(set(committee) - {cand})
+                next_committee = tuple(sorted(set(committee) - {cand}))
                 comm_scores_next[next_committee] = score - score_reduction
             comm_scores = comm_scores_next
 
-- 
2.43.0


From 21b74dc35a2fb43bae9324b3cb2507bfcdbcd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 09/24] fix: Profile.str_compact may list the same approval set
 twice

---
 abcvoting/preferences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..02b46a3 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -301,10 +301,11 @@ class Profile:
         """
         compact = OrderedDict()
         for voter in self._voters:
-            if tuple(voter.approved) in compact:
-                compact[tuple(voter.approved)] += voter.weight
+            approval_set = tuple(sorted(voter.approved))
+            if approval_set in compact:
+                compact[approval_set] += voter.weight
             else:
-                compact[tuple(voter.approved)] = voter.weight
+                compact[approval_set] = voter.weight
         if self.has_unit_weights():
             output = ""
         else:
-- 
2.43.0


From d05c36b78a997d084923916276ee7ddf4e5db4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 10/24] fix: Profile.copy loses candidate names, copy.deepcopy
 fails for profiles

---
 abcvoting/preferences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 02b46a3..8d793db 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -269,11 +269,14 @@ class Profile:
             Profile
         """
         copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile.cand_names = list(self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From c9dda30a930bd270c3b8c5796a7fe207786279c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 11/24] fix: brute-force checks of EJR and PJR are wrong for
 weighted profiles

---
 abcvoting/properties.py | 57 +++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..b56745b 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -694,6 +694,33 @@ def _check_pareto_optimality_gurobi(profile, committee):
     raise RuntimeError(f"Gurobi returned an unexpected status code: {model.Status}")
 
 
+def _minimal_groups_with_weight(profile, voters, min_weight):
+    """
+    Yield all inclusion-minimal groups of voters with a total weight of at least `min_weight`.
+
+    Parameters
+    ----------
+    profile : abcvoting.preferences.Profile
+        A profile.
+    voters : list of int
+        The (indices of) voters that may be in a group.
+    min_weight : int, Fraction or float
+        The minimum weight of a group.
+
+    Yields
+    ------
+    tuple of int
+    """
+    if profile.has_unit_weights():
+        yield from itertools.combinations(voters, math.ceil(min_weight))
+        return
+    for size in range(1, len(voters) + 1):
+        for group in itertools.combinations(voters, size):
+            weights = [profile[vi].weight for vi in group]
+            if sum(weights) >= min_weight > sum(weights) - min(weights):
+                yield group
+
+
 def _check_EJR_brute_force(profile, committee, quota):
     """
     Test using brute-force whether a committee satisfies EJR.
@@ -721,8 +748,8 @@ def _check_EJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum weight of a group for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for i, voter in enumerate(profile):
@@ -731,15 +758,14 @@ def _check_EJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
         # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # subject to having (just) enough weight
+        for combination in _minimal_groups_with_weight(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # compute set of candidates approved by all voters in combination
             cut = set.intersection(*(profile[vi].approved for vi in combination))
@@ -749,7 +775,7 @@ def _check_EJR_brute_force(profile, committee, quota):
                 # we have found combination to be an ell-cohesive set, with no voter having
                 # at least ell approved candidates in committee. Thus EJR fails
                 detailed_information = {
-                    "cohesive_group": voters_less_than_ell_approved_candidates,
+                    "cohesive_group": set(combination),
                     "ell": ell,
                     "joint_candidates": cut,
                 }
@@ -870,8 +896,8 @@ def _check_PJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum weight of a group for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for vi, voter in enumerate(profile):
@@ -880,15 +906,14 @@ def _check_PJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
         # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # subject to having (just) enough weight
+        for group in _minimal_groups_with_weight(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # find set of candidates that are approved by all voters in group
             cut = set.intersection(*(profile[j].approved for j in group))
@@ -905,7 +930,7 @@ def _check_PJR_brute_force(profile, committee, quota):
                 # strictly less than ell, then this ell-cohesive group violates PJR
                 if len(approved_cands_union & committee) < ell:
                     detailed_information = {
-                        "cohesive_group": voters_less_than_ell_approved_candidates,
+                        "cohesive_group": set(group),
                         "ell": ell,
                         "joint_candidates": cut,
                     }
-- 
2.43.0


From 9e978655453f7e1b306c85972ce814ce87e87b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 12/24] fix: check_EJR_plus raises KeyError for large quotas

---
 abcvoting/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index b56745b..ad232e4 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1118,7 +1118,9 @@ def _check_EJR_plus(profile, committee, quota):
     for cand in profile.candidates:
         if cand in committee:
             continue
-        supporters_by_utility = {ell: set() for ell in range(ell_upper_bound + 1)}
+        supporters_by_utility = {
+            ell: set() for ell in range(max(ell_upper_bound, len(committee)) + 1)
+        }
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
                 utility = len(voter.approved & committee)
-- 
2.43.0


From 36c76ad5bc846524715508c63b80bda3d160df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 13/24] fix: Equal Shares with increment completion fails for
 weights smaller than 1

---
 abcvoting/abcrules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 3966f2d..fd93f69 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3463,8 +3463,12 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
+    # with this budget, every voter can pay for `committeesize` many candidates on their own
+    sufficient_committeesize = (
+        committeesize * profile.total_weight() / min(1, *(voter.weight for voter in profile))
+    )
     for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
+        committeesize, math.ceil(sufficient_committeesize + 1)
     ):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
-- 
2.43.0


From b1b51d74757b70dd5b23ae5b3bc54792451221bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 14/24] fix: wrong score name in output of reverse sequential
 rules

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index fd93f69..5584644 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1647,7 +1647,7 @@ def compute_revseq_thiele_method(
         str_committees_with_header(committees, cand_names=profile.cand_names, winning=True)
     )
 
-    msg = "PAV-score of winning committee:"
+    msg = f"{scorefct_id.upper()}-score of winning committee:"
     if not resolute and len(committees) != 1:
         msg += "\n"
     for committee in committees:
-- 
2.43.0


From ddd832f96c201e09cff89a79cd4b6da8ecf7b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 15/24] fix: full_analysis does not restore the output
 verbosity if it fails

---
 abcvoting/properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index ad232e4..0166619 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -60,8 +60,12 @@ def full_analysis(profile, committee):
     current_verbosity = output.verbosity
     output.set_verbosity(WARNING)
 
-    for property_name in PROPERTY_NAMES:
-        results[property_name] = check(property_name, profile, committee)
+    try:
+        for property_name in PROPERTY_NAMES:
+            results[property_name] = check(property_name, profile, committee)
+    finally:
+        # restore output verbosity
+        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
@@ -75,9 +79,6 @@ def full_analysis(profile, committee):
         "core": "The core",
     }
 
-    # restore output verbosity
-    output.set_verbosity(current_verbosity)
-
     for prop, value in results.items():
         output.info(f"{description[prop]:50s} : {value}")
 
-- 
2.43.0


From 6c0b95a7138194559bfd9974eecf7d4ad69699aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 16/24] fix: integral weights that are no integers are written
 incorrectly to Preflib files

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..8a87aa1 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -233,7 +233,7 @@ def write_profile_to_preflib_cat_file(filepath, profile):
             tuple(cand + 1 for cand in profile.candidates if cand not in voter.approved),
         )
         if int(voter.weight) == voter.weight:
-            multiplicity = voter.weight
+            multiplicity = int(voter.weight)
         else:
             multiplicity = 1
         if pref not in preflib_inst.preferences:
-- 
2.43.0


From ca8362fcc394171dcc237e08c9e75bcd613cd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 17/24] fix: fixed-size generators produce too small approval
 sets for some sizes

---
 abcvoting/generate.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..dfa96e0 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -5,6 +5,7 @@ This module is based on the paper on the package
 `prefsampling <https://github.com/COMSOC-Community/prefsampling>`_.
 """
 
+from fractions import Fraction
 import numpy as np
 import prefsampling.approval as app_samplers
 import prefsampling.ordinal as ord_samplers
@@ -124,7 +125,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
             "alpha": replace,
         },
     )
@@ -154,7 +155,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
         },
     )
 
@@ -187,7 +188,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -302,7 +303,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize) / num_cand,
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -632,7 +633,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": Fraction(setsize) / num_cand},
     )
 
 
-- 
2.43.0


From 24e7b91c9b1e33cd51c3a0144877e26ef4e30b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 18/24] fix: profiles with Fraction weights or numpy integers
 cannot be written to yaml files

---
 abcvoting/fileio.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 8a87aa1..ad1d973 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -7,6 +7,7 @@ Two data formats are supported:
 """
 
 import os
+from fractions import Fraction
 import ruamel.yaml
 import preflibtools.instances as preflib
 from abcvoting.preferences import Profile, Voter
@@ -245,6 +246,15 @@ def write_profile_to_preflib_cat_file(filepath, profile):
     preflib_inst.write(filepath)
 
 
+def _yaml_number(x):
+    # numbers of other types (e.g., Fraction or numpy.int64) cannot be represented in yaml
+    if isinstance(x, (int, float)):
+        return x
+    if x == int(x):
+        return int(x)
+    return str(x)  # e.g., "1/3"
+
+
 def _yaml_flow_style_list(x):
     yamllist = ruamel.yaml.comments.CommentedSeq(x)
     yamllist.fa.set_flow_style()
@@ -294,6 +304,8 @@ def read_abcvoting_yaml_file(filename):
                 f"{filename}: the number of voters differs from the number of voter weights."
             )
         for appr_set, weight in zip(approval_sets, weights):
+            if isinstance(weight, str):
+                weight = Fraction(weight)  # e.g., "1/3"
             profile.add_voter(Voter(appr_set, weight=weight))
     else:
         profile.add_voters(approval_sets)
@@ -354,9 +366,13 @@ def write_abcvoting_instance_to_yaml_file(
     data = {}
     if description is not None:
         data["description"] = description
-    data["profile"] = _yaml_flow_style_list([list(voter.approved) for voter in profile])
+    data["profile"] = _yaml_flow_style_list(
+        [[int(cand) for cand in voter.approved] for voter in profile]
+    )
     if not profile.has_unit_weights():
-        data["voter_weights"] = _yaml_flow_style_list([voter.weight for voter in profile])
+        data["voter_weights"] = _yaml_flow_style_list(
+            [_yaml_number(voter.weight) for voter in profile]
+        )
     data["num_cand"] = profile.num_cand
     if committeesize is not None:
         data["committeesize"] = committeesize
@@ -371,7 +387,10 @@ def write_abcvoting_instance_to_yaml_file(
                     mod_compute_instance["result"] = None
                 else:
                     mod_compute_instance["result"] = _yaml_flow_style_list(
-                        [list(committee) for committee in compute_instance["result"]]
+                        [
+                            [int(cand) for cand in committee]
+                            for committee in compute_instance["result"]
+                        ]
                     )  # TODO: would be nicer to store committees in set notation (curly braces)
             if "profile" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-- 
2.43.0


From bff37753e908494ad9ea1af16b267ec0918b3208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 19/24] fix: read_preflib_file with setsize loses voters whose
 tied orders have the same top set

---
 abcvoting/fileio.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index ad1d973..c2b6a73 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -116,16 +116,10 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
             "The preflib parser returned the following error: " + str(e)
         )
 
-    if isinstance(preflib_inst, preflib.OrdinalInstance):
-        if setsize:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, size_truncators=[setsize]
-            )
-        elif top_ranks:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, num_indif_classes=[1] * preflib_inst.num_alternatives
-            )
-    elif not isinstance(preflib_inst, preflib.CategoricalInstance):
+    # both ordinal preferences (sequences of indifference classes) and categorical preferences
+    # (sequences of categories) are used as they are; converting ordinal to categorical instances
+    # would drop orders that have the same categories
+    if not isinstance(preflib_inst, (preflib.OrdinalInstance, preflib.CategoricalInstance)):
         raise ValueError("Only ordinal and categorical preferences can be converted from PrefLib")
 
     # normalize candidates to 0, 1, 2, ...
-- 
2.43.0


From 5a6e411c1f0e0936ebc24ad12a9e80ca0e683376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 20/24] fix: read_preflib_file accepts top_ranks=0 and
 setsize=0

---
 abcvoting/fileio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index c2b6a73..431ff5d 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -104,9 +104,9 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
         top_ranks = 1  # default
     if top_ranks and setsize:
         raise ValueError("Parameters top_ranks and setsize cannot be used simultaneously.")
-    if top_ranks and top_ranks <= 0:
+    if top_ranks is not None and top_ranks <= 0:
         raise ValueError("Parameter top_ranks must be > 0")
-    if setsize and setsize <= 0:
+    if setsize is not None and setsize <= 0:
         raise ValueError("Parameter setsize must be > 0")
 
     try:
-- 
2.43.0


From 5237538431927400b3f035cfaded7fa43a78df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 21/24] fix: instances read without committee size cannot be
 written to yaml files again

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 431ff5d..b676481 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -395,7 +395,7 @@ def write_abcvoting_instance_to_yaml_file(
                     )
             if "committeesize" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-                if int(compute_instance["committeesize"]) != committeesize:
+                if compute_instance["committeesize"] != committeesize:
                     raise ValueError(
                         "Compute instance contained a committee size different from"
                         "the committee size passed to write_abcvoting_instance_to_yaml_file()."
-- 
2.43.0


From 657c1c3b846630304515005c9ca61e3e09c65760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 22/24] fix: name the preferred candidate in tie messages
 instead of printing its number

---
 abcvoting/abcrules.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 5584644..387ebb6 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1241,7 +1241,9 @@ def compute_seq_thiele_method(
                     indent=" ",
                 )
                 if len(tied_cands) > 1:
-                    output.details(f"tie broken in favor of {next_cand},\n", indent=" ")
+                    output.details(
+                        f"tie broken in favor of {profile.cand_names[next_cand]},\n", indent=" "
+                    )
                     output.details(
                         f"candidates "
                         f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
@@ -1632,7 +1634,10 @@ def compute_revseq_thiele_method(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken to the disadvantage of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken to the disadvantage of {profile.cand_names[next_cand]},",
+                    indent=" ",
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)}"
@@ -3814,7 +3819,9 @@ def compute_maximin_support(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken in favor of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken in favor of {profile.cand_names[next_cand]},", indent=" "
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
-- 
2.43.0


From 9c8946e81e317848554acbc78b9df103d3dd2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 23/24] fix: report the actual maximum load when seq-Phragmen
 adds candidates without supporters

---
 abcvoting/abcrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 387ebb6..1d926b6 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2870,7 +2870,8 @@ def _seqphragmen_resolute(
         detailed_info["next_cand"].append(next_cand)
         detailed_info["tied_cands"].append(tied_cands)
         detailed_info["load"].append(list(load))  # create copy of `load`
-        detailed_info["max_load"].append(opt)
+        # candidates without supporters do not change the loads
+        detailed_info["max_load"].append(opt if approvers_weight[next_cand] > 0 else max(load))
 
     detailed_info["committee_load_pairs"] = {tuple(committee): load}
     return [committee], detailed_info
-- 
2.43.0


From 9aaf1a127de5a938acd406d34fc023090ae61063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 24/24] fix: avoid CBC failures when re-solving Thiele and
 minimax-AV models

---
 abcvoting/abcrules_mip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index c7f87c2..97c9dd7 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -237,6 +237,7 @@ def _mip_thiele_methods(
         max_num_of_committees=max_num_of_committees,
         solver_id=solver_id,
         name=scorefct_id,
+        reuse_model=False,  # CBC may return wrong results when solving a modified model again
         committeescorefct=functools.partial(scores.thiele_score, scorefct_id),
     )
     return sorted_committees(committees)
@@ -474,6 +475,7 @@ def _mip_minimaxav(profile, committeesize, resolute, max_num_of_committees, solv
         max_num_of_committees=max_num_of_committees,
         solver_id=solver_id,
         name="minimaxav",
+        reuse_model=False,  # CBC may return wrong results when solving a modified model again
         committeescorefct=lambda profile, committee: scores.minimaxav_score(profile, committee)
         * -1,  # negative because _optimize_rule_mip maximizes while minimaxav minimizes
     )
-- 
2.43.0

