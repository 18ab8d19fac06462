#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids, titles and statements stay in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))])))
R = "abcvoting/abcrules.py"; G = "abcvoting/abcrules_gurobi.py"; M = "abcvoting/abcrules_mip.py"
O = "abcvoting/abcrules_ortools.py"; S = "abcvoting/scores.py"; PR = "abcvoting/properties.py"
PF = "abcvoting/preferences.py"; MI = "abcvoting/misc.py"; F = "abcvoting/fileio.py"
OU = "abcvoting/output.py"; GE = "abcvoting/generate.py"
ELECT = ("all approval profiles (any number of candidates and voters, empty and full ballots, duplicates, "
         "unapproved candidates, positive integer or fractional weights unless the rule refuses them), all committee sizes, ")
WHY = ("The tests compare a few dozen fixed profiles with stored results; the claim is about every profile, and the "
       "discriminating cases (ties, weights, many candidates, few approvals, exact rational equality) are combinations they do not sample.")
p("C01", "Thiele optimisation rules return exactly the score-maximising committees",
  "For PAV, SLAV, CC and the geometric rules, the irresolute result is exactly the set of committees of the requested size whose weighted Thiele score is maximal among all committees of that size. This holds for every available algorithm, and the resolute result is one of those committees.",
  ["inputs", "configurations"], ELECT + "every available algorithm (branch-and-bound, brute force, ILP, CP-SAT), resolute or not.", WHY,
  [R, G, M, O, S], "compute_thiele_method and the solver back-ends: optimise and then enumerate all optima")
p("C02", "Lex-CC returns exactly the committees with leximax at-least-l coverage",
  "The lexicographic Chamberlin-Courant rule returns exactly the committees that lexicographically maximise the vector (weight of voters with at least 1, at least 2, ..., at least k approved members), for every available algorithm. The resolute result is one of those committees.",
  ["inputs", "configurations"], ELECT + "brute force and ILP.", WHY, [R, G], "compute_lexcc: iterated optimisation with earlier levels fixed")
p("C03", "Sequential Thiele rules follow greedy marginal-score semantics exactly",
  "A committee is in the irresolute result of a sequential Thiele rule (seq-PAV, seq-SLAV, seq-CC, sequential geometric) iff some order of its members adds, at every step, a candidate with maximal weighted marginal score among the candidates not yet chosen. The resolute result is obtained by choosing the lowest-numbered such candidate at every step.",
  ["inputs", "schedules"], ELECT + "and all tie-breaking orders (parallel universes).", WHY, [R, S], "greedy loop and its parallel-universe version")
p("C04", "Reverse sequential Thiele rules follow greedy removal semantics exactly",
  "A committee is in the irresolute result of a reverse sequential Thiele rule iff it can be reached from the set of all candidates by removing, one at a time, a remaining candidate whose removal loses the least weighted score. The resolute result always removes the highest-numbered such candidate.",
  ["inputs", "schedules"], ELECT + "and all tie-breaking orders.", WHY, [R, S], "removal loop and its parallel-universe version")
p("C05", "AV and SAV elect exactly the top-scoring candidates with exact ties",
  "AV and SAV return exactly the committees consisting of k candidates with the highest (weighted) approval, respectively satisfaction-approval, scores, where scores are compared exactly, so candidates with equal scores are interchangeable. The resolute result resolves the tie at the cutoff in favour of lower-numbered candidates.",
  ["inputs"], ELECT + "resolute or not, limited or not.", WHY, [R], "separable-rule scoring, cutoff, tie enumeration")
p("C06", "Seq-Phragmén follows the load-balancing process exactly",
  "Seq-Phragmén repeatedly adds a not-yet-chosen candidate whose supporters' common new load (previous weighted loads plus one, divided by their total weight) is smallest, sets the supporters' loads to that value, and turns to candidates without supporters only when no supported candidate is left. The irresolute result is the set of committees reachable under some tie-breaking, the resolute one takes the lowest-numbered candidate at each tie, for every arithmetic variant.",
  ["inputs", "schedules", "configurations"], ELECT + "all tie-breakings, float / Fraction / gmpy2 arithmetic.", WHY, [R], "load bookkeeping in the resolute and irresolute algorithms")
p("C07", "Minimax- and leximax-Phragmén minimise the (sorted) voter loads exactly",
  "Minimax-Phragmén returns exactly the committees for which the smallest achievable maximum voter load is minimal; leximax-Phragmén returns exactly those whose load vector, sorted from largest to smallest and optimally distributed, is lexicographically minimal (a voter of integer weight w counting as w voters); with lexicographic tie-breaking the first of them in the order of their texts is returned. If fewer candidates are approved than seats, all approved candidates are elected and every completion is winning.",
  ["inputs", "configurations"], ELECT + "every available ILP back-end, resolute or not.", WHY, [R, G, M], "LP/ILP models for load distributions, iterated load bounds")
p("C08", "The maximin support method follows its greedy support semantics exactly",
  "The maximin support method repeatedly adds a candidate that maximises the largest value achievable as the minimum support over the enlarged committee, when every voter distributes its weight among its approved committee members. The irresolute result is the set of committees reachable under some tie-breaking, the resolute one takes the lowest-numbered tied candidate.",
  ["inputs", "schedules", "configurations"], ELECT + "all tie-breakings and available LP back-ends.", WHY, [R, G, M], "LP for the maximin support value, greedy loop")
p("C09", "Monroe and Greedy Monroe satisfy their balanced-assignment definitions",
  "Monroe's rule returns exactly the committees maximising the number of voters assigned to an approved member over all assignments in which every member serves either floor(n/k) or ceil(n/k) voters, for every available algorithm. Greedy Monroe repeatedly picks the candidate approved by most remaining voters (lowest-numbered on ties) and removes its district of ceil(n/k) voters in the first n mod k rounds and floor(n/k) afterwards, lowest-numbered approving voters first.",
  ["inputs", "configurations"], "all unit-weight profiles, all committee sizes (k dividing n or not, k > n), all available algorithms.", WHY, [R, G, M, O, S], "Monroe score via matching/flow, ILP/CP models, greedy rounds")
p("C10", "MAV and lex-MAV minimise the (sorted) Hamming distances exactly",
  "Minimax approval voting returns exactly the committees minimising the largest Hamming distance to a ballot, and lex-MAV exactly those minimising the vector of Hamming distances sorted from largest to smallest, lexicographically. This holds for every available algorithm, and the resolute result is one of those committees.",
  ["inputs", "configurations"], "all profiles (unit weights for lex-MAV), all committee sizes, all available algorithms.", WHY, [R, G, M, O, S], "brute force and ILP/CP models over Hamming distances")
p("C11", "The Method of Equal Shares follows its budget semantics exactly",
  "With starting budgets proportional to weight and summing to k, the Method of Equal Shares repeatedly buys the affordable candidate of unit price with the smallest maximum payment per unit of weight, supporters paying equally up to their remaining budget, until no candidate is affordable. The irresolute result is the set of committees reachable under some tie-breaking, the resolute one takes the lowest-numbered tied candidate, for every arithmetic variant; without completion, the committee bought so far is returned.",
  ["inputs", "schedules", "configurations"], ELECT + "all tie-breakings, float / Fraction / gmpy2 arithmetic, without completion.", WHY, [R], "min-q computation, budgets, parallel universes")
p("C12", "Equal Shares completions fill the committee as documented",
  "When the Method of Equal Shares leaves seats open, the seq-Phragmén completion continues seq-Phragmén from loads equal to minus the remaining budget per weight; the AV completion adds remaining candidates by approval weight; and the increment completion returns the outcome for the first per-voter budget j/total weight (j = k, k+1, ...) that buys exactly k candidates, or all approved candidates plus unapproved ones if too few are approved. Every completed committee has exactly k members and contains a committee bought in the first phase of the same run.",
  ["inputs", "schedules", "configurations"], ELECT + "all completions, tie-breakings and arithmetic variants.", WHY, [R], "phragmen_phase, av_phase, increment loop")
p("C13", "Phragmén-Eneström and the Consensus rule follow their budget processes",
  "Phragmén-Eneström repeatedly elects the candidate with the largest remaining supporting budget and charges total weight / k proportionally to its supporters (everything they have if it does not suffice). The Consensus rule repeatedly gives every voter its weight, elects the candidate with the largest total of positive supporter budgets and charges those supporters the total weight in proportion to their weights; in both, the irresolute result is the set of committees reachable under some tie-breaking and the resolute one takes the lowest-numbered tied candidate.",
  ["inputs", "schedules", "configurations"], ELECT + "all tie-breakings and arithmetic variants.", WHY, [R], "budget bookkeeping of the two rules")
p("C14", "EPH, the trivial rule and random serial dictator match their definitions",
  "EPH repeatedly looks at the candidates whose split-vote score is at most the second-smallest one, eliminates those of them with the fewest approvals, and in the last round returns every committee that removes exactly the required number of them. The trivial rule returns all committees of the requested size, and random serial dictator always returns a committee obtainable by some order of the voters, each adding its approved candidates while seats remain, with arbitrary remaining candidates filling unused seats.",
  ["inputs", "schedules"], ELECT + "all random seeds for RSD, all arithmetic variants for EPH.", WHY, [R], "elimination rounds, enumeration, random order")
p("C15", "Results are valid: right size, distinct, sorted, limited, resolute within all",
  "Every rule returns a non-empty list of distinct committees that are sets of existing candidates with exactly the requested size (at most that size for Equal Shares without completion), in the documented sorted order. A resolute call returns exactly one committee and it is among the irresolute ones; with a limit of r committees exactly min(r, number of winning committees) of the winning committees are returned.",
  ["inputs", "configurations"], ELECT + "all rules, all available algorithms, resolute / irresolute / limited.", WHY, [R, G, M, O, MI], "every compute function's result path")
p("C16", "All algorithms of a rule agree with each other",
  "For one rule and one election, all available algorithms (exact, floating-point, branch-and-bound, brute-force, ILP and CP solvers) return the same list of winning committees, and the default algorithm is one of them. For rules resolving ties by lowest index, the resolute results agree as well.",
  ["inputs", "configurations"], ELECT + "all pairs of available algorithms, including elections larger than those checked against the definition.", WHY, [R, G, M, O], "algorithm dispatch and all back-ends")
p("C17", "Integer weights mean copies, and scaling all weights changes nothing",
  "For every rule that takes weights, an election with integer weights has the same winning committees as the one in which each voter is replaced by that many unit-weight voters, as does the profile merged by ballot. Multiplying all weights by a common positive rational leaves the winning committees unchanged, and rules defined for unit weights only refuse other weights with an error.",
  ["inputs", "configurations"], ELECT + "all weighted rules and algorithms, rational scaling factors below and above 1.", WHY, [R, G, M, PF, S], "weight handling in scores, loads, budgets and ILP models; conversion of profiles")
p("C18", "Rules are anonymous and neutral",
  "Permuting the voters of a profile does not change the winning committees of any deterministic irresolute rule, and renaming the candidates renames the winning committees in the same way. Candidate names given to a profile never influence the result.",
  ["inputs"], ELECT + "all permutations of voters and candidates, all name lists.", WHY, [R, G, M, O], "all irresolute computations")
p("C19", "Invalid calls are refused with the documented errors, valid ones are not",
  "Every rule refuses a committee size below 1 or above the number of candidates, a profile without voters, a limit that is not a positive integer, a limit combined with resolute=True (all ValueError), an unknown algorithm or rule name (ValueError) and an unsupported value of resolute (NotImplementedError), through every entry point. A call that violates none of these (nor a rule's documented weight or parameter restriction) returns a result instead of raising. The property checks refuse committees with candidates that do not exist, a quota for axioms that have none and unknown properties (ValueError), and unknown algorithms (NotImplementedError), and accept every valid call.",
  ["inputs", "configurations"], "all rules x entry points x combinations of valid and invalid parameters.", WHY, [R], "verify_compute_parameters and rule construction")
p("C20", "Computations are pure: no side effects, no dependence on history or verbosity",
  "Computing a rule, a score or a property leaves the profile, the committees passed in, the output verbosity and the global settings unchanged. Its result depends only on its arguments: repeating it, doing other computations before it, or changing the verbosity never changes the result.",
  ["histories", "configurations"], "all histories of computations, property checks, verbosity changes and profile edits in one process.", "Tests run one call on a fresh profile; interference between calls needs a sequence of operations on shared objects.", [R, G, M, O, PR, S, OU], "shared profile objects, module-level state")
p("C21", "JR, PJR, EJR and EJR+ are decided correctly for any weights and quota",
  "The checks for JR, PJR, EJR and EJR+ return True iff no group of voters with total weight at least l times the quota violates the respective definition (the quota defaulting to total weight / committee size), for unit and non-unit weights and any positive quota. Every available algorithm gives the same answer.",
  ["inputs", "configurations"], "all profiles, all committees, all positive quotas (also larger than the total weight), all available algorithms.", WHY, [PR], "brute-force and ILP property checkers")
p("C22", "FJR and the core are decided correctly for any weights and quota",
  "The check for FJR returns True iff there are no candidate set T, threshold b and voter group of total weight at least |T| times the quota who each approve at least b members of T but fewer than b of the committee. The core check returns True iff no group of weight at least |T| times the quota exists whose members all approve strictly more candidates in T than in the committee; all available algorithms agree.",
  ["inputs", "configurations"], "all profiles, committees, positive quotas and algorithms.", WHY, [PR], "brute-force and ILP property checkers")
p("C23", "Pareto optimality and (stable) priceability are decided correctly",
  "The Pareto check returns True iff no committee of the same size gives every voter at least as many and some voter more approved members. The priceability and stable-priceability checks return True iff a price system supporting the committee as defined exists (budgets proportional to weights, members paid exactly one by approving voters, non-members not affordable), where a committee is accepted if fewer candidates are approved than seats exist exactly when it contains all approved ones.",
  ["inputs", "configurations"], "all profiles with any weights, all committees, all available algorithms.", WHY, [PR, MI], "dominance search, LP models for price systems")
p("C24", "Axiom implications and the rules' proven guarantees hold for all outputs",
  "On every election the reported properties respect the known implications (core => FJR => EJR => PJR => JR, EJR+ => EJR, stable priceability => priceability and core, priceability of a full committee => PJR). Every committee returned by PAV and Equal Shares (completed by seq-Phragmén or AV) is reported to satisfy EJR+ and EJR, by seq-Phragmén, leximax-Phragmén and maximin support PJR, by CC and greedy rules with that guarantee JR, by AV, PAV and other strictly monotone Thiele rules Pareto optimality; Equal Shares and seq-Phragmén outputs are priceable, and the full analysis reports the same values as the individual checks.",
  ["inputs", "configurations"], "all profiles and all committees returned by the rules.", WHY, [PR, R], "property checkers combined with rule outputs; full_analysis")
p("C25", "Score functions compute the documented values exactly",
  "The published score functions agree with their definitions on every input: Thiele scores and marginal scores (adding and removing) with exact rational arithmetic and weights, the Monroe score as the optimum of a balanced assignment whether or not k divides n, the minimax-AV score and bounded-distance counts, and the Hamming distance. Invalid score names and invalid arguments are refused.",
  ["inputs"], "all profiles, all committees (of any size), all score functions and parameters.", WHY, [S, MI], "scores module")
p("C26", "A profile behaves like an immutable-ballot list under every editing history",
  "After any sequence of adding voters, replacing a voter, converting to unit or merged weights, and copying, a profile reports exactly the ballots, weights, total weight, unit-weight and party-list status, approved candidates and text forms that these operations imply; adding the same voter object several times or editing the original afterwards through the profile's interface never affects another entry, and copies (shallow or deep) have equal contents and names and are independent. An invalid operation raises an error and leaves the profile unchanged (adding several voters keeps those before the invalid one).",
  ["histories"], "all operation histories on profiles, voters and copies.", "Tests exercise single operations; aliasing, conversion after conversion and failed operations in the middle only show in sequences.", [PF, MI], "Profile and Voter")
p("C27", "Candidate sets and committee helpers follow set semantics",
  "Candidate sets accept exactly duplicate-free collections of non-negative integers below the bound and refuse everything else; dominance, comparison of committee lists, verification of expected results, power sets, sorting and formatting of committees give the results their documentation defines for all inputs. Formatting lists every candidate exactly once with the right name in sorted order.",
  ["inputs"], "all collections, committees, names and sizes, including numbers with several digits.", WHY, [MI, PF], "misc module")
p("C28", "Writing an instance to an .abc.yaml file and reading it back loses nothing",
  "Reading a written .abc.yaml file gives back the same candidates count, the same ballots in the same order, the same weights (integer, floating-point or fractional), the committee size and the compute instances with their parameters and results; recomputing the read instances gives the stored results. Files with unknown keys, missing profiles, wrong numbers of weights or inconsistent compute instances are refused and never read as something else.",
  ["inputs", "histories"], "all instances, sequences of write/read/overwrite, and malformed variations of files.", WHY, [F, PF], "YAML reader and writer")
p("C29", "Preflib files are written and read back faithfully",
  "Writing a profile with integer weights to a Preflib category file and reading it gives the same ballots with the same multiplicities (or total weights per ballot) and the same candidate names. Reading ordinal or categorical files with a number of top ranks or a minimum set size yields for every line exactly the approval set the documentation defines, as many times (or with the weight) as its count; directory reading covers exactly the Preflib files of that directory.",
  ["inputs"], "all profiles, ordinal files with ties and incomplete orders, all top_ranks / setsize values.", WHY, [F], "Preflib reader and writer")
p("C30", "Messages are printed and logged exactly according to verbosity",
  "A message of some level is printed iff its level is at least the verbosity in force, and is always passed to an attached logger with the corresponding level (custom levels mapped to DEBUG), whatever the history of verbosity changes. Wrapped text keeps all words and line breaks, and an analysis that temporarily lowers the verbosity restores it, also when it fails.",
  ["histories", "inputs"], "all histories of messages, verbosity changes, analyses and failures.", "Tests check single messages at single levels.", [OU, PR], "Output object, full_analysis")
p("C31", "Printed explanations describe a correct run of the rule",
  "The step-by-step explanations printed at detail level are truthful: the listed candidates, tied candidates, scores, loads, budgets and costs form a legal run of the rule that ends in the returned committee, and the ties mentioned are exactly the candidates that were tied; the winning committees and verdicts announced are those returned. The witnesses printed by failing property checks (voter group, level, candidates, dominating committee or objection) really violate the property.",
  ["inputs", "histories"], "all elections and committees for which explanations are printed.", "No test reads the explanation text.", [R, PR], "detail-level output of sequential rules and property checkers")
p("C32", "Random profile generators respect their structural guarantees",
  "Every generator returns a profile with the requested numbers of voters and candidates whose ballots contain existing candidates only and obey the model's constraints: requested ballot sizes, at least one approval where promised, approval of exactly the candidates that the spatial rule determines for given points, urn and resampling ballots within their bounds. Points lie in the support of their distribution; frequencies of approvals and ballots and the moments of points agree with the stated probabilities. Unknown distributions, wrongly dimensioned points and out-of-range parameters are refused.",
  ["inputs"], "all random states and parameters.", "Tests only check that generators run and a few sizes.", [GE], "generators module")
p("C33", "Sequential rules are committee monotone and outcomes respect unanimity",
  "For the sequential rules (seq-Thiele, reverse seq-Thiele, seq-Phragmén, maximin support) and for AV and SAV the resolute committee of size k is contained in the resolute committee of size k+1. If all voters approve the same set of candidates, then AV, SAV, PAV, SLAV, lex-CC, the geometric rules and their sequential variants, Phragmén's rules, completed Equal Shares, maximin support and MAV elect only those candidates as long as enough of them exist, and all of them otherwise.",
  ["inputs", "configurations"], ELECT + "all pairs of consecutive committee sizes; all unanimous profiles.", WHY, [R], "all sequential computations")
p("C34", "On party-list profiles rules apportion seats by their classical method",
  "If any two ballots are equal or disjoint, the committees returned give the parties (up to their size) seats by a divisor method: D'Hondt for PAV, its sequential and reverse sequential form, seq-Phragmén and maximin support, the corresponding divisors for the other Thiele rules, with exactly the tied outcomes in the irresolute result; leximax-Phragmén stays within D'Hondt and minimax-Phragmén reaches its largest load. With large enough parties Phragmén-Eneström, and Monroe if the committee size divides the number of voters, give exactly the largest-remainder outcomes; Equal Shares completed by seq-Phragmén or AV gives every party its lower quota.",
  ["inputs", "configurations"], "all party-list profiles with any positive weights, party sizes and committee sizes; all available algorithms, resolute or not.",
  "Tests contain a few party-list profiles with stored results; the claim quantifies over vote distributions, party sizes, ties and weights.", [R, G, M, O, S], "all rules that extend apportionment methods")
p("C35", "Joined electorates agree with their parts; irrelevant ballots have no effect",
  "For AV, PAV, SLAV, CC, the geometric rules, lex-CC and lex-MAV: if some committees win in both of two electorates, exactly these win in the joined electorate (for MAV they are among its winners). Adding voters with empty ballots does not change the winning committees of AV, Thiele rules (optimal, sequential, reverse), lex-CC, Phragmén's rules and maximin support; neither do full ballots for AV, Thiele rules and lex-CC; nor do additional unapproved candidates, when enough candidates are approved, for AV, PAV, SLAV, the geometric rules and their sequential variants, lex-CC, lex-MAV, Phragmén's rules, maximin support and Equal Shares.",
  ["inputs", "configurations"], ELECT + "all splits of an electorate, all numbers of added ballots and candidates.", WHY, [R, G, M, O, S], "all rules named; results of several calls are related")
p("C36", "The results of different rules on one election fit together",
  "Leximax-Phragmén, lex-MAV and lex-CC refine minimax-Phragmén, MAV and CC. With one seat AV, Thiele rules, lex-CC, sequential Thiele rules, Phragmén's rules, maximin support, Monroe, the consensus rule and completed Equal Shares elect exactly the most approved candidates, and with as many seats as candidates every rule returns the committee of all candidates. Equal Shares completed by seq-Phragmén or AV keeps what was bought before completion. No committee returned by any rule, and no exchange of one member, beats an optimising rule (AV, PAV, SLAV, CC, geometric, MAV, Monroe, minimax-Phragmén) in its own objective.",
  ["inputs", "configurations"], ELECT + "all rules and algorithms on the same election.", WHY, [R, G, M, O, S], "all compute functions")
p("C37", "Extra support never harms a winner; losing candidates do not matter",
  "If a voter additionally approves a winning candidate, or (except for Equal Shares, the consensus rule, Monroe, greedy Monroe, Phragmén-Eneström) a voter for this candidate alone is added, the candidate keeps winning in some, and if so before in all, committees; for AV, PAV, SLAV, the geometric rules, lex-CC and lex-MAV it then is in every winning committee. This holds for these rules, CC, MAV, Monroe, minimax- and leximax-Phragmén, and also for the resolute results of the sequential rules: seq-Thiele, seq-Phragmén, maximin support, Equal Shares (with seq-Phragmén or no completion), Phragmén-Eneström, the consensus rule, greedy Monroe. For the same rules without MAV and lex-MAV, removing candidates who are in no winning committee (for resolute sequential results: not in the committee) leaves the winning committees as they are.",
  ["inputs", "configurations"], ELECT + "all winning candidates and additional approvals or voters, all sets of losing candidates; all available algorithms, resolute or not.", WHY, [R, G, M, O, S], "all rules named; results of two calls are related")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
