"""Properties, their bounded models, assumptions and level notes."""
RULE_NOTE = ("Trace validation: TLC computes the outcome of the specified rule for every recorded election with exact "
             "rationals and compares it with every algorithm's recorded irresolute, limited and resolute result. "
             "Bounds: all elections up to 3 candidates x 2-3 voters plus thousands of seeded random ones from ten families "
             "(up to 13 candidates, 40 voters; unit, integer, fractional and tiny weights).")
PROPS = {f"C{i:02d}": {"models": [], "note": RULE_NOTE} for i in range(1, 15)}
META_NOTE = ("Trace validation: TLC checks the stated relation between recorded results of the real code (no rule is recomputed), so "
             "larger elections are reached than for the rule semantics. Seeded random elections from ten families over all rules and "
             "available algorithms except mip-gurobi (cannot start here) and mip-cbc on larger instances.")
for _p in ("C15", "C16", "C17", "C18", "C33"):
    PROPS[_p] = {"models": [], "note": META_NOTE}
AXIOM_NOTE = ("Trace validation: TLC evaluates the axiom's definition for every recorded election, committee and quota and compares "
              "it with the answer of every algorithm; priceability is decided by exact rational price systems or Farkas certificates that TLC "
              "verifies. Bounds: up to 6 candidates and 8 voters, all weights and quotas as exact rationals.")
for _p in ("C21", "C22", "C23", "C24"):
    PROPS[_p] = {"models": [], "note": AXIOM_NOTE}
PROPS["C19"] = {"models": [], "note": (
    "Trace validation against an explicit table of legal calls (module Validation): every rule x entry point x single fault and valid "
    "combination on a fixed profile, plus random combinations of several faults on random profiles, and the property checks' parameters.")}
PROPS["C26"] = {"models": [], "gen": [{"module": "ProfileGen", "num": 1000, "depth": 32}], "note": (
    "Model-generated histories: TLC simulates the profile machine (module ProfileMachine), the driver replays each history on real "
    "Profile and Voter objects, observes all of them after every operation, and TLC judges every observed step.")}
PROPS["C25"] = {"models": [], "note": (
    "Trace validation: TLC evaluates the definition of every published score function (module Scores; the Monroe optimum by the "
    "capacitated Koenig formula, cross-checked with balanced assignments) on recorded profiles and committees of every size.")}
PROPS["C27"] = {"models": [], "note": (
    "Trace validation: seeded random calls of the candidate-set constructor, formatting and committee helpers and of compute(result=...) "
    "are compared by TLC with their definitions (module Helpers), including text order and several-digit candidates.")}
PROPS["C20"] = {"models": [], "gen": [{"module": "SessionGen", "num": 420, "depth": 70}], "note": (
    "Model-generated sessions: TLC simulates the session machine (module SessionMachine); the driver replays each session in one process, "
    "repeats every computation in a fresh process on a fresh copy of the profile, and TLC judges every step: unchanged state and equal results.")}
PROPS["C29"] = {"models": [], "note": (
    "Trace validation: the driver writes random Preflib files of all types itself (ties, incomplete orders, categories, odd names) or lets the library "
    "write profiles; TLC compares what the library reads with the definition (module Preflib) for every number of ranks and set size.")}
PROPS["C28"] = {"models": [], "gen": [{"module": "FileGen", "num": 800, "depth": 40}], "note": (
    "Model-generated histories: TLC simulates the file store (module FileMachine) with writes, reads, write-backs, recomputations and tampering; "
    "the driver replays each history on real .abc.yaml files and TLC judges every step, including which files are unchanged byte for byte.")}
PROPS["C30"] = {"models": [], "gen": [{"module": "OutputGen", "num": 400, "depth": 40}], "note": (
    "Model-generated histories: TLC simulates the output machine (module OutputMachine) with messages of all levels, verbosity changes, loggers, "
    "analyses (also failing and nested ones) and computations; TLC judges what was printed and logged at every step.")}
PROPS["C31"] = {"models": [], "note": (
    "Trace validation: the driver parses what is printed at detail level; TLC replays the listed steps as a behaviour of the rule's machine (module "
    "Machines) and checks every tie, score, load, budget and cost, and that the witnesses of failing property checks are violations (module Explain).")}
PROPS["C32"] = {"models": [], "note": (
    "Trace validation: every recorded random profile must be a behaviour of the generator machine (module Generators): permitted ballots step by "
    "step, spatial ballots recomputed with exact rationals from the positions, refusals; frequencies and moments of large samples within 8 standard deviations.")}

PROPS["C34"] = {"models": [], "note": (
    "Trace validation: on recorded party-list elections TLC compares the seats of all returned committees with the divisor method, largest "
    "remainders or lower quotas (module Apportionment); up to 6 parties, 30 voters, 14 seats, all weight modes, all rules with such a theorem.")}
PROPS["C35"] = {"models": [], "note": (
    "Trace validation: TLC relates recorded results on two electorates and their union, and on elections that differ by empty or full ballots "
    "or unapproved candidates (module Across); no rule is recomputed, all algorithms take part.")}
PROPS["C36"] = {"models": [], "note": (
    "Trace validation: TLC relates the recorded results of all rules on one election (module Across): refinements, single seat, all seats, and "
    "no committee of any rule nor an exchange of one member beats an optimising rule (up to 16 candidates and 30 voters).")}
PROPS["C37"] = {"models": [], "note": (
    "Trace validation: TLC relates recorded results before and after a winner gets more support, and with and without candidates who win nowhere "
    "(module Across); no rule is recomputed, all algorithms take part.")}


# ---------------------------------------------------------------- bounded models
def _model(prop, module, group=None, **kw):
    m = dict({"module": module, "cfg": module}, **kw)
    if group:
        m["env"] = {"GROUP": group}
    PROPS[prop]["models"].append(m)


for _p, _g in (("C03", "seqthiele"), ("C04", "revseqthiele"), ("C06", "seqphragmen"), ("C08", "maximin"), ("C09", "greedy-monroe"),
               ("C11", "mes"), ("C12", "mes"), ("C13", "enestroem"), ("C13", "consensus")):
    _model(_p, "MachinesMC", _g)
for _p, _g in (("C01", "optimal"), ("C02", "optimal"), ("C05", "optimal"), ("C07", "optimal"), ("C09", "optimal"), ("C10", "optimal"),
               ("C14", "optimal"), ("C16", "judge"), ("C15", "judge"), ("C17", "relations"), ("C18", "relations"), ("C33", "relations"),
               ("C34", "parties"), ("C35", "across"), ("C36", "across"), ("C36", "optimal"), ("C37", "support"),
               ("C21", "axioms"), ("C22", "axioms"), ("C24", "axioms"), ("C24", "optimal")):
    _model(_p, "ElectionsMC", _g)
_model("C20", "SessionMC")
_model("C26", "ProfileMC", tiers=("quick",))
PROPS["C26"]["models"].append({"module": "ProfileMC", "cfg": "ProfileMC2", "tiers": ("thorough",), "timeout": 800, "workers": 8})
_model("C28", "FileMC")
_model("C30", "OutputMC")
_model("C25", "RationalsTest")
PROPS["C26"]["models"][0]["workers"] = 8
_MODEL_NOTE = {
    "MachinesMC": "Bounded model: the rule's machine on all elections up to 3 candidates and 3 voters (thorough: 4 and 4, weights), parallel universes, with invariants, step properties, termination and the guarantees of final committees.",
    "ElectionsMC": "Bounded model: the same small elections exhaustively, for theorems about the specification itself (refinements, dualities, axiom implications and equivalences, relations between elections, exactness of the judgement).",
    "SessionMC": "Bounded model: the session machine and its step judgement, exhaustively within small bounds.",
    "ProfileMC": "Bounded model: the profile machine and its step judgement, exhaustively within small bounds (two profiles, one voter object, two voters).",
    "FileMC": "Bounded model: the file store and its step judgement, exhaustively for four instances and two files.",
    "OutputMC": "Bounded model: the output machine and its step judgement, exhaustively.",
    "RationalsTest": "The Java evaluation of rationals and strings is compared with its TLA+ definition on a grid."}
for _p in PROPS.values():
    for _t in dict.fromkeys(_m["module"] for _m in _p["models"]):
        _p["note"] += " " + _MODEL_NOTE[_t]
