"""What each check runs: families of scenarios (spec/Scenario.tla) as (family, soils, scenarios, Updates each), and
configurations of spec/LasamMC.tla to explore exhaustively as (number, depth)."""

ASSUMPTIONS = [
    "double arithmetic of the JVM and of the compiled code agree to the tolerances stated in spec/LasamTrace.tla",
    "the recorder observes the model through its public BMI calls and the model state it hands out (get_model)",
]
EXTRA = {}
TECHNIQUE = {}

ALL = ["P%02d" % i for i in range(1, 25)]

# quick plan: scenarios are spread over 8 processes
Q = {
    "P01": [("step", "std", 120, 60), ("step", "any", 80, 60), ("multi", "std", 64, 40), ("multi", "any", 40, 40), ("calib", "std", 24, 40), ("frozen", "std", 24, 40), ("wet", "any", 48, 40), ("wet", "std", 24, 40), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P02": [("multi", "std", 80, 40), ("multi", "any", 40, 40), ("step", "std", 40, 60), ("giuh", "std", 48, 40), ("calib", "std", 40, 40), ("frozen", "std", 24, 40), ("long", "std", 16, 400), ("long", "any", 8, 400), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P03": [("giuh", "std", 160, 60), ("multi", "std", 80, 40), ("config", "std", 80, 6), ("long", "std", 24, 400), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P04": [("step", "std", 160, 80), ("step", "any", 80, 80), ("multi", "std", 40, 40), ("frozen", "std", 24, 40), ("wet", "any", 48, 40), ("wet", "std", 24, 40), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P05": [("step", "std", 160, 80), ("step", "any", 80, 80), ("multi", "std", 40, 40), ("frozen", "std", 40, 40), ("calib", "std", 40, 40), ("wet", "any", 48, 40), ("wet", "std", 24, 40), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P06": [("step", "std", 160, 60), ("step", "any", 80, 60), ("multi", "std", 64, 40), ("multi", "any", 40, 40), ("wet", "any", 48, 40), ("wet", "std", 24, 40), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P07": [("step", "std", 160, 60), ("step", "any", 80, 60), ("frozen", "std", 48, 40), ("calib", "std", 24, 40), ("wet", "any", 40, 40), ("multi", "std", 40, 30), ("multi", "any", 24, 30), ("long", "std", 16, 400), ("long", "any", 8, 400), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P08": [("step", "std", 160, 60), ("step", "any", 80, 60), ("calib", "std", 24, 40), ("wet", "any", 40, 40), ("multi", "std", 40, 30), ("multi", "any", 24, 30), ("long", "std", 16, 400), ("long", "any", 8, 400), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P09": [("step", "std", 200, 60), ("step", "any", 100, 60), ("frozen", "std", 40, 40), ("wet", "any", 40, 40), ("multi", "std", 40, 30), ("multi", "any", 24, 30), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P10": [("step", "std", 160, 60), ("step", "any", 80, 60), ("frozen", "std", 48, 40), ("wet", "any", 40, 40), ("multi", "std", 40, 30), ("multi", "any", 24, 30), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P11": [("step", "std", 200, 60), ("step", "any", 100, 60), ("wet", "any", 48, 40), ("wet", "std", 24, 40), ("multi", "std", 40, 30), ("multi", "any", 24, 30), ("long", "std", 16, 400), ("long", "any", 8, 400), ("thin", "std", 40, 60), ("thin", "any", 24, 60), ("mixed", "std", 32, 40), ("mixed", "any", 16, 40)],
    "P12": [("twin", "std", 100, 20), ("multi", "std", 80, 40), ("until", "std", 64, 12), ("config", "std", 40, 8), ("long", "std", 16, 400), ("mixed", "std", 64, 40), ("mixed", "any", 32, 40)],
    "P13": [("bmi", "std", 320, 60), ("again", "std", 48, 40), ("multi", "std", 40, 20), ("bmi", "any", 120, 60), ("long", "std", 16, 400), ("mixed", "std", 64, 40), ("mixed", "any", 32, 40)],
    "P14": [("calib", "std", 160, 40), ("calib", "any", 80, 40), ("long", "any", 16, 400), ("mixed", "std", 64, 40), ("mixed", "any", 32, 40)],
    "P15": [("iso", "std", 64, 60), ("iso", "any", 32, 60), ("iso", "std", 4, 400), ("again", "std", 48, 60), ("again", "any", 24, 60)],
    "P16": [("csv", "std", 96, 40), ("csv", "any", 32, 40), ("csv", "std", 8, 300), ("csv", "std", 32, 71)],
    "P17": [("config", "std", 800, 2), ("config", "any", 320, 2)],
    "P18": [("frozen", "std", 160, 40), ("frozen", "any", 80, 40), ("long", "std", 16, 400), ("mixed", "std", 64, 40), ("mixed", "any", 32, 40)],
    "P19": [("invalid", "std", 320, 40), ("invalid", "any", 160, 40)],
    "P20": [("step", "any", 120, 80), ("multi", "any", 80, 60), ("frozen", "any", 40, 40), ("calib", "any", 40, 40), ("bmi", "any", 40, 40), ("invalid", "any", 24, 10), ("wet", "any", 80, 60), ("long", "any", 12, 400), ("thin", "any", 40, 60), ("mixed", "any", 40, 40)],
    "P21": [("config", "std", 480, 1), ("config", "any", 480, 1), ("step", "any", 320, 1), ("wet", "any", 240, 1)],
    "P22": [("soil", "any", 800, 80)],
    "P23": [],
    "P24": [("multi", "std", 160, 30), ("bmi", "std", 40, 40), ("calib", "std", 40, 30), ("frozen", "std", 40, 30), ("until", "std", 40, 12), ("iso", "std", 16, 40), ("long", "std", 8, 400), ("mixed", "std", 64, 40), ("mixed", "any", 32, 40)],
}


# exhaustive exploration (spec/LasamMC.tla): configuration -> depth; each is replayed into the code
E3 = {c: 3 for c in list(range(1, 9)) + [10]}
X = {
    "P01": {**E3, 1: 4, 7: 4}, "P02": {**E3, 4: 4, 8: 4}, "P03": {**E3, 3: 4, 6: 4}, "P04": {**E3, 1: 4, 7: 4}, "P05": {**E3, 1: 4, 7: 4},
    "P06": {**E3, 2: 4, 6: 4}, "P07": {**E3, 1: 4, 2: 4}, "P08": {**E3, 2: 4, 4: 4}, "P09": {**E3, 2: 4, 5: 4}, "P10": {**E3, 1: 4, 7: 4},
    "P11": {**E3, 1: 4, 7: 4}, "P12": {6: 4, 8: 4, 3: 4}, "P13": {9: 3}, "P14": {4: 5, 11: 4, 9: 3}, "P15": {"iso": 2}, "P18": {5: 5, 11: 4}, "P20": E3,
    "P23": {"list": 6}, "P24": {**E3, 6: 4, 8: 4, "iso": 1},
}


def plan(pid, tier):
    fam, exp = Q[pid], X.get(pid, {})
    if tier == "thorough":
        fam = [(f, c, n * 10, u) for f, c, n, u in fam]
        exp = {c: n + (1 if c in ("list", "iso", 9, 11) else 2) for c, n in exp.items()}
    # P24: everything the standalone build is held to, of the library built for the framework
    clauses = [p for p in ALL if p not in ("P16", "P22", "P23", "P24")] if pid == "P24" else [pid]
    return dict(clauses=clauses, framework=pid == "P24", families=fam, explore=sorted(exp.items(), key=str), sanitize=pid == "P20", units=pid in ("P22", "P23"))
