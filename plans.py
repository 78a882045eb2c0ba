"""What is explored for each property."""

PROJECT_INV = ["HistoryFaithful", "UndoRedoIdentity", "ReopenFaithful", "UndoLimit", "Shape"]
PROJECT_ACT = ["EditExact", "EditCovers", "NewEditForgetsRedo"]


def project_mc(c, menu, steps, limit):
    return c.model("ProjectMC", {"Menu": '"%s"' % menu, "MaxSteps": steps, "Limit": limit},
                   PROJECT_INV, PROJECT_ACT, view="View", emit="EmitScript")


def project(menus, prof, n_quick, n_thorough, queries=0):
    """menus: (menu, steps, limit) explored exhaustively, quick and thorough; prof: profile of the random histories"""
    def run(c):
        c.assumptions += ["edits name items as they are in the project, each once",
                          "ticks stay far enough below 2^32 for a note to end and a bar to be added"]
        for menu, steps, limit in c.q(*menus):
            scripts = project_mc(c, menu, steps, limit)
            c.conform("ProjectTrace", c.harness(c.spread_scripts(scripts, prof)),
                      what="every transition of ProjectMC(%s, %d steps, undo limit %d) executed on a project store" % (menu, steps, limit))
        rounds = c.q(1, 12)
        for k in range(rounds):
            c.conform("ProjectTrace", c.harness([[x[0], x[1] + 100 * k] + x[2:] for x in c.spread("traces", c.q(n_quick, n_thorough), prof)]),
                      what="random histories, profile " + prof)
            if queries:
                c.conform("ProjectTrace", c.harness([[x[0], x[1] + 100 * k] + x[2:] for x in c.spread("queries", c.q(queries, queries * 3), prof)]),
                          what="projects with any repositories, far ticks included")
    return run


REPEAT_INV = ["PlayedIsLaidOut", "NoFaultNoAlarm", "Covered", "OnceEach", "Terminates", "Decides", "Ordered", "SecondWithin", "WarnsOfDc"]
BAR_LINES = {  # what is enumerated: alphabet, length, one in how many
    "P09": ([("sections", 6, 1), ("sections", 7, 8), ("endings", 6, 1), ("singles", 4, 2)],
            [("sections", 7, 1), ("sections", 8, 6), ("endings", 8, 2), ("singles", 5, 1), ("all", 3, 1)]),
    "P10": ([("global", 3, 1), ("global", 4, 1), ("global", 5, 24), ("singles", 4, 1)],
            [("global", 4, 1), ("global", 5, 2), ("global", 6, 40), ("singles", 5, 1), ("all", 3, 1)]),
    "P11": ([("sections", 5, 1), ("endings", 6, 1), ("singles", 4, 1), ("all", 2, 1), ("all", 3, 6), ("global", 4, 2), ("pairs", 2, 1), ("pairs", 3, 6)],
            [("sections", 7, 1), ("endings", 8, 2), ("singles", 5, 1), ("all", 3, 1), ("global", 5, 3), ("pairs", 3, 1), ("pairs", 4, 60)]),
}
BAR_LINES["P25"] = ([("global", 3, 1), ("global", 4, 1), ("endings", 5, 1), ("singles", 4, 1), ("all", 2, 1)],
                    [("global", 4, 1), ("global", 5, 3), ("endings", 6, 1), ("singles", 5, 2), ("all", 3, 4)])
TUNES = {"P09": "sections", "P10": "global", "P11": "any", "P25": "global"}


def tunes(models, prop):
    def run(c):
        c.assumptions += ["bar lines come in the order of their ticks, at most one at a tick"]
        for alphabet, bars, pickups in c.q(*models):
            scripts = c.model("RepeatMC", {"Alphabet": '"%s"' % alphabet, "MaxBars": bars, "Pickups": pickups}, REPEAT_INV,
                              emit="EmitScript", whole=True)
            c.conform("RepeatTrace", c.harness(c.share("tunescripts", scripts)), starts=None,
                      what="every tune of RepeatMC(%s, %d bar lines) rendered" % (alphabet, bars))
        for name, n, keep in c.q(*BAR_LINES[prop]):
            c.conform("RepeatTrace", c.harness(c.share("enum", name, n, keep, tail=[c.seed])), starts=None,
                      what="sequences of %d bar lines of %s, one in %d" % (n, name, keep))
        for k in range(c.q(1, 10)):
            c.conform("RepeatTrace", c.harness([[x[0], x[1] + 100 * k] + x[2:] for x in c.spread("tunes", c.q(8000, 40000), TUNES[prop])]),
                      starts=None, what="random tunes, " + TUNES[prop])
    return run


def positions(c):
    n, t = c.q((3, 3), (3, 4))
    scripts = c.model("PerformMC", {"MaxStretches": n, "MaxTick": t}, ["MomentsRight", "MergeHarmless", "BeginsRight"], emit="EmitScript", whole=True)
    c.conform("RepeatTrace", c.harness(c.share("mapscripts", scripts)), starts=None, what="every play order of PerformMC")
    for k in range(c.q(1, 10)):
        c.conform("RepeatTrace", c.harness(c.share("maps", c.q(4, 5) if k == 0 else 0, tail=[c.seed + k, c.q(6000, 30000)])), starts=None,
                  what="play orders between five ticks, random ones, and those of random tunes")


def mark_sets(c):
    scripts = c.model("MarksMC", {}, ["AlwaysCompatible", "AtMostOneEnding", "AnyOrder", "Symmetric", "FineAndCodaMix"], view="View", emit="EmitScript")
    c.conform("RepeatTrace", c.harness(c.share("markscripts", scripts)), starts=None, what="every transition of MarksMC executed on a mark set")
    c.conform("RepeatTrace", c.harness([["marksets"]]), starts=None, what="all compatible mark sets with all marks")



def value(models, runs, assume=()):
    """models: (module, constants, invariants, properties, view, emit, whole, command, tail), quick and thorough;
    runs: functions of the check and a round that give harness commands, with what they are"""
    def run(c):
        c.assumptions += assume
        for m in c.q(*models):
            scripts = c.model(m["module"], m["constants"], m.get("inv", ()), m.get("props", ()), view=m.get("view"),
                              emit="EmitScript" if "run" in m else None, whole=m.get("whole", False))
            if "run" in m:
                args, tail = m["run"][1:], m.get("tail", lambda c: ())(c)
                c.conform("ValueTrace", c.harness([[m["run"][0], scripts] + list(args) + [k, 8] + list(tail) for k in range(8)]), starts=None,
                          what="behaviours of %s(%s) executed on the code" % (m["module"], ", ".join("%s" % x for x in m["constants"].values())))
        for what, rounds, commands in runs:
            for k in range(c.q(1, rounds)):
                c.conform("ValueTrace", c.harness(commands(c, k)), starts=None, what=what)
    return run


def again(c, k, cmd, *args):
    """Eight other seeds in every round."""
    return [[x[0], x[1] + 100 * k] + x[2:] for x in c.spread(cmd, *args)]


def note_mc(focus, ops):
    inv = ["Valid", "TiesCycle", "HalfEach", "TripletsInTwo"] + (["UpAndDown", "DragIsSteps", "Cycles", "KeysNest"] if focus == "pitch" else [])
    return {"module": "NoteMC", "constants": {"Focus": '"%s"' % focus, "MaxOps": ops}, "inv": inv,
            "props": ["TrimExact", "MoveExact", "RefusedKeeps"], "view": "View", "run": ["notescripts"]}


def tuple_mc(choice, notes, place):
    return {"module": "TupleMC", "constants": {"MaxNotes": notes, "MaxPlace": place, "Choice": '"%s"' % choice}, "inv": ["NumberOk"],
            "props": ["MakeKeeps", "AgainSame", "EqualInTwo"], "whole": True, "run": ["tuplescripts"]}


def event_mc(kind, ops):
    return {"module": "EventMC", "constants": {"Kind": '"%s"' % kind, "MaxOps": ops}, "inv": ["Valid"], "props": ["OneStep", "StopsAtLimits"],
            "view": "View", "run": ["eventscripts", kind]}


def input_mc(kind, n):
    return {"module": "InputMC", "constants": {"Kind": '"%s"' % kind, "MaxLen": n},
            "inv": ["EmptyIsNone", "InRange", "Meaningful", "RoundTrip", "ZerosInFront", "PlusInFront", "Junk"], "view": "View", "run": ["inputscripts"]}


def paste_mc(items, pastes):
    return {"module": "PasteMC", "constants": {"MaxItems": items, "MaxPastes": pastes}, "inv": ["Lands", "Rigid", "LastCounts", "Back"], "whole": True,
            "run": ["pastescripts"]}


def stack_mc(ops, caps):
    return {"module": "StackMC", "constants": {"Caps": caps, "MaxOps": ops}, "inv": ["Bounded", "InOrder"],
            "props": ["LifoUndo", "RedoReturnsUndone", "FrozenKeeps", "NewestKept"], "view": "View", "run": ["stackscripts"]}


def grid_mc(grid, pos):
    return {"module": "GridMC", "constants": {"MaxGrid": grid, "MaxPos": pos}, "inv": ["OnLine", "SnapNearest", "NoneNearer", "Symmetric", "Stable"]}


def limits_mc(kind, ops):
    return {"module": "LimitsMC", "constants": {"Kind": '"%s"' % kind, "MaxOps": ops}, "inv": ["Within", "MakeAgain", "MakeWithin", "OneWay"],
            "props": ["RefusedKeeps"], "view": "View", "run": ["limitscripts", kind]}


CLIP_MC = {"module": "ClipMC", "constants": {}, "inv": ["Decided", "OkOnlyIfWhole", "EmptyOnlyIfBlank", "BlanksDoNotMatter"], "whole": True,
           "run": ["clipscripts"], "tail": lambda c: [c.seed]}
INPUTS = ["location", "i16", "tempo", "velocity", "numerator", "denominator", "percent"]
FAR = "ticks stay far enough below 2^32 for the result to be a tick"
DRAG = "a drag to before tick 0 or out of the MIDI range is not asked for: it has no way to refuse"
VALUES = {
    "P14": value(([tuple_mc(x, 3, 2) for x in ("plain", "dotted", "again", "extreme")],
                  [tuple_mc(x, 4, 3) for x in ("plain", "dotted", "again", "extreme")]),
                 [("random selections", 10, lambda c, k: again(c, k, "tuples", c.q(2500, 10000)))],
                 ["a tuplet whose starts fall together by rounding need not be the same when made again"]),
    "P15": value(([note_mc("pitch", 2)], [note_mc("pitch", 4)]),
                 [("every name, octave and accidental with every step, key and drag", 1, lambda c, k: [["pitches"]]),
                  ("random notes, random histories", 10, lambda c, k: again(c, k, "notes", c.q(2500, 10000), "pitch"))], [DRAG]),
    "P16": value(([note_mc("time", 2)], [note_mc("time", 3)]),
                 [("random trims over their whole ranges", 10, lambda c, k: again(c, k, "trims", c.q(2500, 10000))),
                  ("random notes, random histories", 10, lambda c, k: again(c, k, "notes", c.q(2500, 10000), "time"))], [DRAG, FAR]),
    "P17": value(([CLIP_MC], [CLIP_MC]),
                 [("random items and projects, written and read", 10, lambda c, k: again(c, k, "clips", c.q(250, 1000))),
                  ("every beginning of a text, and texts with random changes", 10, lambda c, k: again(c, k, "clipdamage", c.q(16, 60)))]),
    "P18": value(([paste_mc(2, 2)], [paste_mc(3, 2)]),
                 [("random selections, random ticks", 10, lambda c, k: again(c, k, "pastes", c.q(2500, 10000)))], [FAR]),
    "P19": value(([stack_mc(7, "{0, 1, 2, 3}")], [stack_mc(9, "{0, 1, 2, 3, 4}")]),
                 [("random histories", 10, lambda c, k: again(c, k, "stacks", c.q(400, 1500)))]),
    "P20": value(([grid_mc(12, 40)], [grid_mc(40, 200)]),
                 [("every small grid and tick", 1, lambda c, k: c.share("grid", c.q(500, 2000), c.q(600, 3000))),
                  ("grids and ticks of any size, and texts", 10, lambda c, k: again(c, k, "grids", c.q(2500, 10000)))]),
    "P21": value(([input_mc(x, 4) for x in INPUTS], [input_mc(x, 5) for x in INPUTS]),
                 [("random texts, random typing", 10, lambda c, k: again(c, k, "texts", c.q(4000, 15000))),
                  ("the text form of every value", 1, lambda c, k: [["forms", p, 8, c.seed] for p in range(8)])]),
    "P22": value(([event_mc(x, 3) for x in ("tempo", "bar", "pedal")] + [note_mc("shape", 3)],
                  [event_mc(x, 5) for x in ("tempo", "bar", "pedal")] + [note_mc("shape", 5)]),
                 [("random events, random histories", 10, lambda c, k: again(c, k, "events", c.q(1200, 5000))),
                  ("random notes, random histories", 10, lambda c, k: again(c, k, "notes", c.q(2500, 10000), "shape"))], [DRAG, FAR]),
    "P26": value(([limits_mc(x, 3) for x in ("iter", "ending", "octave", "name")], [limits_mc(x, 5) for x in ("iter", "ending", "octave", "name")]),
                 [("every number made a limited value, and read from a text", 1, lambda c, k: [["limits", c.seed]])],
                 ["a pitch name is not moved beyond its octave, an octave only where it can panic"]),
    "P23": value(([note_mc("shape", 2)], [note_mc("shape", 4)]),
                 [("all durations and rhythms", 1, lambda c, k: [["durations", p, 8] for p in range(8)]),
                  ("random notes, random histories", 10, lambda c, k: again(c, k, "notes", c.q(1000, 10000), "shape"))]),
}

PLANS = {
    "P01": project(([("history", 6, 2), ("settings", 4, 2), ("refill", 6, 9), ("moves", 4, 9)], [("history", 8, 3), ("settings", 5, 2), ("refill", 7, 9), ("moves", 5, 9), ("edits", 4, 9)]), "undo", 120, 400),
    "P02": project(([("history", 6, 2), ("settings", 4, 2), ("refill", 6, 9), ("moves", 4, 9)], [("history", 8, 3), ("settings", 5, 2), ("refill", 7, 9), ("moves", 5, 9), ("edits", 4, 9)]), "redo", 120, 400),
    "P03": project(([("history", 6, 2), ("settings", 4, 9), ("refill", 6, 9), ("moves", 3, 9)], [("history", 7, 3), ("settings", 5, 9), ("refill", 7, 9), ("moves", 5, 9), ("edits", 3, 9)]), "reopen", 80, 300),
    "P04": project(([("edits", 3, 9), ("settings", 3, 9), ("moves", 3, 9)], [("edits", 4, 9), ("settings", 5, 9), ("moves", 5, 9)]), "edit", 120, 400),
    "P05": project(([("bars", 3, 9)], [("bars", 3, 9), ("edits", 4, 9)]), "bars", 200, 500),
    "P06": project(([("bars", 2, 9)], [("bars", 3, 9)]), "inforce", 80, 250, 400),
    "P07": project(([("bars", 2, 9)], [("bars", 3, 9)]), "location", 80, 250, 400),
    "P08": project(([("edits", 3, 9), ("refill", 6, 9), ("moves", 3, 9)], [("edits", 4, 9), ("refill", 7, 9), ("moves", 4, 9)]), "events", 100, 350, 60),
    "P09": tunes(([("sections", 5, "{240, 960}")], [("sections", 7, "{960}"), ("endings", 7, "{240, 960}")]), "P09"),
    "P10": tunes(([("global", 4, "{0, 240, 960}"), ("mixed", 4, "{0, 240}")], [("global", 5, "{0, 240, 960}"), ("mixed", 5, "{0, 240}")]), "P10"),
    "P11": tunes(([("global", 3, "{0, 240, 960}"), ("endings", 5, "{240, 960}")], [("global", 4, "{0, 240, 960}"), ("sections", 6, "{960}")]), "P11"),
    "P12": positions,
    "P25": tunes(([("global", 3, "{0, 240, 960}")], [("global", 4, "{0, 240, 960}"), ("mixed", 4, "{0, 240}")]), "P25"),
    "P13": mark_sets,
    **VALUES,
}

KIND = {}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08"):
    KIND[_p] = "project"
for _p in ("P09", "P10", "P11", "P12", "P13", "P25"):
    KIND[_p] = "repeat"
for _p in VALUES:
    KIND[_p] = "value"
