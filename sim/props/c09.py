"""C09 Birth-death statistics account for every attempt and event."""
import re

from .. import gen, harness, model
from ..engine import Violation, completed
from ..outputs import table, text
from ..spec import Spec
from . import c08

RUNS = {"quick": 6000, "thorough": 90000}
RULE = ("Random inputs with birth-death statistics to file or screen, with and without a statistics stride, all birth-death variants, bent deviates. Every "
        "statistics row is compared with the cumulative tally of an independent implementation fed with clones of the generator; passes within rounding "
        "are bounded and the tally is re-synchronised at the next row. Non-trivial: at least one row with a non-zero event count was compared exactly.")
MUST_REACH = ["reach:to-file", "reach:to-screen", "reach:final-only", "reach:periodic", "reach:birth-counted", "reach:death-counted", "reach:recalc",
              "reach:bulk"]


def make(r, i, tier):
    c = c08.make(r, i, "quick", two=False)
    s = c["cfg"]["birth-death"]
    n = int(c["cfg"]["ld"]["n_steps"])
    s.pop("stats-stride", None)
    s.pop("stats-filename", None)
    if r.random() < 0.75:
        s["stats-stride"] = str(r.choice([1, 2, 3, 5, gen.stride(r, n)]))
    if r.random() < 0.65:
        s["stats-filename"] = "stats"
    return c


BLOCK = re.compile(r"After (\d+) time steps:\s*\n\s*Birth events: (\d+)/(\d+)[^\n]*\n\s*Death events: (\d+)/(\d+)")


def check(case, o):
    spec = Spec(case["cfg"], case["files"])
    r = harness.simulate(case, want_gens=True)
    o.saw(r, spec)
    completed(r)
    b = spec.bd
    steps = model.due(b.stats_stride, spec.n_steps) if b.stats_stride else [spec.n_steps]
    if b.stats_filename:
        _, rows = table(text(r, b.stats_filename), b.stats_filename, 5)
        o.reach("to-file")
        if "Birth events" in r.stdout:
            raise Violation("screen", "statistics are printed although a statistics file is set")
    else:
        rows = [[float(x) for x in m] for m in BLOCK.findall(r.stdout)]
        o.reach("to-screen")
    got = [int(x[0]) for x in rows]
    if got != steps:
        raise Violation("rows", f"statistics at steps {got[:20]}, due at {steps[:20]} (statistics stride {b.stats_stride}, {spec.n_steps} steps)")
    o.reach("periodic" if b.stats_stride else "final-only")
    corr = model.Correction(spec) if b.variant != "original" and spec.n > 1 else None
    t = model.Tally()
    passes = 0
    unclear = False
    state_ok = True
    nxt = 0
    prev = [0, 0, 0, 0]
    # walk the history, compare whenever a row is due
    st = r.probe.states()
    for k in range(1, spec.n_steps + 1):
        if k % b.stride == 0 and spec.n > 1:
            passes += 1
            used = r.probe.used[k - 1] if k - 1 < len(r.probe.used) else []
            if len(used) != 1:
                state_ok = False  # not this property's business
            elif not unclear:
                before, after = c08.arrays(r.probe.post[k - 1]), c08.arrays(st[k])
                keep = t.row()
                try:
                    want, ev = model.bd_pass(spec, before, r.probe.gens[k - 1][used[0]], t, corr)
                    if not c08.same(want, after):
                        state_ok = False
                except model.Unclear:
                    t.birth, t.birth_try, t.death, t.death_try = keep
                    unclear = True
        if nxt < len(steps) and steps[nxt] == k:
            row = [int(v) for v in rows[nxt][1:]]
            nxt += 1
            if any(x < y for x, y in zip(row, prev)):
                raise Violation("decreasing", f"step {k}: statistics {row} are below the earlier {prev}")
            if row[0] > row[1] or row[2] > row[3]:
                raise Violation("more-events-than-attempts", f"step {k}: statistics {row} (birth events, attempts, death events, attempts)")
            if row[1] + row[3] > passes * spec.n:
                raise Violation("attempts", f"step {k}: {row[1] + row[3]} attempts in {passes} passes with {spec.n} walkers")
            if not state_ok:
                return
            if not unclear:
                if row != t.row():
                    raise Violation("counts", f"step {k}: statistics {row} (birth events, attempts, death events, attempts), it was {t.row()}")
                if row[0]:
                    o.reach("birth-counted")
                if row[2]:
                    o.reach("death-counted")
                if row[0] + row[2]:
                    o.nontrivial = True
                o.reach("rows-exact")
            else:
                o.reach("rows-resynchronised")
                t.birth, t.birth_try, t.death, t.death_try = row
                unclear = False
            prev = row
    o.reach("recalc" if b.recalc else "bulk")
