"""Writes MANIFEST.json (kept as a script so that the list stays in step with sim/props)."""
import json
N = {
 "C01": "trajectory rows compared with the walker history spied at the dynamics",
 "C02": "every bin of every histogram output compared with a model fed with the spied history",
 "C03": "surfaces compared with the modelled histogram at the update step",
 "C04": "rows compared with state probabilities on the modelled (or, for lossy formats, the written) surface",
 "C05": "rows compared with a recount of the spied history",
 "C06": "per-walker one-step refinement against an independent integrator fed with the recorded deviates; tolerance 1e-9 relative",
 "C07": "per-step confinement and correction against an independent boundary model, bent deviates up to 25 sigma",
 "C08": "per-pass refinement against an independent birth-death implementation fed with clones of the generator; decisions within rounding of a threshold are skipped and counted",
 "C09": "statistics rows compared with the tally of the same reference implementation",
 "C10": "byte comparison of outputs between worlds that differ in everything but the seeds; independence judged where chance equality is below 1e-5",
 "C11": "bitwise comparison of walker histories with and without observers",
 "C12": "byte-prefix and completed-write lower bound after kills at sampled seam events; loss model: process death (user-space buffers lost, the write in progress torn), no power loss",
 "C13": "outputs of runs with injected storage and stdout faults compared with the undisturbed run; rerun after faults stop",
 "C14": "contents of all files before every process searched for afterwards, over sequences of completed, killed and failing runs",
 "C15": "outputs and history alone vs. after and in between other simulations in the same interpreter",
 "C16": "walkers at the entry of the first step; exact checks plus statistical tests below 1e-9 for uniformity",
 "C17": "valid inputs over all documented options run to completion with every requested file present",
 "C18": "inputs with one definite defect, and unreadable files by injected faults, must be rejected before the first step",
 "C22": "curves and images of figure objects at the moment they are saved compared with the modelled histogram (image encoding by a stub, in 4 % of the cases the real one)",
 "C24": "walker histories bit by bit and output files byte by byte between runs that differ only in the number of steps",
 "C25": "state of all walkers compared around every call the simulator makes between steps, every step refined against the reference integrator with each walker's own mass",
 "C26": "memory, open files, figures and threads measured at equal phases of all intervals over three windows; growth below 20 bytes per step plus 3.5 kB per window (150 kB more with plots) is not seen",
 "C27": "walker histories, random numbers and output files of runs with and without birth-death; a walker counts as replaced from the first pass that changes it, which has to make it a copy of another one",
 "C28": "output files and walker histories of inputs and 23 kinds of rewritten versions of them",
 "C23": "header and rows of every file parsed and compared with the input, undisturbed and after kills at sampled seam events",
}
WHAT = {
 "C01": "exactly-once history check", "C02": "conservation against a reference model", "C03": "refinement against a reference model",
 "C04": "exactly-once history check against a reference model", "C05": "exactly-once history check", "C06": "refinement against a reference integrator under bent randomness",
 "C07": "invariant under bent randomness", "C08": "refinement against a reference implementation under bent randomness", "C09": "conservation against a reference tally",
 "C10": "differential worlds (entropy, clock, hash seed, files)", "C11": "differential runs", "C12": "crash and interrupt injection with prefix durability check",
 "C13": "storage fault injection with honesty and recovery check", "C14": "crash and fault sequences with durability check of existing data",
 "C15": "interleaved simulations, differential", "C16": "invariants on the initial state under bent randomness", "C17": "progress to completion within the configured steps",
 "C18": "read fault injection and damaged inputs",
 "C22": "refinement against a reference model at the seam where figures are saved", "C23": "crash injection and format check over all outputs",
 "C24": "differential histories of different length", "C25": "injected changes of the population between steps, refinement against a reference model",
 "C26": "bounded growth of resources over simulated long runs",
 "C27": "differential histories with and without birth-death under bent randomness", "C28": "differential runs of equivalent inputs",
}
ids = sorted(N)
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
   "technique": "deterministic simulation with fault injection, seeded search: " + WHAT[i],
   "level": "exploration",
   "level_note": "Seeded sampling, no proof: " + N[i] + ". Runs the real bdld from /repo's working tree (bdld.helpers, an empty submodule, from the release wheel in /repo/dist); "
                 "randomness, raw file I/O, renames, standard streams, clock and process death are simulated.",
 } for i in ids],
 "not_applicable": [
  {"property": "C19", "reason": "Pure function of coefficients and position: no schedule, time, I/O, randomness or history is involved, so there is nothing for a simulator to control; only input "
                                "sampling would be left, which is another technique. (The force actually used in every simulated step is compared with an independent gradient in C06.)"},
  {"property": "C20", "reason": "Pure array arithmetic without schedule, time, I/O, randomness or history; simulation adds nothing to calling the functions on sampled inputs. "
                                "(The grid operations a run depends on are exercised through C02, C03, C04 and C08.)"},
  {"property": "C21", "reason": "Pure conversion of text to values without schedule, time, randomness or history; the I/O part (unreadable or failing files) is claimed as C18. "
                                "(Every generated input relies on the conversion, through the independent reading of the options in all other checks; that complete runs do not depend on how an input is written is claimed as C28.)"},
 ],
 "notes": "One seed (VERIF_SEED) determines every case; replay a violation with: /opt/venv/bin/python -m sim <ID> --replay <file> (in /verif). No hooks were added to /repo: all seams are the "
          "Python-level interfaces numpy.random, open/io.open, os.rename & co., sys.std*, time, and the run methods of the dynamics. known_findings.txt lists the repaired defects.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
