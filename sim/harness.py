"""Run simulated bdld processes and record what happened to them."""
import inspect
import logging
import os
import shutil
import signal
import sys
import tempfile
import warnings

import matplotlib
import numpy as np

from . import boot, world as W

warnings.simplefilter("ignore")
np.seterr(all="ignore")

SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None


class Scratch:
    """A scratch directory that is always removed."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="bdldsim.", dir=SCRATCH)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        return False


class Snap:
    """State of all walkers at one instant (copies)."""

    __slots__ = ("pos", "mom", "ene", "frc", "mass", "n")

    def __init__(self, particles):
        self.n = len(particles)
        self.pos = np.array([np.array(p.pos, dtype=float) for p in particles])
        self.mom = np.array([np.array(p.mom, dtype=float) for p in particles])
        self.ene = np.array([float(p.energy) for p in particles])
        self.frc = np.array([np.array(p.forces, dtype=float) for p in particles])
        self.mass = np.array([float(p.mass) for p in particles])


class Tally:
    """Stands in for a list of which only the length matters."""

    n = 0

    def append(self, x):
        self.n += 1

    def __len__(self):
        return self.n


class Probe:
    """Records walker states at the entry and exit of every dynamics step."""

    def __init__(self, world):
        self.w = world
        self.ld = None
        self.pre = []   # state at entry of step k (k = 1, 2, ...) == end of step k-1
        self.post = []  # state at exit of step k, before birth-death
        self.normals = []  # deviates drawn inside step k
        self.gens = []  # per step: clones of all generators at exit of step k
        self.want_gens = False
        self.used = []  # per step: indices of the generators that moved between exit of step k and the next entry
        self.alias = None
        self.actions = {}  # captured action objects by class name
        self.manual = {}  # step -> list of action class names whose write() is called after that step
        self.manual_done = 0
        self.on_enter = None
        self.inside = None  # dynamics whose step is running
        self.light = False  # keep nothing per step (for checks of resources)

    def enter(self, ld):
        if self.ld is None:
            self.ld = ld
        if ld is not self.ld:
            return False
        k = len(self.pre)
        for name in self.manual.get(k, ()):
            a = self.actions.get(name)
            # (a series without a stride has nothing stored before the end: a write in between is not a meaningful call)
            if a is not None and k > 0 and getattr(a, "stride", 1):
                a.write(k)
                self.manual_done += 1
        self.mark_used()
        if self.light:
            self.w.normals = []
        if self.on_enter is not None:
            self.on_enter(k + 1)
        self.pre.append(None if self.light else Snap(ld.particles))
        self.w.stage = len(self.pre)
        self.w.normals = []
        return True

    def mark_used(self):
        if self.want_gens and len(self.used) < len(self.gens):
            now = self.w.generators
            old = self.gens[-1]
            self.used.append([i for i in range(len(old)) if i < len(now) and old[i].bit_generator.state != now[i].bit_generator.state])

    def exit(self, ld):
        if self.light:
            self.post.append(None)
            self.w.normals = []
            return
        self.post.append(Snap(ld.particles))
        self.normals.append(self.w.normals)
        if self.want_gens:
            self.gens.append([g.clone() for g in self.w.generators])
        if self.alias is None and len(ld.particles) > 1:
            ids = {}
            for i, p in enumerate(ld.particles):
                for a in ("pos", "mom", "forces"):
                    arr = getattr(p, a, None)
                    if isinstance(arr, np.ndarray) and arr.size:
                        key = arr.__array_interface__["data"][0]
                        if key in ids and ids[key][0] != i:
                            self.alias = (len(self.post), ids[key][0], i, a)
                        ids[key] = (i, a)

    def states(self):
        """States at the end of steps 0..n (n = completed steps)."""
        self.mark_used()
        out = list(self.pre)
        if self.ld is not None and len(self.post) == len(self.pre):
            out.append(Snap(self.ld.particles))
        return out


def attach(main, probe):
    """Wrap the run method of the two dynamics classes of this module instance."""
    mods = sys.modules
    for modname, cls in (
        ("bdld.actions.bussi_parinello_ld", "BussiParinelloLD"),
        ("bdld.actions.overdamped_ld", "OverdampedLD"),
    ):
        c = getattr(mods[modname], cls)
        orig = c.run

        def run(self, *a, _orig=orig, **k):
            probe = probe_holder[0]
            if probe is None or probe.inside is self:  # (one class may use the step of the other)
                return _orig(self, *a, **k)
            mine = probe.enter(self)
            outer, probe.inside = probe.inside, self
            try:
                r = _orig(self, *a, **k)
            finally:
                probe.inside = outer
            if mine:
                probe.exit(self)
            return r

        c.run = run
    for modname, cls in (
        ("bdld.actions.trajectory_action", "TrajectoryAction"),
        ("bdld.actions.delta_f_action", "DeltaFAction"),
        ("bdld.actions.particle_distribution", "ParticleDistributionAction"),
    ):
        c = getattr(mods.get(modname), cls, None)
        if c is None:
            continue
        oinit = c.__init__

        def init(self, *a, _orig=oinit, _name=cls, **k):
            _orig(self, *a, **k)
            if probe_holder[0] is not None:
                probe_holder[0].actions[_name] = self

        c.__init__ = init


probe_holder = [None]


class Result:
    pass


def write_files(root, files):
    for name, content in files.items():
        p = os.path.join(root, name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode())


def read_dir(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


CPU_LIMIT = 120  # seconds of CPU time one simulated process may take (normal: well below 1 s)


class cpu_limit:
    """Turns an endless loop without any seam event into a StepLimit."""

    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        def boom(*a):
            raise W.StepLimit(f"simulated process used more than {self.sec} s of CPU")

        self.old = W._real_signal["signal"](signal.SIGPROF, boom)
        signal.setitimer(signal.ITIMER_PROF, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        W._real_signal["signal"](signal.SIGPROF, self.old)
        return False


class Settings:
    """Settings of the interpreter and its libraries that belong to one (simulated) process."""

    def __init__(self):
        self.err = np.geterr()
        self.show = np.get_printoptions()
        self.warn = list(warnings.filters)
        self.env = dict(os.environ)
        self.rc = dict(matplotlib.rcParams)
        self.limit = sys.getrecursionlimit()
        self.level = logging.getLogger().level
        self.disabled = logging.root.manager.disable

    def apply(self):
        np.seterr(**self.err)
        np.set_printoptions(**self.show)
        warnings.filters[:] = self.warn
        getattr(warnings, "_filters_mutated", lambda: None)()
        if dict(os.environ) != self.env:
            os.environ.clear()
            os.environ.update(self.env)
        dict.update(matplotlib.rcParams, self.rc)
        sys.setrecursionlimit(self.limit)
        logging.getLogger().setLevel(self.level)
        logging.disable(self.disabled)


class process_settings:
    """The settings as the process left them when it ran last (or those of a new one); afterwards those of the simulator."""

    def __init__(self, main, mine):
        self.main, self.mine = main, mine

    def __enter__(self):
        old = getattr(self.main, "_sim_settings", None)
        if old is not None:
            old.apply()

    def __exit__(self, *a):
        self.main._sim_settings = Settings()
        self.mine.apply()
        return False


def run_process(w, main=None, argv=None, faults=None, want_gens=False, prep=None, manual=None, on_enter=None, script=None, light=False, cpu=0):
    """Run `python -m bdld input` as one simulated process in world w.

    :param main: bdld.main module instance to use (None: fresh process image)
    """
    W.install_seams()
    w.begin_process(faults)
    r = Result()
    mine = Settings()
    if main is None:
        main = boot.fresh()
        attach(main, None)
    r.main = main
    probe = Probe(w)
    probe.want_gens = want_gens
    if light:
        probe.light, probe.pre, probe.post = True, Tally(), Tally()
    if on_enter is not None:
        probe.on_enter = lambda step: on_enter(main, step)
    for k, name in manual or ():
        probe.manual.setdefault(int(k), []).append(name)
    probe_holder[0] = probe
    old_argv = sys.argv
    r.exc = None
    try:
        with w, cpu_limit(CPU_LIMIT + cpu), process_settings(main, mine):
            sys.argv = argv or ["bdld", "input"]
            if prep:
                prep(main)
            try:
                boot.entry(main, script or "bdld/__main__.py")
                r.status, r.code = "ok", 0
            except SystemExit as e:
                c = e.code
                r.code = 0 if c is None else (c if isinstance(c, int) else 1)
                r.status = "exit"
            except W.SimCrash:
                r.status, r.code = "crash", 137
            except W.StepLimit as e:
                r.status, r.code, r.exc = "steplimit", 124, repr(e)
            except KeyboardInterrupt:
                r.status, r.code = "sigint", 130
            except Exception as e:
                r.status, r.code, r.exc = "exception", 1, f"{type(e).__name__}: {e}"
                tb = e.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                r.exc += f" (in {os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_frame.f_code.co_name})"
            if r.status not in ("crash", "steplimit"):
                try:
                    w.end_process()
                except W.SimCrash:
                    r.status, r.code = "crash", 137
                except W.StepLimit as e:
                    r.status, r.code, r.exc = "steplimit", 124, repr(e)
                except (SystemExit, KeyboardInterrupt):
                    pass
    finally:
        sys.argv = old_argv
        probe_holder[0] = None
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass
    r.world = w
    r.probe = probe
    r.stdout = w.stdout.getvalue()
    r.events, r.io_events, r.fired, r.fired_at = w.events, w.io_events, w.fired, w.fired_at
    r.trace_hash = w.trace_hash
    r.stdin_reads = w.stdin_reads
    r.success_msg = "Finished without errors" in r.stdout
    r.steps = len(probe.post)
    return r


def extra_cpu(case):
    try:
        return int(case["cfg"]["ld"]["n_steps"]) // 100
    except (KeyError, ValueError, TypeError):
        return 0


def slow_density(main):
    """Buggify: take the code path for very many walkers also for few of them."""
    m = sys.modules.get("bdld.actions.birth_death")
    few, many = getattr(m, "_walker_density_pdist", None), getattr(m, "_walker_density_manual", None)
    try:
        if few and many and str(inspect.signature(few)) == str(inspect.signature(many)):
            m._walker_density_pdist = many
    except (TypeError, ValueError):
        pass


def simulate(case, plan=None, faults=None, want_gens=False, extra_files=None, main=None, prep=None, on_enter=None,
             argv=None, light=False):
    """Run one case (input + world plan) in a scratch directory of its own."""
    from . import gen

    with Scratch() as d:
        files = dict(case.get("files") or {})
        files["input"] = gen.render(case)
        files.update(extra_files or {})
        write_files(d, files)
        w = W.World(d, plan if plan is not None else case["plan"])
        if prep is None and case.get("slow_density"):
            prep = slow_density
        r = run_process(w, main=main, faults=faults, want_gens=want_gens, manual=case.get("manual"), prep=prep, on_enter=on_enter,
                        argv=argv, light=light, cpu=extra_cpu(case))
        r.files = read_dir(d)
        r.before = {k: (v if isinstance(v, bytes) else v.encode()) for k, v in files.items()}
    return r
