"""Core of the deterministic simulator: scenarios, verdicts, minimiser.

A *scenario* is plain JSON: {"world", "cfg", "steps": [...]} in which every operation, fault, interleaving decision
and generated input is written down explicitly.  Scenarios are produced from one integer (VERIF_SEED) by a PRNG;
executing a scenario draws nothing from any PRNG or clock, so (scenario, code) -> event log is a pure function and the
scenario file is the replay file.
"""
import copy
import hashlib
import json
import random
import signal
import time as _real_time
import traceback
from collections import Counter


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself misbehaved: never reported as a violation."""


class Foreign(Exception):
    """Another property than the one being decided is violated: this run ends without a verdict."""


class SimCrash(BaseException):
    """Simulated process death.  BaseException so that 'except Exception' in the system under test cannot survive it."""


class Runaway(BaseException):
    """The system under test does not stop asking: a liveness violation."""


CPU_LIMIT = 60.0     # processor seconds one simulated run may take; ordinary runs take well under a tenth of it


class OutOfTime(Runaway):
    """... or does not stop computing"""


class cpu_limited:
    """Ends code that never returns: Runaway is raised in it once it has used CPU_LIMIT seconds of processor time (not
    wall clock time, so a loaded machine changes nothing), and again every 5 s in case a callback swallowed it."""

    def __enter__(self):
        self.before = signal.signal(signal.SIGPROF, self.out)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 5.0)

    def out(self, *_):
        raise OutOfTime('one simulated run used more than %d s of processor time' % CPU_LIMIT)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.before or signal.SIG_DFL)


class Ctx:
    """Per-run recorder: event log (the thing that must replay exactly), fault counters, probes, simulated time."""

    def __init__(self):
        self.log = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.sim_time = 0.0
        self.evaluations = 0
        self.own = None        # violation classes of the property being decided (None: all)

    def ev(self, *parts):
        self.log.append(' '.join(str(p) for p in parts))

    def fault(self, kind):
        self.faults[kind] += 1
        self.log.append('FAULT ' + kind)

    def probe(self, name):
        self.probes[name] += 1

    def state(self, *parts):
        h = hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
        self.states.add(h)

    def check(self, ok, cls, msg):
        self.evaluations += 1
        if not ok:
            if self.own is not None and cls not in self.own:
                self.ev('FOREIGN', cls)
                self.probe('violation-of-another-property')
                raise Foreign(cls)
            raise Violation(cls, msg)

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:24]


def rng_for(seed, prop, index):
    return random.Random('nempy-sim:%s:%s:%s' % (seed, prop, index))


def run_scenario(world, scenario, prop):
    """Execute one scenario.  Returns (violation or None, ctx).

    Every world keeps the system under test behind calls whose exceptions it judges itself, so an exception that
    escapes here comes either from reading malformed results (judged as a violation: the system returned something no
    conforming implementation returns) or from the harness (HarnessError: an error of the check)."""
    ctx = Ctx()
    scenario = copy.deepcopy(scenario)
    ctx.own = getattr(world, 'own', {}).get(prop)
    from . import seams
    seams.new_process()
    try:
        with cpu_limited():
            world.execute(scenario, prop, ctx)
    except Foreign:
        return None, ctx
    except Violation as v:
        ctx.ev('VIOLATION', v.cls)
        return v, ctx
    except HarnessError:
        raise
    except Runaway as e:
        if isinstance(e, OutOfTime):     # where exactly the limit struck is not part of the history
            ctx.log = []
        ctx.ev('VIOLATION', 'runaway')
        return Violation('runaway', str(e)), ctx
    except SimCrash:
        raise HarnessError('simulated crash escaped the world')
    except Exception as e:  # malformed result reached the oracle
        tb = traceback.format_exc()
        ctx.ev('VIOLATION', 'malformed-result')
        return Violation('malformed-result', 'the oracle could not read the result: %s: %s\n%s'
                         % (type(e).__name__, e, tb[-1500:])), ctx
    return None, ctx


def minimise(world, scenario, prop, cls, budget_s=60.0):
    """Shrink steps, faults and world-specific knobs while the same violation class persists."""
    t0 = _real_time.monotonic()
    best = copy.deepcopy(scenario)
    tried = 0

    def fails(s):
        nonlocal tried
        tried += 1
        try:
            v, _ = run_scenario(world, s, prop)
        except HarnessError:
            return False
        except Exception:
            return False
        return v is not None and v.cls == cls

    def out_of_time():
        return _real_time.monotonic() - t0 > budget_s

    improved = True
    while improved and not out_of_time():
        improved = False
        # drop chunks of steps
        n = len(best['steps'])
        size = max(1, n // 2)
        while size >= 1 and not out_of_time():
            i = 0
            while i < len(best['steps']) and not out_of_time():
                cand = copy.deepcopy(best)
                del cand['steps'][i:i + size]
                if cand['steps'] and fails(cand):
                    best = cand
                    improved = True
                else:
                    i += size
            size //= 2
        # drop faults
        for si in range(len(best['steps'])):
            fi = 0
            while fi < len(best['steps'][si].get('faults', [])) and not out_of_time():
                cand = copy.deepcopy(best)
                del cand['steps'][si]['faults'][fi]
                if fails(cand):
                    best = cand
                    improved = True
                else:
                    fi += 1
        # world specific simplifications
        for cand in world.simplify(best):
            if out_of_time():
                break
            if fails(cand):
                best = cand
                improved = True
                break
    return best, tried


class World:
    name = '?'
    real = []      # components that run real code
    stub = []      # components replaced by the simulator
    rule = ''

    def generate(self, rng, prop, tier):
        raise NotImplementedError

    def execute(self, scenario, prop, ctx):
        raise NotImplementedError

    def simplify(self, scenario):
        return []
