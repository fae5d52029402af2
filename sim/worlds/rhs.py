"""Right hand side calculators over simulated case files, against a small reference evaluator."""
import os

from .. import seams, casefile
from ..core import World, HarnessError, Violation, Foreign


class RHSWorld(World):
    name = 'rhs'
    real = ['nempy.historical_inputs.rhs_calculator.RHSCalc', 'nempy.historical_inputs.xml_cache.XMLCacheManager']
    stub = ['case files (generated, already in the cache)', 'network (refused)']
    rule = ('one evaluation = one seeded history of interval selections, calculator creations, updates (valid and rejected), '
            'computations and dependency queries over interleaved calculators; distinct non-trivial = distinct event logs')
    state_measure = 'hash of the values held by all calculators after each step'
    own = {'P21': {'wrong-rhs', 'compute-failed', 'wrong-nemde-rhs', 'update-accepted', 'update-refused', 'recorded-changed'},
           'P22': {'wrong-dependents', 'query-failed'}}

    def generate(self, rng, prop, tier):
        day = rng.choice(['20240710', '20240229', '20231231'])
        cfg = {'salt': rng.randint(0, 400), 'day': day, 'numbers': rng.sample(range(1, 289), rng.randint(1, 3))}
        steps = [{'op': 'select', 'm': 0, 'n': 0}, {'op': 'new', 'c': 0, 'm': 0}]
        n = rng.randint(4, 16)
        for _ in range(n):
            r = rng.random()
            if r < 0.1:
                steps.append({'op': 'select', 'm': rng.randint(0, 1), 'n': rng.randint(0, 2), 'lost': rng.random() < 0.3})
            elif r < 0.25:
                steps.append({'op': 'new', 'c': rng.randint(0, 2), 'm': rng.randint(0, 1)})
            elif r < 0.5:
                steps.append({'op': 'update', 'c': rng.randint(0, 2), 'pick': rng.randint(0, 999),
                              'value': rng.choice([0.0, 1.0, -1.0]) if rng.random() < 0.25 else rng.randint(-400, 400) / 4.0,
                              'as_str': rng.random() < 0.7, 'bad': rng.random() < 0.15})
            elif r < (0.85 if prop == 'P21' else 0.65):
                steps.append({'op': 'compute', 'c': rng.randint(0, 2), 'pick': rng.randint(0, 999), 'many': rng.random() < 0.3,
                              'all': rng.random() < 0.3, 'unknown': rng.random() < 0.07})
            else:
                steps.append({'op': 'depends', 'c': rng.randint(0, 2), 'pick': rng.randint(0, 999), 'spoil': rng.random() < 0.3})
        steps.append({'op': 'final'})
        for s in steps:
            s['faults'] = []
        return {'world': 'rhs', 'cfg': cfg, 'steps': steps}

    def nontrivial(self, ctx):
        return bool(ctx.probes)

    def execute(self, s, prop, ctx):
        r = Run(s, prop, ctx)
        try:
            r.go()
        finally:
            r.cleanup()


class Undefined(Exception):
    """the formula divides by zero, takes the root of a negative number or leaves the range judged"""


class Model:
    """reference calculator"""
    size = 1.0

    def __init__(self, case):
        self.case = case
        self.val = {}
        for ty, vals in case.scada.items():
            for i, vs in vals.items():
                self.val[(i, ty)] = [v for v, _ in vs]
        for i, v in case.entered.items():
            self.val[(i, 'E')] = [v]
        mw = 'WhatIfInitialMW' if case.intervention else 'InitialMW'
        for t in case.traders:
            self.val[(t['id'], 'T')] = [t['ic'][mw]]
        for x in case.inters:
            if x['mnsp']:
                self.val[(x['id'], 'M')] = [dict(x['offers'])[x['from']]]
                self.val[(x['id'], 'N')] = [dict(x['offers'])[x['to']]]
        self.eq = {c['id']: c['terms'] for c in case.constraints if c['terms']}

    def updatable(self, key):
        return key in self.val and key[1] != 'R' and (key[1] not in 'ASIW' or len(self.val[key]) == 1)

    def update(self, key, v):
        self.val[key] = [v]

    def term(self, t):
        """the value of a term, None where nothing is recorded for it"""
        if t['ty'] == 'X':
            return self.calc(self.case.generic[t['id']])
        v = self.val.get((t['id'], t['ty']))
        return None if v is None else sum(v)

    def calc(self, terms, group=None):
        """the value of the terms (of one group) by the market operator's rules for reverse polish notation; raises Undefined"""
        s = [0.0]
        popped = False
        for t in terms:
            if t['group'] != group:
                continue
            m, op, ty = float(t['mult']), t['op'], t['ty']
            # grouped terms have a stack of their own and stand for the value of the term of type G their group names
            v = self.calc(terms, t['gid']) if ty == 'G' else None
            if ty == 'U':
                if op in ('ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN'):
                    a = s.pop(0)
                    s[0] = self.two(op, s[0], a) * m
                elif op == 'DUP':
                    s.insert(0, s[0] * m)
                elif op == 'EXCH' or (op == 'EXLEZ' and popped):
                    s[0], s[1] = s[1] * m, s[0]
                    popped = False
                elif op == 'RSD':
                    s.insert(0, s.pop() * m)
                elif op == 'RSU':
                    s.append(s.pop(0))
                    s[0] *= m
                elif op == 'POP':
                    popped = s.pop(0) <= 0.0
                elif op == 'STEP':
                    s[0] = m if s[0] > 0.0 else 0.0
                elif op != 'EXLEZ':
                    s[0] = self.one(op, s[0]) * m
            else:
                c = ty == 'C'
                if not c and ty != 'G':
                    v = self.term(t)
                    if v is None:
                        v = float(t['default'])
                if op is None:
                    s[0] += m if c else m * v
                elif op == 'PUSH':
                    s.insert(0, m if c else m * v)
                elif op == 'POP':
                    popped = v <= 0.0
                elif op in ('ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN'):
                    s[0] = self.two(op, s[0], m) if c else self.two(op, s[0], v) * m
                elif op == 'STEP':
                    s[0] += m if v > 0 else 0.0
                else:
                    s[0] += self.one(op, m) if c else self.one(op, v) * m
            self.size = max([self.size] + [abs(x) for x in s])
            if self.size > 1e12:
                raise Undefined
        return s[0]

    @staticmethod
    def one(op, x):
        if op == 'SQRT' and x < 0.0:
            raise Undefined
        return {None: lambda: x, 'ABS': lambda: abs(x), 'NEG': lambda: -x, 'POW2': lambda: x * x, 'POW3': lambda: x * x * x,
                'SQRT': lambda: x ** 0.5}[op]()

    @staticmethod
    def two(op, x, y):
        if op == 'DIV' and abs(y) < 1e-6:
            raise Undefined
        return {'ADD': lambda: x + y, 'SUB': lambda: x - y, 'MUL': lambda: x * y, 'DIV': lambda: x / y,
                'MAX': lambda: max(x, y), 'MIN': lambda: min(x, y)}[op]()

    def rhs(self, cid):
        """(value, accuracy to expect of it), None where the formula has no value"""
        self.size = 1.0
        try:
            v = self.calc(self.eq[cid])
        except Undefined:
            return None
        return v, 1e-9 * self.size

    def dependents(self, key):
        reach = {}

        def reaches(terms):
            for t in terms:
                if (t['id'], t['ty']) == key:
                    return True
                if t['ty'] == 'X':
                    g = t['id']
                    if g not in reach:
                        reach[g] = reaches(self.case.generic[g])
                    if reach[g]:
                        return True
            return False
        return sorted(c for c, terms in self.eq.items() if reaches(terms))


class Run:
    def __init__(self, s, prop, ctx):
        self.s, self.prop, self.ctx, self.cfg = s, prop, ctx, s['cfg']
        self.ccfg = {'salt': self.cfg['salt'], 'rich': True}
        self.dir = seams.scratch_dir()
        self.managers, self.calcs = {}, {}

    def cleanup(self):
        seams.ENV.net = None
        seams.rm_scratch(self.dir)

    def go(self):
        from nempy.historical_inputs import xml_cache, rhs_calculator
        self.mod = rhs_calculator
        self.cases = [casefile.case(self.cfg['day'], n, self.ccfg) for n in self.cfg['numbers']]
        cache = os.path.join(self.dir, 'cache')
        os.mkdir(cache)
        for c in self.cases:
            with open(os.path.join(cache, c.file_name), 'wb') as f:
                f.write(c.xml())
        for k in (0, 1):
            m = xml_cache.XMLCacheManager(cache)
            m.load_interval(self.cases[0].when)
            self.managers[k] = [m, self.cases[0]]
        for i, st in enumerate(self.s['steps']):
            self.ctx.sim_time += 300
            getattr(self, 'do_' + st['op'])(i, st)
            self.ctx.state(sorted((k, sorted(m.val.items())) for k, (_, m) in self.calcs.items()))

    def do_select(self, i, st):
        if st.get('lost'):       # an interval that can not be obtained is selected: network fault
            self.ctx.fault('http-refused')
            try:
                self.managers[st['m']][0].load_interval('2030/01/01 12:00:00')
                out = 'ok'
            except Exception as e:
                out = 'raised ' + type(e).__name__
            self.managers[st['m']][1] = None
            self.ctx.ev(i, 'select lost', st['m'], out)
            return
        c = self.cases[st['n'] % len(self.cases)]
        self.managers[st['m']][0].load_interval(c.when)
        self.managers[st['m']][1] = c
        self.ctx.ev(i, 'select', st['m'], c.when)

    def do_new(self, i, st):
        m, c = self.managers[st['m']]
        if c is None:
            try:
                self.mod.RHSCalc(m)
                self.ctx.check(False, 'wrong-rhs', 'a calculator was created although no interval is loaded')
            except (Violation, Foreign):
                raise
            except Exception as e:
                self.ctx.ev(i, 'new', st['c'], 'raised', type(e).__name__)
            return
        self.calcs[st['c']] = (self.mod.RHSCalc(m), Model(c))
        self.ctx.ev(i, 'new', st['c'], 'on', st['m'], c.when)

    def get(self, st):
        return self.calcs.get(st['c']) or self.calcs.get(0)

    def do_update(self, i, st):
        ctx = self.ctx
        if not self.get(st):
            return
        calc, model = self.get(st)
        keys = sorted(model.val)
        key = keys[st['pick'] % len(keys)]
        if st['bad']:
            key = [('nowhere', 'A'), ('nowhere', 'T'), ('Constant', 'C'), ('X0', 'X'), ('nowhere', 'E')][st['pick'] % 5]
        value = str(st['value']) if st['as_str'] else st['value']
        ok = model.updatable(key)
        try:
            calc.update_spd_id_value(key[0], key[1], value)
            out = 'ok'
        except Exception as e:
            out = 'raised ' + type(e).__name__
        ctx.ev(i, 'update', st['c'], key, value, out)
        if ok:
            ctx.check(out == 'ok', 'update-refused', 'update of %s to %r was refused: %s' % (key, value, out))
            model.update(key, st['value'])
            ctx.probe('update')
        else:
            ctx.check(out != 'ok', 'update-accepted', 'update of %s was accepted although it can not be updated' % (key,))
            ctx.probe('rejected-update')

    def do_compute(self, i, st):
        ctx = self.ctx
        if not self.get(st):
            return
        calc, model = self.get(st)
        ids = sorted(model.eq)
        if not ids:
            return
        if st['unknown']:
            try:
                calc.compute_constraint_rhs([ids[0], 'no such constraint'])
            except Exception as e:
                ctx.ev(i, 'compute of unknown id raised', type(e).__name__)
            ctx.probe('failed-computation')
            return
        a = ids[st['pick'] % len(ids)]
        want = ids if st['all'] else ([a, ids[(st['pick'] // 7) % len(ids)]] if st['many'] else [a])
        exp = {c: model.rhs(c) for c in want}
        if any(e is None for e in exp.values()):
            ctx.probe('undefined-formula')
            want = [c for c in want if exp[c] is not None]
            if not want:
                return
            a = want[0]
        try:
            if len(want) == 1 and not st['all']:
                got = {a: float(calc.compute_constraint_rhs(a))}
            else:
                df = calc.compute_constraint_rhs(list(want))
                ctx.check(list(df['set']) == want, 'wrong-rhs', 'asked for %s, got %s' % (want, list(df['set'])))
                got = {c: float(v) for c, v in zip(df['set'], df['rhs'])}
        except (Violation, Foreign):
            raise
        except Exception as e:
            ctx.check(False, 'compute-failed', 'computing %s failed: %s: %s' % (want, type(e).__name__, e))
        ctx.ev(i, 'compute', st['c'], ' '.join('%s=%.6f' % (c, got[c]) for c in sorted(got)))
        for c in want:
            e, tol = exp[c]
            ctx.check(abs(got[c] - e) <= tol, 'wrong-rhs', 'right hand side of %s computed as %r, its '
                      'terms and current values give %r' % (c, got[c], e))
        nem = {c['id']: c['rhs'] for c in model.case.constraints}
        g = calc.get_nemde_rhs(a)
        ctx.check(g == nem[a], 'wrong-nemde-rhs', 'recorded right hand side of %s is %r, the case file states %r' % (a, g, nem[a]))
        ctx.probe('computed')

    def do_depends(self, i, st):
        ctx = self.ctx
        if not self.get(st):
            return
        calc, model = self.get(st)
        keys = sorted(model.val) + [(g, 'X') for g in sorted(model.case.generic)]
        key = keys[st['pick'] % len(keys)]
        self.query(i, calc, model, key, st['spoil'])

    def query(self, i, calc, model, key, spoil):
        ctx = self.ctx
        try:
            res = calc.get_rhs_constraint_equations_that_depend_value(key[0], key[1])
            got = list(res)
        except Exception as e:
            ctx.check(False, 'query-failed', 'dependents of %s failed: %s: %s' % (key, type(e).__name__, e))
        exp = model.dependents(key)
        ctx.ev(i, 'depends', key, sorted(got))
        ctx.check(sorted(got) == exp, 'wrong-dependents', 'constraints depending on %s reported as %s, by their terms they are '
                  '%s' % (key, sorted(got), exp))
        if exp:
            ctx.probe('dependents')
        if spoil and isinstance(res, list):
            res.clear()

    def do_final(self, i, st):
        """all calculators agree with their model, a fresh calculator on each manager has the recorded values only"""
        for k, (calc, model) in sorted(self.calcs.items()):
            self.verify(i, calc, model, 'calculator %s' % k)
        for k, (m, case) in sorted(self.managers.items()):
            if case is None:
                continue
            self.verify(i, self.mod.RHSCalc(m), Model(case), 'fresh calculator')
            bad = casefile.mismatch(m.get_unit_initial_conditions(), case.expect('get_unit_initial_conditions')) or \
                casefile.mismatch(m.get_constraint_rhs(), case.expect('get_constraint_rhs')) or \
                casefile.mismatch(m.get_market_interconnector_link_bid_availability(),
                                  case.expect('get_market_interconnector_link_bid_availability'))
            self.ctx.check(bad is None, 'recorded-changed', 'recorded data changed: %s' % bad)

    def verify(self, i, calc, model, what):
        ctx = self.ctx
        if self.prop == 'P22':
            for key in sorted(model.val) + [(g, 'X') for g in sorted(model.case.generic)]:
                self.query(i, calc, model, key, False)
            return
        for c in sorted(model.eq):
            e = model.rhs(c)
            if e is None:
                continue
            try:
                got = float(calc.compute_constraint_rhs(c))
            except Exception as e:
                ctx.check(False, 'compute-failed', '%s: computing %s failed: %s: %s' % (what, c, type(e).__name__, e))
            e, tol = e
            ctx.check(abs(got - e) <= tol, 'wrong-rhs', '%s: right hand side of %s computed as %r, its '
                      'terms and current values give %r' % (what, c, got, e))
        ctx.ev(i, 'final', what, len(model.eq))
