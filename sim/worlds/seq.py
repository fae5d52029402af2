"""Chains of dispatch intervals (P20).

One simulated process dispatches interval after interval: initial outputs come from nempy.time_sequential applied to the
dispatch it got back for the previous interval, fast start modes from UnitData.get_fast_start_profiles_for_dispatch applied to
the unconstrained dispatch.  After each interval the dispatch is written to a durable store.  The process may die at any point
of an interval and is then restarted with nothing but the store, and solves may fail.  The oracle tracks outputs and fast start
modes from the reported dispatch alone, and a second, undisturbed process provides the history a restart has to continue."""
import copy
import json

from ..core import World, HarnessError, SimCrash
from .. import refmarket as rm, seams
from .market import Gen, Run, Slot, frame, same, MarketWorld, summary, raise_foreign

POINTS = ['start', 'ramp-ready', 'inputs-set', 'first-solved', 'profiles-ready', 'solving', 'dispatched', 'stored']
SOLVER = ['infeasible', 'no-solution', 'error', 'unbounded', 'stopped-early', 'raises', 'other']
H = 5.0 / 60


def close(a, b, tol=1e-6):
    return a is not None and b is not None and abs(a - b) <= tol


def advance(f, dispatched):
    """fast start modes over one five minute interval (market operator's rules): a unit not committed starts when it is wanted;
    a mode with less than the time left of the interval to run is followed by the next one"""
    mode, t, left, since = f['mode'], f['time'], 5.0, None
    if mode == 0 and dispatched > 0.0:
        mode = 1
    lengths = {1: f['T1'], 2: f['T2'], 3: f['T3']}
    for m in (1, 2, 3):
        if mode == m and lengths[m] - t < left:
            left -= lengths[m] - t
            mode, t = m + 1, 0.0
            if m == 2:
                since = left
    t = t + left
    if mode == 0:
        t = 0.0
    if mode == 4:
        t = min(t, f['T4'])
    return mode, t, since


class SeqWorld(World):
    name = 'seq'
    real = ['nempy.time_sequential', 'nempy.markets.SpotMarket', 'nempy.spot_market_backend.*',
            'nempy.historical_inputs.units.UnitData (fast start profiles)', 'CBC through mip (except injected solver failures)']
    stub = ['raw inputs loader under UnitData', 'durable store of dispatch', 'process', 'solver status at injected solves']
    rule = ('one evaluation = one seeded chain of dispatch intervals with crashes, restarts and solver failures, each dispatch judged '
            'and the chain compared with an undisturbed one; distinct non-trivial = distinct event logs')
    state_measure = 'hash of (outputs carried, fast start modes, bids) at each dispatch'
    own = {'P20': {'wrong-initial', 'wrong-profile', 'limit-violated', 'dispatch-failed', 'setter-failed', 'restart-diverged',
                   'chain-stuck', 'caller-modified', 'bad-report', 'chain-call-failed'}}

    def generate(self, rng, prop, tier):
        while True:
            g = Gen(rng, prop)
            g.interval = 5
            if len(g.units) >= 2:
                break
        feats = g.features()
        feats = [f for f in feats if f not in ('ramp', 'fast_start', 'joint_ramp', 'generic', 'link_units', 'link_regions', 'link_inters')]
        cfg = g.cfg()
        fast = {}
        if rng.random() < 0.6:
            for u in g.units:
                if u['kind'] == 'gen' and rng.random() < 0.6:
                    m = rng.randint(0, 4)
                    lens = {'T1': float(rng.choice([0, 2, 3, 5, 10, 20])), 'T2': float(rng.choice([1, 4, 5, 8, 17])),
                            'T3': float(rng.choice([0, 3, 5, 10, 15])), 'T4': float(rng.choice([1, 5, 8]))}
                    fast[u['name']] = dict(lens, mode=m, time=float(rng.randint(0, int(lens.get('T%d' % m, 0)))) if m else 0.0,
                                           min_loading=round(u['cap'] * rng.choice([0, 0.1, 0.25]), 1))
        n = rng.randint(2, 5) if tier == 'quick' else rng.randint(3, 12)
        keep = {}
        steps = []
        for k in range(n):
            ins = {}
            for f in feats:
                if f in keep and rng.random() < 0.5 and f != 'demand':
                    ins[f] = keep[f]
                else:
                    e = g.make(f)
                    if e is None:
                        continue
                    ins[f] = e
            if 'price_bids' not in ins or 'volume_bids' not in ins:
                raise HarnessError('no bids')
            if 'losses' in ins and 'interconnectors' in ins:      # losses belong to the interconnectors as defined
                if keep.get('interconnectors') is not ins['interconnectors']:
                    e = g.make('losses')
                    ins.pop('losses')
                    if e is not None:
                        ins['losses'] = e
            else:
                ins.pop('losses', None)
            if rng.random() < 0.85 and ins.get('demand'):
                ins['demand'] = dict(ins['demand'], cost=15000.0)
            for f in ('capacity', 'uigf'):
                if f in ins and rng.random() < 0.8:
                    ins[f] = dict(ins[f], cost=200000.0)
            keep = dict(ins)
            ramp = []
            for u in g.units:
                if rng.random() < 0.9:
                    for d in g.sides(u):
                        up, dn = g.rates(u)
                        ramp.append(g.row(u, d, None, ramp_up_rate=up, ramp_down_rate=dn))
            if not ramp:
                u = g.units[0]
                ramp = [g.row(u, d, None, ramp_up_rate=600.0, ramp_down_rate=600.0) for d in g.sides(u)]
            if rng.random() < 0.3:
                rng.shuffle(ramp)
            scada = None
            if rng.random() < 0.25:
                scada = [{'unit': u, 'scada_ramp_up_rate': round(rng.uniform(50, 2000), 1),
                          'scada_ramp_down_rate': round(rng.uniform(50, 2000), 1)} for u in sorted({r['unit'] for r in ramp})]
            st = {'op': 'interval', 'in': ins, 'order': self.order(rng, list(ins) + ['ramp']), 'ramp': ramp, 'scada': scada,
                  'ramp_cost': rng.choice([None, None, None, 1000000.0]), 'fs_cost': rng.choice([None, 1000000.0, 1000000.0]),
                  'faults': []}
            while rng.random() < 0.45 and len(st['faults']) < 3:
                if rng.random() < 0.7:
                    st['faults'].append({'kind': 'crash', 'at': rng.choice(POINTS)})
                else:
                    st['faults'].append({'kind': rng.choice(SOLVER), 'at': rng.choice([0, 0, 1, 2])})
            steps.append(st)
        hist = [{'unit': u['name'], 'initial_output': u['initial']} for u in g.units]
        if rng.random() < 0.2:
            rng.shuffle(hist)
        return {'world': 'seq', 'cfg': dict(cfg, reuse=rng.random() < 0.4, fast=fast, hist=hist, csv=rng.random() < 0.5), 'steps': steps}

    def order(self, rng, fs):
        return MarketWorld.order(self, rng, fs)

    def nontrivial(self, ctx):
        return bool(ctx.probes)

    def execute(self, s, prop, ctx):
        SeqRun(s, prop, ctx).go()

    def simplify(self, s):
        if s['cfg']['reuse']:
            yield dict(copy.deepcopy(s), cfg=dict(copy.deepcopy(s['cfg']), reuse=False))
        for u in s['cfg']['fast']:
            c = copy.deepcopy(s)
            del c['cfg']['fast'][u]
            yield c
        for i, st in enumerate(s['steps']):
            for w in st['in']:
                if w not in ('volume_bids', 'price_bids', 'demand'):
                    c = copy.deepcopy(s)
                    del c['steps'][i]['in'][w]
                    if w == 'interconnectors':
                        c['steps'][i]['in'].pop('losses', None)
                    yield c
            if st['scada']:
                c = copy.deepcopy(s)
                c['steps'][i]['scada'] = None
                yield c


class Loader:
    """raw inputs of the fast start units, as the case file would state them"""
    interval = '2024/07/10 12:05:00'

    def __init__(self, fast):
        self.fast = fast

    def get_unit_fast_start_parameters(self):
        import pandas as pd
        f = self.fast
        cols = ['DUID', 'MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4']
        rows = [(u, v['min_loading'], v['mode'], v['time'], v['T1'], v['T2'], v['T3'], v['T4']) for u, v in f.items()]
        return pd.DataFrame(rows, columns=cols)

    def get_unit_price_bids(self):
        import pandas as pd
        return pd.DataFrame({'DUID': list(self.fast), 'BIDTYPE': 'ENERGY', 'DIRECTION': 'GENERATOR', 'PRICEBAND1': 1.0})

    def get_unit_volume_bids(self):
        import pandas as pd
        return pd.DataFrame({'DUID': list(self.fast), 'BIDTYPE': 'ENERGY', 'DIRECTION': None, 'MAXAVAIL': 1.0,
                             'RAMPUPRATE': 1.0, 'RAMPDOWNRATE': 1.0})

    def get_unit_initial_conditions(self):
        import pandas as pd
        return pd.DataFrame({'DUID': list(self.fast), 'INITIALMW': 0.0, 'TRADERTYPE': 'GENERATOR'})

    def __getattr__(self, name):
        if name.startswith('get_'):
            import pandas as pd
            return lambda: pd.DataFrame({'DUID': [], 'UIGF': []})
        raise AttributeError(name)


class SeqRun(Run):
    def go(self):
        import warnings
        warnings.simplefilter('ignore')
        plain = []
        self.quiet_chain = True
        a = self.chain(False)
        self.quiet_chain = False
        b = self.chain(True)
        for k, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                self.ctx.check((x is None) == (y is None), 'restart-diverged', 'interval %d %s only in the disturbed chain' % (
                    k, 'was dispatched' if x is None else 'failed'))
                continue
            self.ctx.check(close(x['value'], y['value'], 1e-2 + 2e-6 * abs(x['value'])), 'restart-diverged',
                           'interval %d costs %.4f in the undisturbed chain and %.4f in the one restarted from its stored dispatch'
                           % (k, x['value'], y['value']))
            if x['totals'] != y['totals']:
                if not self.cfg['reuse']:
                    diff = [(u, x['totals'].get(u), y['totals'].get(u)) for u in x['totals'] if x['totals'].get(u) != y['totals'].get(u)]
                    self.ctx.check(False, 'restart-diverged', 'interval %d is dispatched differently by the chain restarted from its '
                                   'stored dispatch: %s' % (k, diff[:3]))
                return      # equally cheap alternatives: from here on the chains may differ
            self.ctx.probe('interval-compared')

    # ---- one chain
    def chain(self, disturbed):
        store, out = [], []
        self.boot(store, 0)
        for k, st in enumerate(self.s['steps']):
            faults = list(st['faults']) if disturbed else []
            done = None
            for n in range(len(faults) + 1):
                f = faults[n] if n < len(faults) else None
                self.crash_at = f['at'] if f and f['kind'] == 'crash' else None
                self.solver_fault = f if f and f['kind'] != 'crash' else None
                self.fired = False
                try:
                    done = self.interval(k, st, store)
                    if done == 'retry':
                        done = None
                        continue
                    break
                except SimCrash:
                    self.ctx.fault('crash-' + f['at'])
                    self.ctx.ev(k, 'crash', f['at'])
                    self.ctx.probe('restarted')
                    stored = len(store)
                    self.boot(store, k)
                    if stored > k:      # died after storing: the interval is done
                        done = self.result
                        break
            if done is None:
                self.ctx.check(False, 'chain-stuck', 'interval %d was never dispatched although the faults stopped' % k)
            if done == 'undecided':
                return out      # nothing to compare from here on
            if done == 'infeasible':
                store.append(dict(store[-1], skipped=True) if store and store[-1] else None)
                out.append(None)
            else:
                out.append(done)
        return out

    def boot(self, store, k):
        seams.new_process()
        from nempy import markets, time_sequential
        from nempy.historical_inputs import units
        self.mod, self.ts, self.units = markets, time_sequential, units
        """a process starts: all it knows is the store"""
        self.slot = None
        self.pool = {}
        last = store[-1] if store else None
        if last is None:
            self.last, self.prev, self.fast = None, None, copy.deepcopy(self.cfg['fast'])
            return
        self.fast = copy.deepcopy(last['fast'])
        self.prev = {tuple(a): b for a, b in last['totals']}
        self.last = self.revive(last['dispatch'])

    def revive(self, text):
        import io
        import pandas as pd
        if self.cfg['csv']:
            return pd.read_csv(io.StringIO(text), dtype={'unit': str, 'service': str, 'dispatch_type': str}, float_precision='round_trip')
        return pd.DataFrame(json.loads(text))

    def persist(self, d):
        return d.to_csv(index=False) if self.cfg['csv'] else json.dumps(d.to_dict('list'))

    def point(self, name):
        if self.crash_at == name and not self.fired:
            self.fired = True
            raise SimCrash(name)

    def call_real(self, what, fn, *a, **k):
        import pandas as pd
        frames = [x for x in list(a) + list(k.values()) if isinstance(x, pd.DataFrame)]
        before = [f.copy() for f in frames]
        try:
            r = self.quiet(fn, *a, **k)
        except Exception as e:
            self.ctx.check(False, 'chain-call-failed', '%s failed on the dispatch of the previous interval: %s: %s' % (what, type(e).__name__, e))
        for f, b in zip(frames, before):
            self.ctx.check(same(f, b), 'caller-modified', '%s changed a table of the caller' % what)
        return r

    def initial(self, unit):
        """output of a unit at the start of the interval, from the dispatch reported for the one before"""
        if self.prev is None:
            return {r['unit']: r['initial_output'] for r in self.cfg['hist']}.get(unit)
        bdu = {u['dispatch_type'] for u in self.cfg['units'] if u['unit'] == unit} == {'generator', 'load'}
        x = 0.0
        for (kind, u, d, s), v in self.prev.items():
            if u == unit and s == 'energy':
                x += -v if bdu and d == 'load' else v
        return x

    def interval(self, k, st, store):
        ctx = self.ctx
        ctx.sim_time += 300
        self.point('start')
        # initial outputs
        as_bid = frame(st['ramp'])
        if self.prev is None:
            table = self.call_real('create_seed_ramp_rate_parameters', self.ts.create_seed_ramp_rate_parameters,
                                   frame(self.cfg['hist']), as_bid)
        else:
            table = self.call_real('construct_ramp_rate_parameters', self.ts.construct_ramp_rate_parameters, self.last, as_bid)
        rows = [dict(r, initial_output=self.initial(r['unit'])) for r in st['ramp']]
        self.compare(k, table, rows)
        self.point('ramp-ready')
        # the market
        if self.slot is None or not self.cfg['reuse']:
            ui = [r if self.cfg['dt'] else {a: b for a, b in r.items() if a != 'dispatch_type'} for r in self.cfg['units']]
            self.slot = Slot(self.mod.SpotMarket(list(self.cfg['regions']), frame(ui), dispatch_interval=5))
        slot = self.slot
        if slot.inp:
            slot.after.add('replaced')
            for w in list(slot.inp):
                if w not in st['in'] and w not in ('ramp', 'fast_start'):
                    # an input the market has but this interval does not: only a new market can do without it
                    self.slot = None
                    return self.interval(k, st, store)
            if 'fast_start' in slot.inp:
                self.setter(k, 'remove_fast_start_constraints', [], {})
                slot.inp.pop('fast_start')
        fs = {u: f for u, f in self.fast.items()}
        ramp = {'rows': rows, 'cost': st['ramp_cost'], 'run_type': 'no_fast_start_units', 'scada': st['scada'], 'profiles': None}
        data = None
        if fs:
            data = self.units.UnitData(Loader(fs))
            now = self.call_real('get_fast_start_profiles_for_dispatch', data.get_fast_start_profiles_for_dispatch)
            got = {u: int(m) for u, m in zip(now['unit'], now['current_mode'])}
            ctx.check(got == {u: f['mode'] for u, f in fs.items()}, 'wrong-profile', 'interval %d: current modes %s given as %s' % (
                k, {u: f['mode'] for u, f in fs.items()}, got))
            ramp = dict(ramp, run_type='fast_start_first_run', profiles=[{'unit': u, 'current_mode': f['mode']} for u, f in fs.items()])
        for w in st['order']:
            if w == 'ramp':
                kw = {'scada_ramp_rates': frame(st['scada'])} if st['scada'] else {}
                if fs:
                    kw.update(run_type='fast_start_first_run', fast_start_profiles=now.copy())
                self.set_ramp(k, table, ramp, kw)
            else:
                if w not in st['in']:
                    continue
                name, args, kw = self.args(w, st['in'][w], False)
                self.setter(k, name, args, kw)
                slot.inp[w] = copy.deepcopy(st['in'][w])
        self.point('inputs-set')
        if fs:
            r = self.solve(k, slot, 'first')
            if isinstance(r, str):
                return r
            self.point('first-solved')
            d = slot.market.get_unit_dispatch()
            got = self.call_real('get_fast_start_profiles_for_dispatch', data.get_fast_start_profiles_for_dispatch, d)
            out = r['totals']
            after = {}
            for u, f in fs.items():
                key = ('unit', u, 'generator', 'energy')
                if key in out:
                    after[u] = advance(f, float(d[(d['unit'] == u) & (d['service'] == 'energy')]['dispatch'].iloc[0]))
            self.compare_profiles(k, got, fs, after)
            self.point('profiles-ready')
            prof = [{'unit': u, 'end_mode': a[0], 'time_in_end_mode': a[1], 'mode_two_length': fs[u]['T2'],
                     'mode_four_length': fs[u]['T4'], 'min_loading': fs[u]['min_loading']} for u, a in after.items()]
            if prof:
                c = {} if st['fs_cost'] is None else {'violation_cost': st['fs_cost']}
                self.setter(k, 'set_fast_start_constraints', [got.loc[:, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length',
                                                                          'mode_four_length', 'min_loading']]], c)
                slot.inp['fast_start'] = {'rows': prof, 'cost': st['fs_cost']}
                ramp = dict(ramp, run_type='fast_start_second_run', profiles=[
                    {'unit': u, 'end_mode': a[0], 'min_loading': fs[u]['min_loading'], 'time_since_end_of_mode_two': a[2]}
                    for u, a in after.items()])
                kw = {'scada_ramp_rates': frame(st['scada'])} if st['scada'] else {}
                kw.update(run_type='fast_start_second_run',
                          fast_start_profiles=got.loc[:, ['unit', 'end_mode', 'time_since_end_of_mode_two', 'min_loading']])
                self.set_ramp(k, table, ramp, kw)
                ctx.probe('fast-start-interval')
                for a in after.values():
                    ctx.probe('fast-start-ends-in-mode-%d' % a[0])
        self.point('solving')
        r = self.solve(k, slot, 'final')
        if isinstance(r, str):
            return r
        d = slot.market.get_unit_dispatch()
        self.point('dispatched')
        ctx.state(json.dumps([slot.inp, self.fast], sort_keys=True))
        ctx.probe('interval')
        if self.prev is not None:
            ctx.probe('carried-interval')
        if fs:
            for u, a in after.items():
                self.fast[u] = dict(self.fast[u], mode=a[0], time=a[1])
        totals = {a: b for a, b in r['totals'].items() if a[0] == 'unit'}
        ctx.ev(k, 'dispatch', 'cost=%.2f' % r['objective'], summary(r))
        # durable
        store.append({'dispatch': self.persist(d), 'totals': [[list(a), b] for a, b in totals.items()], 'fast': copy.deepcopy(self.fast)})
        self.result = {'value': r['objective'], 'totals': totals}
        self.prev, self.last = totals, d
        self.point('stored')
        return self.result

    def set_ramp(self, k, table, ramp, kw):
        slot = self.slot
        if ramp['cost'] is not None:
            kw = dict(kw, violation_cost=ramp['cost'])
        self.setter(k, 'set_unit_ramp_rate_constraints', [table], kw)
        slot.inp['ramp'] = ramp

    def setter(self, k, name, args, kw):
        err = self.call(self.slot, name, args, kw)
        if err is not None:
            self.ctx.check(False, 'setter-failed', 'interval %d: %s failed: %s: %s' % (k, name, type(err).__name__, err))

    def compare(self, k, table, rows):
        cols = sorted(set(rows[0]) | {'initial_output'})
        got = table.to_dict('records')
        self.ctx.check(sorted(table.columns) == cols, 'wrong-initial', 'interval %d: ramp rate parameters have columns %s, expected %s'
                       % (k, sorted(table.columns), cols))
        key = lambda r: (r['unit'], r.get('dispatch_type'))
        exp = {key(r): r for r in rows if r['initial_output'] is not None}
        self.ctx.check(sorted(map(key, got), key=str) == sorted(exp, key=str), 'wrong-initial', 'interval %d: ramp rate parameters given '
                       'for %s, expected %s' % (k, sorted(map(key, got), key=str), sorted(exp, key=str)))
        for r in got:
            e = exp[key(r)]
            for c in ('initial_output', 'ramp_up_rate', 'ramp_down_rate'):
                self.ctx.check(close(float(r[c]), e[c]), 'wrong-initial', 'interval %d: %s of %s is %r, expected %r from the dispatch '
                               'of the interval before' % (k, c, key(r), r[c], e[c]))

    def compare_profiles(self, k, got, fs, after):
        have = {r['unit']: r for r in got.to_dict('records')}
        self.ctx.check(sorted(have) == sorted(after) and len(got) == len(after), 'wrong-profile', 'interval %d: profiles given for %s, '
                       'expected for %s' % (k, sorted(got['unit']), sorted(after)))
        for u, (mode, t, since) in after.items():
            r, f = have[u], fs[u]
            exp = {'end_mode': mode, 'time_in_end_mode': t, 'mode_two_length': f['T2'], 'mode_four_length': f['T4'],
                   'min_loading': f['min_loading'], 'time_since_end_of_mode_two': since}
            for c, e in exp.items():
                v = float(r[c])
                v = None if v != v else v
                ok = (v is None and e is None) or close(v, e)
                self.ctx.check(ok, 'wrong-profile', 'interval %d: %s of %s is %r, expected %r (mode %s for %s min, lengths %s)' % (
                    k, c, u, v, e, f['mode'], f['time'], [f[x] for x in ('T1', 'T2', 'T3', 'T4')]))

    def solve(self, k, slot, which):
        ctx = self.ctx
        p = rm.build(self.cfg, slot.inp)
        if p.unservable:
            return 'infeasible'
        try:
            best = rm.solve(p)
            if best is not None and max([best.x[v] for r in p.rows for v, _ in r.dvars] or [0]) > rm.DEFICIT_CAP * 0.9:
                return 'undecided'
            faults = []
            if self.solver_fault and not self.fired and best is not None:
                faults = [dict(self.solver_fault, at=self.solver_fault['at'] % 2)]
            err = self.dispatch(slot.market, None, faults)
            if self.hit:
                self.fired = True
                ctx.probe('solver-fault')
                if err is None:
                    raise_foreign(ctx, 'solver-failure-hidden', '')
                ctx.ev(k, 'solver fault', which, type(err).__name__)
                return 'retry'
            if best is None:
                ctx.probe('infeasible-interval')
                if err is None:
                    raise_foreign(ctx, 'infeasible-accepted', '')
                return 'infeasible'
            st = {'faults': []}
            if err is not None:
                if self.solver_to_blame(slot, st, p, best, [('dispatch-failed', '')]):
                    ctx.probe('solver-gave-up-on-a-solvable-model')
                    return 'undecided'
                ctx.check(False, 'dispatch-failed', 'interval %d: a dispatch exists, but dispatching failed: %s: %s'
                          % (k, type(err).__name__, err))
            res = self.read(slot.market, slot.inp)
            self.prop, keep = 'P11', self.prop
            try:
                probs = self.judge(slot, p, best, res, False)
            finally:
                self.prop = keep
            if probs and self.solver_to_blame(slot, st, p, best, probs):
                ctx.probe('solver-stopped-short-of-the-optimum')
                return 'undecided'
            for cls, msg in probs:
                if cls in ctx.own:
                    ctx.check(False, cls, 'interval %d (%s run): %s' % (k, which, msg))
            if probs:
                raise_foreign(ctx, *probs[0])
            return res
        except rm.Undecided as e:
            ctx.probe('reference-undecided')
            return 'undecided'
