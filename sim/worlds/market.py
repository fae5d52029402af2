"""Spot markets: seeded histories of set, replaced, rejected and failed operations on interleaved markets, with a failing
solver, against the independent reference model in refmarket.py."""
import contextlib
import copy
import inspect
import io
import json
import random

from .. import seams, refmarket as rm
from ..core import World, HarnessError, Violation, Foreign

SERVICES = ['raise_reg', 'lower_reg'] + list(rm.CONTINGENCY)
INT_COLS = {'loss_segment', 'end_mode', 'current_mode', 'generic_constraint_factor'}
STR_COLS = {'unit', 'region', 'service', 'dispatch_type', 'set', 'type', 'interconnector', 'link', 'to_region', 'from_region'}
ELASTIC_KEYS = {'capacity': ['unit_bid_capacity'], 'uigf': ['uigf_capacity'],
                'ramp': ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down'],
                'fast_start': ['fast_start'], 'demand': ['demand'], 'fcas': ['fcas'], 'fcas_max': ['fcas_max_availability'],
                'joint_ramp': ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
                               'joint_ramping_lower_reg_bdu'],
                'joint_cap': ['joint_capacity'], 'enreg': ['energy_and_regulation_capacity'], 'generic': ['generic'],
                'tie_break': ['tie_break']}
ALL_KEYS = sorted(k for v in ELASTIC_KEYS.values() for k in v)
DEPENDENTS = {'volume_bids': ['price_bids', 'tie_break', 'joint_ramp'], 'price_bids': ['tie_break'],
              'interconnectors': ['losses']}
NEEDS = {'price_bids': 'volume_bids', 'capacity': 'volume_bids', 'uigf': 'volume_bids', 'joint_ramp': 'volume_bids',
         'tie_break': 'price_bids', 'losses': 'interconnectors'}
ORDER = ['volume_bids', 'price_bids', 'capacity', 'uigf', 'ramp', 'fast_start', 'demand', 'fcas', 'fcas_max', 'joint_ramp',
         'joint_cap', 'enreg', 'interconnectors', 'losses', 'generic', 'link_units', 'link_regions', 'link_inters', 'tie_break']
HISTORY = ('P15', 'P16', 'P19', 'P14')
PROBLEMS = {'limit-violated', 'fcas-undeliverable', 'losses-inconsistent', 'not-least-cost', 'needless-violation',
            'wrong-objective', 'wrong-price', 'wrong-violation', 'bad-report', 'dispatch-failed', 'wrong-summary',
            'setter-failed', 'wrong-availability'}


# ------------------------------------------------------------------------------------------------------------ generator
class Gen:
    def __init__(self, rng, prop):
        self.rng, self.prop = rng, prop
        r = rng
        nreg = r.choice([1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5])
        self.meshed = prop == 'P12' and r.random() < 0.12      # many flows whose losses are not convex: the solver has to branch
        if self.meshed:
            nreg = r.choice([4, 5])
        self.regions = ['R%d' % k for k in range(nreg)]
        self.dt = r.random() < 0.8
        fcas = r.random() < (0.95 if prop in ('P23', 'P25') else 0.55)
        self.services = []
        if fcas:
            self.services = r.sample(SERVICES[2:], r.randint(0, 2))
            self.services += r.sample(SERVICES[:2], r.choice([0, 1, 1, 2]) if self.services else r.randint(1, 2))
        if prop in ('P23', 'P25') and not any(s in self.services for s in ('raise_reg', 'lower_reg')):
            self.services.append(r.choice(['raise_reg', 'lower_reg']))
        self.svc = bool(self.services) or r.random() < 0.5
        self.ties = r.random() < 0.3
        mix = ['gen', 'gen', 'load', 'bdu', 'bdu'] if prop in ('P23', 'P25') or (self.ties and r.random() < 0.4) else \
            ['gen', 'gen', 'gen', 'load', 'bdu']
        self.units = []
        n = r.randint(2, 5) if r.random() < 0.85 and not self.meshed else r.randint(6, 8)
        self.nb = r.choice([3, 3, 3, 3, 10])
        for k in range(n):
            kind = 'gen'
            if self.dt and k:
                kind = r.choice(mix)
            self.units.append({'name': 'ABCDEFGH'[k], 'kind': kind, 'region': r.choice(self.regions) if k else self.regions[0],
                               'cap': float(r.randint(20, 200)), 'lf': {d: round(r.uniform(0.9, 1.1), 3) for d in ('generator', 'load')},
                               'services': [s for s in self.services if r.random() < 0.75],
                               'initial': None})
        for u in self.units:
            x = r.uniform(-0.5, 0.9) if u['kind'] == 'bdu' else r.uniform(0, 0.9)
            u['initial'] = round(u['cap'] * x, 1) if r.random() < 0.93 else 0.0
        self.inters = []
        for k in range(len(self.regions) - 1):
            a, b = self.regions[k], self.regions[k + 1]
            if r.random() < 0.5:
                a, b = b, a
            mnsp = r.random() < 0.25
            self.inters.append({'name': 'I%d' % k, 'from': a, 'to': b, 'mnsp': mnsp, 'max': float(r.randint(20, 120)),
                                'min': -float(r.randint(20, 120))})
        if nreg == 3 and r.random() < 0.4:
            self.inters.append({'name': 'I9', 'from': self.regions[0], 'to': self.regions[2], 'mnsp': False,
                                'max': float(r.randint(20, 80)), 'min': -float(r.randint(20, 80))})
        if self.meshed:
            for k in range(nreg):
                for q in range(k + 2, nreg):
                    if r.random() < 0.7:
                        self.inters.append({'name': 'I%d%d' % (k, q), 'from': self.regions[k], 'to': self.regions[q], 'mnsp': r.random() < 0.4,
                                            'max': float(r.randint(20, 80)), 'min': -float(r.randint(20, 80))})
        self.palette = [round(r.uniform(-50, 300), 2) for _ in range(4)]
        if r.random() < 0.5:
            self.palette[0] = 0.0
        self.lf = r.random() < (0.2 if self.ties else 0.6)
        self.interval = r.choice([5, 5, 5, 30, 30, 15, 60])
        self.tight = prop == 'P24' and r.random() < 0.35
        self.demand = None

    def cfg(self):
        rows = []
        for u in self.units:
            for d in {'gen': ['generator'], 'load': ['load'], 'bdu': ['generator', 'load']}[u['kind']]:
                row = {'unit': u['name'], 'region': u['region'], 'dispatch_type': d}
                if self.lf:
                    row['loss_factor'] = u['lf'][d]
                rows.append(row)
        return {'interval': self.interval, 'regions': self.regions, 'units': rows, 'dt': self.dt}

    def sides(self, u):
        return {'gen': ['generator'], 'load': ['load'], 'bdu': ['generator', 'load']}[u['kind']]

    def row(self, u, d=None, s=None, **kw):
        r = {'unit': u['name']}
        if self.dt and d:
            r['dispatch_type'] = d
        if s and self.svc:
            r['service'] = s
        r.update(kw)
        return r

    def cost(self, what):
        """violation price: None is hard"""
        r = self.rng
        p_hard = {'demand': 0.12, 'fcas': 0.15, 'generic': 0.2, 'ramp': 0.5, 'joint_ramp': 0.45, 'joint_cap': 0.4, 'enreg': 0.4,
                  'fast_start': 0.4}.get(what, 0.6)
        if self.prop in ('P17', 'P24'):
            p_hard /= 3
        if r.random() < p_hard:
            return None
        c = r.choice([35.0, 180.5, 1200.0, 15000.0, 150000.0])
        if what == 'demand':
            c = r.choice([14500.0, 150000.0, 2000000.0])
        if r.random() < 0.15:
            c = int(c)
        return c

    def make(self, what):
        return getattr(self, 'g_' + what)()

    # each returns a JSON description of the input
    def bands(self, total, n):
        r = self.rng
        cuts = sorted(r.random() for _ in range(n - 1))
        pts = [0.0] + cuts + [1.0]
        return [round(total * (b - a), 2) for a, b in zip(pts, pts[1:])]

    def g_volume_bids(self):
        r = self.rng
        n = r.randint(1, 3) if self.nb == 3 else self.nb
        rows = []
        for u in self.units:
            for d in self.sides(u):
                k = r.randint(1, n)
                b = self.bands(u['cap'] * r.uniform(0.7, 1.1), k) + [0.0] * (n - k)
                b = [max(x, 1.0) if q == 0 else x for q, x in enumerate(b)]
                rows.append(self.row(u, d, 'energy', **{str(q + 1): x for q, x in enumerate(b)}))
            for s in u['services']:
                ds = self.sides(u)
                if u['kind'] == 'bdu':
                    if s in rm.CONTINGENCY:
                        ds = ['generator']
                    elif r.random() < 0.3:
                        ds = [r.choice(ds)]
                for d in ds:
                    b = [round(r.uniform(2, 30), 1) for _ in range(n)]
                    if r.random() < 0.1:
                        b = [0.0] * n
                    rows.append(self.row(u, d, s, **{str(q + 1): x for q, x in enumerate(b)}))
        if r.random() < 0.3:
            r.shuffle(rows)
        return {'rows': rows}

    def g_price_bids(self):
        r = self.rng
        rows = []
        for u in self.units:
            for d in self.sides(u):
                if self.ties and r.random() < 0.6:
                    p = sorted(r.choice(self.palette) for _ in range(self.nb)) if self.nb > 3 else sorted(r.sample(self.palette, 3))
                else:
                    base = r.uniform(-60, 250) if r.random() < 0.9 else r.uniform(-1000, 14000)
                    p = [round(base + q * r.uniform(5, 60), 2) for q in range(self.nb)]
                    p = sorted(p)
                if d == 'load':
                    p = sorted([round(r.uniform(-20, 120), 2) for _ in range(self.nb)], reverse=False)
                    if self.ties and r.random() < 0.6:
                        p = sorted(r.choice(self.palette) for _ in range(self.nb)) if self.nb > 3 else sorted(r.sample(self.palette, 3))
                if self.ties and r.random() < 0.15:
                    p[1] = p[r.choice([0, 2])]      # equal prices in two bands
                rows.append(self.row(u, d, 'energy', **{str(q + 1): x for q, x in enumerate(p)}))
            for s in u['services']:
                for d in self.sides(u):
                    if u['kind'] == 'bdu' and s in rm.CONTINGENCY and d == 'load':
                        continue
                    p = sorted(round(r.uniform(0, 60), 2) for _ in range(self.nb))
                    rows.append(self.row(u, d, s, **{str(q + 1): x for q, x in enumerate(p)}))
        if r.random() < 0.3:
            r.shuffle(rows)
        return {'rows': rows}

    def some(self, kinds=('gen', 'load', 'bdu'), p=0.7):
        us = [u for u in self.units if u['kind'] in kinds]
        pick = [u for u in us if self.rng.random() < p]
        return pick or us[:1]

    def g_capacity(self):
        r = self.rng
        rows = [self.row(u, d, None, capacity=round(u['cap'] * r.uniform(0.4, 1.1), 1) if r.random() < 0.93 else 0.0)
                for u in self.some() for d in self.sides(u)]
        return {'rows': rows, 'cost': self.cost('capacity')}

    def g_uigf(self):
        us = self.some(('gen',), 0.4)
        if not us:
            return None
        rows = [{'unit': u['name'], 'capacity': round(u['cap'] * self.rng.uniform(0.2, 0.9), 1) if self.rng.random() < 0.8 else 0.0} for u in us]
        return {'rows': rows, 'cost': self.cost('uigf')}

    def rates(self, u):
        r = self.rng
        f = 60 / self.interval
        return round(u['cap'] * r.uniform(0.05, 0.8) * f, 1), round(u['cap'] * r.uniform(0.05, 0.8) * f, 1)

    def g_ramp(self):
        r = self.rng
        rows = []
        pick = self.some()
        if r.random() < 0.06:
            b = [u for u in pick if u['kind'] == 'bdu']
            pick = b or pick
        for u in pick:
            for d in self.sides(u):
                up, dn = self.rates(u)
                if r.random() < 0.05:
                    up = 0.0
                if r.random() < 0.05:
                    dn = 0.0
                rows.append(self.row(u, d, None, initial_output=u['initial'], ramp_up_rate=up, ramp_down_rate=dn))
        e = {'rows': rows, 'cost': self.cost('ramp'), 'run_type': 'no_fast_start_units', 'scada': None, 'profiles': None}
        if r.random() < 0.35:
            e['scada'] = []
            for u in pick:
                if r.random() < 0.8:
                    up, dn = self.rates(u)
                    e['scada'].append({'unit': u['name'], 'scada_ramp_up_rate': up if r.random() < 0.85 else None,
                                       'scada_ramp_down_rate': dn})
            if not e['scada']:
                e['scada'] = None
        if r.random() < 0.3:
            e['run_type'], e['profiles'] = self.profiles()
        return e

    def profiles(self):
        r = self.rng
        us = [u for u in self.units if u['kind'] == 'gen']
        us = [u for u in us if r.random() < 0.6] or us[:1]
        if r.random() < 0.5:
            return 'fast_start_first_run', [{'unit': u['name'], 'current_mode': r.randint(0, 4)} for u in us]
        rows = []
        for u in us:
            m = r.randint(0, 4)
            rows.append({'unit': u['name'], 'end_mode': m, 'min_loading': round(u['cap'] * 0.3, 1),
                         'time_since_end_of_mode_two': round(r.uniform(0, 5), 1) if (m >= 3 and r.random() < 0.6) else None})
        return 'fast_start_second_run', rows

    def g_fast_start(self):
        r = self.rng
        rows = []
        free = r.random() < 0.12        # units all past the inflexible part of their profiles
        for u in self.units:
            if u['kind'] == 'gen' and r.random() < 0.5:
                m = 5 if free else r.choice([0, 1, 2, 2, 3, 3, 4, 5])
                m2, m4 = float(r.randint(2, 10)), float(r.randint(2, 10))
                rows.append({'unit': u['name'], 'end_mode': m,
                             'time_in_end_mode': round(r.uniform(0, m2 if m == 2 else m4), 1),
                             'mode_two_length': m2, 'mode_four_length': m4, 'min_loading': round(u['cap'] * r.uniform(0.1, 0.4), 1)})
        if not rows:
            return None
        return {'rows': rows, 'cost': self.cost('fast_start')}

    def g_demand(self):
        r = self.rng
        rows = []
        for g in self.regions:
            cap = sum(u['cap'] for u in self.units if u['region'] == g and u['kind'] != 'load')
            has = any(u['region'] == g for u in self.units)
            if not has and not self.use_inters:
                continue
            d = cap * r.uniform(0.05, 0.8) if cap else r.uniform(0, 30)
            if r.random() < 0.06:
                d = cap * 1.6 + 5
            if r.random() < 0.06:
                d = -5.0
            if r.random() < 0.04:
                d = 0.0
            rows.append({'region': g, 'demand': round(d, 2)})
        self.demand = sum(x['demand'] for x in rows)
        return {'rows': rows, 'cost': self.cost('demand')}

    def g_fcas(self):
        r = self.rng
        if not self.services:
            return None
        rows = []
        for k, s in enumerate(self.services):
            regs = self.regions if r.random() < 0.5 else [r.choice(self.regions)]
            providers = [u for u in self.units if s in u['services'] and u['region'] in regs]
            vol = round(r.uniform(2, 12 * max(1, len(providers))), 1)
            ty = r.choice(['=', '>=', '>=', '<=']) if self.fcas_type else None
            rows += [dict({'set': 'F%d' % k, 'service': s, 'region': g, 'volume': vol}, **({'type': ty} if ty else {})) for g in regs]
            if r.random() < 0.15 and len(self.services) > 1:      # a requirement that several services count towards
                s2 = r.choice([x for x in self.services if x != s])
                rows += [dict(x, service=s2) for x in rows if x['set'] == 'F%d' % k]
            if r.random() < 0.25:
                g = r.choice(regs)
                rows.append(dict({'set': 'F%dx' % k, 'service': s, 'region': g, 'volume': round(vol * 0.7, 1)},
                                 **({'type': '>='} if ty else {})))
        c = self.cost('fcas')
        if c is None and r.random() < 0.7:
            c = 15000.0
        if c is not None and r.random() < 0.25:
            c = {s: round(r.choice([40.0, 500.0, 9000.0]) + k, 1) for k, s in enumerate(sorted({x['set'] for x in rows}))}
        return {'rows': rows, 'cost': c}

    fcas_type = True

    def g_fcas_max(self):
        r = self.rng
        rows = []
        for u in self.units:
            for s in u['services']:
                for d in self.sides(u):
                    if u['kind'] == 'bdu' and s in rm.CONTINGENCY and d == 'load':
                        continue
                    if r.random() < 0.8:
                        rows.append(dict(self.row(u, d, None), service=s, max_availability=round(r.uniform(0, 25), 1)))
        return {'rows': rows, 'cost': self.cost('fcas_max')} if rows else None

    def trapezium(self, u, d, s):
        r = self.rng
        lo, hi = 0.0, u['cap']
        if u['kind'] == 'bdu':
            lo = -u['cap']
            if s in ('raise_reg', 'lower_reg'):
                lo, hi = (0.0, u['cap']) if d == 'generator' else (-u['cap'], 0.0)
        w = hi - lo
        emin = lo + w * r.choice([0, 0, 0, r.uniform(0, 0.15)])
        emax = hi - w * r.choice([0, 0, r.uniform(0, 0.2)])
        a = emin + (emax - emin) * r.choice([0, r.uniform(0, 0.4)])
        b = emax - (emax - emin) * r.choice([0, r.uniform(0, 0.4)])
        return {'max_availability': round(r.uniform(3, 30), 1), 'enablement_min': round(emin, 1), 'low_break_point': round(a, 1),
                'high_break_point': round(b, 1), 'enablement_max': round(emax, 1)}

    def traps(self, services):
        rows = []
        for u in self.units:
            for s in u['services']:
                if s not in services:
                    continue
                ds = self.sides(u)
                if u['kind'] == 'bdu' and s in rm.CONTINGENCY:
                    ds = ['generator']
                for d in ds:
                    if self.rng.random() < 0.8:
                        rows.append(dict(self.row(u, d, None), service=s, **self.trapezium(u, d, s)))
        return rows

    def g_joint_cap(self):
        rows = self.traps(rm.CONTINGENCY)
        return {'rows': rows, 'cost': self.cost('joint_cap')} if rows else None

    def g_enreg(self):
        rows = self.traps(('raise_reg', 'lower_reg'))
        return {'rows': rows, 'cost': self.cost('enreg')} if rows else None

    def g_joint_ramp(self):
        r = self.rng
        rows = []
        for u in self.units:
            if any(s in ('raise_reg', 'lower_reg') for s in u['services']) and r.random() < 0.85:
                up, dn = self.rates(u)
                rows.append({'unit': u['name'], 'initial_output': u['initial'], 'scada_ramp_up_rate': up, 'scada_ramp_down_rate': dn})
        if not rows:
            return None
        e = {'rows': rows, 'cost': self.cost('joint_ramp'), 'run_type': 'no_fast_start_units', 'profiles': None}
        if r.random() < 0.3:
            e['run_type'], e['profiles'] = self.profiles()
        return e

    def g_interconnectors(self):
        r = self.rng
        if not self.inters:
            return None
        rows = []
        for i in self.inters:
            f = r.uniform(0.6, 1.0)
            if i['mnsp']:
                for k, (a, b) in enumerate([(i['from'], i['to']), (i['to'], i['from'])]):
                    rows.append({'interconnector': i['name'], 'link': '%s_%d' % (i['name'], k), 'from_region': a, 'to_region': b,
                                 'min': 0.0, 'max': round(i['max'] * f, 1), 'generic_constraint_factor': 1 if k == 0 else -1,
                                 'from_region_loss_factor': round(r.uniform(0.95, 1.0), 3) if self.inter_lf else 1.0,
                                 'to_region_loss_factor': round(r.uniform(0.95, 1.0), 3) if self.inter_lf else 1.0})
            else:
                rows.append({'interconnector': i['name'], 'link': i['name'], 'from_region': i['from'], 'to_region': i['to'],
                             'min': round(i['min'] * f, 1), 'max': round(i['max'] * f, 1),
                             'generic_constraint_factor': r.choice([1, 1, -1]),
                             'from_region_loss_factor': 1.0,
                             'to_region_loss_factor': round(r.uniform(0.95, 1.02), 3) if self.inter_lf and r.random() < 0.3 else 1.0})
        if not self.links:
            for x in rows:
                del x['link']
        if not self.inter_lf:
            for x in rows:
                del x['from_region_loss_factor'], x['to_region_loss_factor']
        if not self.links and r.random() < 0.5:
            for x in rows:
                del x['generic_constraint_factor']
        return {'rows': rows}

    def g_losses(self):
        r = self.rng
        rows, pts = [], []
        some = [i for i in self.inters if r.random() < 0.85] or self.inters[:1]
        for i in some:
            for k in range(2 if i['mnsp'] else 1):
                link = '%s_%d' % (i['name'], k) if i['mnsp'] else i['name']
                x = r.random() if not self.meshed else r.choice([0.5, 0.95])
                if x < 0.3:
                    f = {'kind': 'pct', 'a': round(r.uniform(0.01, 0.1), 3)}
                elif x < 0.93:
                    f = {'kind': 'quad', 'a': round(r.uniform(0.0002, 0.0015), 5), 'b': round(r.uniform(-0.05, 0.05), 3) if not i['mnsp'] else 0.01}
                else:
                    f = {'kind': 'bump', 'a': 0.2}
                lo, hi = (0.0, i['max']) if i['mnsp'] else (i['min'], i['max'])
                n = r.randint(2, 6) if not self.meshed else r.randint(5, 9)
                inner = sorted({round(r.uniform(lo, hi), 1) for _ in range(n - 2)})
                if r.random() < 0.4 and not i['mnsp']:
                    inner = sorted(set(inner) | {0.0})
                b = [lo] + [q for q in inner if lo < q < hi] + [hi]
                if r.random() < 0.4:      # evenly spaced, as the historical loaders make them
                    b = [round(lo + (hi - lo) * q / (n - 1), 2) for q in range(n)]
                rows.append({'interconnector': i['name'], 'link': link, 'from_region_loss_share': r.choice([0.5, round(r.random(), 2)]),
                             'loss_function': f})
                first, gap = r.choice([(1, 1), (1, 1), (0, 1), (-2, 1), (-3, 2)])      # segment numbers only need to ascend
                pts += [{'interconnector': i['name'], 'link': link, 'loss_segment': first + gap * q, 'break_point': v}
                        for q, v in enumerate(b)]
        if not self.links:
            for x in rows + pts:
                del x['link']
        return {'rows': rows, 'points': pts}

    def g_generic(self):
        r = self.rng
        n = r.randint(1, 3)
        tot = sum(u['cap'] for u in self.units)
        rows = [{'set': 'G%d' % k, 'type': r.choice(['<=', '<=', '>=', '>=', '=']), 'rhs': round(tot * r.uniform(0.02, 0.35), 1)}
                for k in range(n)]
        c = self.cost('generic')
        if c is None and r.random() < 0.7:
            c = 9000.0
        if self.prop in ('P11', 'P14', 'P19', 'P16') and r.random() < 0.6:      # hard, but meant to be satisfiable
            c = None
            for x in rows:
                x['type'], x['rhs'] = r.choice([('<=', x['rhs']), ('>=', -x['rhs']), ('<=', 0.0), ('>=', 0.0)])
        if self.tight and self.demand is not None:
            rows[0].update(type='<=', rhs=round(self.demand - r.uniform(0.02, 0.9), 2))
            c = c or 9000.0
        if c is not None and r.random() < 0.3:
            c = {x['set']: round(r.choice([30.0, 700.0, 12000.0]), 1) for x in rows if r.random() < 0.8}
            if not c:
                c = {rows[0]['set']: 700.0}
        return {'rows': rows, 'cost': c}

    def coef(self):
        return self.rng.choice([1.0, 1.0, -1.0, round(self.rng.uniform(-2, 2), 2)]) or 1.0

    def sets(self):
        return ['G0', 'G1', 'G2'] + (['F0'] if self.services and self.rng.random() < 0.2 else [])

    def g_link_units(self):
        r = self.rng
        rows = []
        for s in self.sets():
            for u in self.units:
                if r.random() < 0.55 or (s == 'G0' and u is self.units[0]):
                    sv = r.choice(['energy', 'energy'] + u['services'])
                    rows.append({'set': s, 'unit': u['name'], 'service': sv, 'coefficient': self.coef()})
        return {'rows': rows} if rows else None

    def g_link_regions(self):
        r = self.rng
        rows = [{'set': s, 'region': g, 'service': r.choice(['energy'] + self.services), 'coefficient': self.coef()}
                for s in self.sets() for g in self.regions if r.random() < 0.3]
        if self.tight:
            rows = [x for x in rows if x['set'] != 'G0']
            rows += [{'set': 'G0', 'region': g, 'service': 'energy', 'coefficient': 1.0} for g in self.regions]
        return {'rows': rows} if rows else None

    def g_link_inters(self):
        r = self.rng
        rows = [{'set': s, 'interconnector': i['name'], 'coefficient': self.coef()}
                for s in self.sets() for i in self.inters if r.random() < 0.4]
        return {'rows': rows} if rows else None

    def g_tie_break(self):
        return {'rows': [], 'cost': self.rng.choice([1e-3, 1.0, 20.0])}

    # ---- whole market
    def features(self):
        r = self.rng
        self.use_inters = bool(self.inters) and r.random() < 0.85
        self.links = any(i['mnsp'] for i in self.inters) or r.random() < 0.5
        self.inter_lf = r.random() < (0.7 if any(i['mnsp'] for i in self.inters) else 0.2)
        if self.prop == 'P18' and self.inters:
            self.use_inters = True
        self.fcas_type = r.random() < 0.8
        f = ['volume_bids', 'price_bids', 'demand']
        if self.tight and r.random() < 0.8:
            f.append('generic')
            self.inters, self.use_inters = [], False
        p = {'capacity': 0.4, 'uigf': 0.2, 'ramp': 0.45, 'fast_start': 0.2, 'generic': 0.45, 'tie_break': 0.25 if not self.ties else 0.7}
        for k, q in p.items():
            if r.random() < q and k not in f:
                f.append(k)
        if 'generic' in f:
            f += [k for k in ('link_units', 'link_regions', 'link_inters') if r.random() < 0.7]
            if self.tight:
                f = [k for k in f if k not in ('link_units', 'link_regions', 'link_inters')] + ['link_regions']
        if self.services:
            for k, q in {'fcas': 0.9, 'fcas_max': 0.6, 'joint_ramp': 0.5, 'joint_cap': 0.6, 'enreg': 0.6}.items():
                if r.random() < (q if self.prop not in ('P23', 'P25') else 0.5 + q / 2):
                    f.append(k)
        if self.use_inters:
            f.append('interconnectors')
            if r.random() < (0.9 if self.prop in ('P18', 'P13') else 0.7):
                f.append('losses')
        return f

    def step(self, m, what):
        e = self.make(what)
        if e is None:
            return None
        return {'op': 'set', 'm': m, 'what': what, 'in': e, 'idx': self.rng.random() < 0.2, 'named': self.rng.random() < 0.3}


BAD_KINDS = ['unknown', 'missing', 'extra', 'nan', 'duplicate', 'negative', 'dtype', 'inf', 'cost-text', 'one-sided', 'bad-run-type',
             'unknown-key', 'bad-loss', 'not-increasing', 'above-one', 'repeat-point']
BAD_WHAT = {'not-increasing': ['price_bids'], 'above-one': ['losses'], 'repeat-point': ['losses'], 'bad-loss': ['losses'],
            'bad-run-type': ['ramp', 'joint_ramp'], 'one-sided': ['volume_bids', 'price_bids', 'ramp']}
TABLE_KINDS = ['unknown', 'missing', 'extra', 'nan', 'duplicate', 'negative', 'dtype', 'inf', 'not-increasing', 'above-one',
               'repeat-point']
# what the documentation of each table refuses. s/f/i/c: type text, float, integer, callable; r: no inf or null; n: no negative values;
# a: only known names; k: at most one row for each; o: may be left out. Only what is documented and meant is listed: the documented
# refusal of negative demands, requirements and enablement limits is a slip (they are normal), and of null scada ramp rates too.
_TRAP = {'unit': 'sak', 'service': 'sak', 'dispatch_type': 'sako', 'max_availability': 'frn', 'enablement_min': 'fr',
         'low_break_point': 'fr', 'high_break_point': 'fr', 'enablement_max': 'fr'}
TABLES = {
    'unit_info': {'unit': 'sk', 'region': 'sa', 'loss_factor': 'frno', 'dispatch_type': 'sako'},
    'volume_bids': {'unit': 'sak', 'service': 'sako', 'dispatch_type': 'sako', '1': 'frn', '2': 'frno', '3': 'frno'},
    'price_bids': {'unit': 'sak', 'service': 'sako', 'dispatch_type': 'sako', '1': 'fr', '2': 'fro', '3': 'fro'},
    'capacity': {'unit': 'sak', 'dispatch_type': 'sako', 'capacity': 'frn'},
    'uigf': {'unit': 'sak', 'capacity': 'frn'},
    'ramp': {'unit': 'sak', 'dispatch_type': 'sako', 'initial_output': 'fr', 'ramp_up_rate': 'fr', 'ramp_down_rate': 'fr'},
    'scada': {'unit': 'sak', 'scada_ramp_up_rate': 'fo', 'scada_ramp_down_rate': 'fo'},
    'profiles1': {'unit': 'sak', 'current_mode': 'in'},
    'profiles2': {'unit': 'sak', 'end_mode': 'in', 'min_loading': 'frn', 'time_since_end_of_mode_two': 'fn'},
    'joint_ramp': {'unit': 'sak', 'initial_output': 'f', 'scada_ramp_up_rate': 'f', 'scada_ramp_down_rate': 'f'},
    'fast_start': {'unit': 'sak', 'end_mode': 'in', 'time_in_end_mode': 'frn', 'mode_two_length': 'frn', 'mode_four_length': 'frn',
                   'min_loading': 'frn'},
    'demand': {'region': 'sak', 'demand': 'fr'},
    'fcas': {'set': 'sk', 'region': 'sak', 'service': 'sak', 'volume': 'fr', 'type': 'sao'},
    'fcas_max': {'unit': 'sak', 'service': 'sak', 'dispatch_type': 'sako', 'max_availability': 'frn'},
    'joint_cap': _TRAP, 'enreg': _TRAP,
    'interconnectors': {'interconnector': 'sk', 'link': 'sko', 'to_region': 'sa', 'from_region': 'sa', 'max': 'fr', 'min': 'fr',
                        'generic_constraint_factor': 'io', 'from_region_loss_factor': 'frno', 'to_region_loss_factor': 'frno'},
    'losses': {'interconnector': 'sk', 'link': 'sko', 'loss_function': 'c', 'from_region_loss_share': 'frn'},
    'points': {'interconnector': 'sk', 'link': 'sko', 'loss_segment': 'ik', 'break_point': 'fr'},
    'generic': {'set': 'sk', 'type': 's', 'rhs': 'fr'},
    'link_units': {'set': 'sk', 'unit': 'sak', 'service': 'sak', 'coefficient': 'fr'},
    'link_regions': {'set': 'sk', 'region': 'sak', 'service': 'sak', 'coefficient': 'fr'},
    'link_inters': {'set': 'sk', 'interconnector': 'sk', 'coefficient': 'fr'},
    'cost': {'set': 'sk', 'cost': 'fr'},
}


class MarketWorld(World):
    name = 'market'
    real = ['nempy.markets.SpotMarket', 'nempy.spot_market_backend.*', 'CBC through mip (except injected solver failures)']
    stub = ['solver status and solver crashes at injected solves']
    rule = ('one evaluation = one seeded history of market operations (sets, replacements, rejected inputs, solver failures, '
            'caller mutations, interleaved markets) with every reported dispatch judged; distinct non-trivial = distinct event logs')
    state_measure = 'hash of the inputs in force of all markets at each dispatch'
    own = {
        'P11': {'limit-violated', 'bad-report', 'fcas-undeliverable', 'losses-inconsistent'},
        'P12': {'not-least-cost', 'wrong-objective', 'needless-violation', 'dispatch-failed', 'setter-failed', 'limit-violated',
                'fcas-undeliverable', 'losses-inconsistent'},
        'P13': {'wrong-price', 'dispatch-failed'},
        'P14': {'solver-failure-hidden', 'infeasible-accepted', 'stuck-after-failure'} | {'after:' + c for c in PROBLEMS},
        'P15': {'malformed-accepted', 'rejection-failed'} | {'after:' + c for c in PROBLEMS},
        'P16': {'caller-modified', 'result-aliased'} | {'after:' + c for c in PROBLEMS},
        'P17': {'wrong-violation', 'needless-violation', 'limit-violated', 'fcas-undeliverable'},
        'P18': {'losses-inconsistent', 'wrong-summary'},
        'P19': {'after:' + c for c in PROBLEMS},
        'P23': {'fcas-undeliverable'},
        'P25': {'wrong-availability'},
        'P24': {'rerun-changed-dispatch', 'rerun-changed-price', 'wrong-rerun-price', 'rerun-failed'},
    }

    # ---- scenario generation
    def generate(self, rng, prop, tier):
        g = Gen(rng, prop)
        feats = g.features()
        cfg = g.cfg()
        n_markets = 2 if prop == 'P16' or rng.random() < 0.15 else 1
        seqs = []
        chosen = []
        for m in range(n_markets):
            if m == 1 and rng.random() < 0.6:      # the same tables handed to both markets
                seq = [dict(copy.deepcopy(s), m=1) for s in seqs[0]]
                if rng.random() < 0.5:
                    seq = [s for s in seq if s['what'] in ('volume_bids', 'price_bids', 'demand', 'interconnectors', 'losses')
                           or rng.random() < 0.7]
            else:
                fs = list(feats) if m == 0 else [f for f in feats if f in ('volume_bids', 'price_bids', 'demand', 'interconnectors', 'losses')
                                                 or rng.random() < 0.6]
                fs = self.order(rng, fs)
                seq = [s for s in (g.step(m, f) for f in fs) if s]
            seqs.append(seq)
            chosen.append([s['what'] for s in seq])
        # merge the two clients' operations in a random order
        steps = [{'op': 'new', 'm': m, 'm2': 0} for m in range(n_markets)]
        queues = [list(s) for s in seqs]
        while any(queues):
            m = rng.choice([k for k, q in enumerate(queues) if q])
            steps.append(queues[m].pop(0))
            self.noise(rng, prop, g, steps, m, 0.10)
        for m in range(n_markets):
            steps.append(self.dispatch_step(rng, prop, m))
        rounds = rng.randint(1, 3) if tier == 'quick' else rng.randint(1, 6)
        if prop in ('P13', 'P18', 'P23', 'P24', 'P25') and rng.random() < 0.5:
            rounds = 0
        for _ in range(rounds):
            m = rng.randrange(n_markets)
            for _ in range(rng.randint(1, 3)):
                self.replace(rng, g, steps, m, chosen[m], feats)
                self.noise(rng, prop, g, steps, m, 0.25)
            steps.append(self.dispatch_step(rng, prop, m))
        for m in range(n_markets):
            steps.append({'op': 'dispatch', 'm': m, 'faults': []})
        if prop == 'P24':
            for s in steps:
                if s['op'] == 'dispatch':
                    s['rerun'] = {'ceiling': rng.choice([150.0, 300.0, 15000.0]), 'floor': rng.choice([-1000.0, -30.0, 0.0]),
                                  'fcas': rng.choice([30.0, 300.0, 15000.0]),
                                  'near': rng.choice([None, None, 'floor', 'ceiling', 'fcas']), 'by': rng.choice([-0.25, 0.25])}
        for s in steps:
            s.setdefault('faults', [])
        return {'world': 'market', 'cfg': cfg, 'steps': steps}

    def order(self, rng, fs):
        """a random order that respects what must be set before what"""
        fs = list(fs)
        rng.shuffle(fs)
        out = []
        while fs:
            for f in fs:
                n = NEEDS.get(f)
                if n is None or n in out:
                    out.append(f)
                    fs.remove(f)
                    break
            else:
                raise HarnessError('order %s' % fs)
        # dependents that were set before what they depend on changed are impossible here: everything is set once
        return out

    def replace(self, rng, g, steps, m, chosen, feats):
        pool = chosen + [f for f in feats if f not in chosen]
        x = rng.random()
        if x < 0.12:
            keys = [k for w in chosen for k in ELASTIC_KEYS.get(w, []) if w not in ('ramp', 'joint_ramp', 'fast_start')]
            if keys:
                key, cost = rng.choice(keys), rng.choice([25.0, 800.0, 20000.0, 1000000.0])
                if key in ('generic', 'fcas') and rng.random() < 0.5:      # the sets a table does not name are no longer elastic
                    cost = {'%s%d' % (key[0].upper(), k): cost for k in range(3) if rng.random() < 0.4} or {'other': cost}
                steps.append({'op': 'elastic', 'm': m, 'key': key, 'cost': cost})
                return
        if x < 0.18 and 'fast_start' in chosen:
            steps.append({'op': 'remove_fast_start', 'm': m})
            chosen.remove('fast_start')
            return
        what = rng.choice(pool)
        todo = [what]
        for d in DEPENDENTS.get(what, []):
            if d in chosen and d not in todo:
                todo.append(d)
        if 'price_bids' in todo and 'tie_break' in chosen and 'tie_break' not in todo:
            todo.append('tie_break')
        for w in todo:
            s = g.step(m, w)
            if s is None:
                continue
            steps.append(s)
            if w not in chosen:
                chosen.append(w)

    def noise(self, rng, prop, g, steps, m, p):
        if prop == 'P15':
            p = max(p, 0.3)
        if rng.random() < p * (1.0 if prop == 'P15' else 0.35):
            for _ in range(rng.randint(1, 4) if prop == 'P15' else 1):
                kind = rng.choice(BAD_KINDS)
                what = rng.choice(BAD_WHAT.get(kind, ORDER[:-1]))
                e = g.make(what) if not (what in ('losses',) and not g.inters) else None
                if e is not None:
                    steps.append({'op': 'bad', 'm': m, 'what': what, 'kind': kind, 'in': e, 'pick': rng.randint(0, 9999)})
        if prop == 'P15' and rng.random() < 0.12:
            steps.append({'op': 'bad_new', 'm': m, 'kind': rng.choice(TABLE_KINDS), 'pick': rng.randint(0, 9999)})
        if rng.random() < p * (1.0 if prop == 'P16' else 0.2):
            steps.append({'op': 'scribble', 'm': m, 'how': rng.choice(['scale', 'drop', 'columns']), 'returned': rng.random() < 0.5})

    def dispatch_step(self, rng, prop, m):
        s = {'op': 'dispatch', 'm': m, 'faults': []}
        if rng.random() < (0.6 if prop == 'P14' else 0.08):
            s['faults'].append({'at': rng.choice([0, 1, 1, 2]), 'kind': rng.choice(
                ['infeasible', 'no-solution', 'error', 'unbounded', 'stopped-early', 'raises', 'other']), 'lasting': rng.choice([None, 'all', 'reduced'])})
            if rng.random() < 0.4:
                s['rerun'] = {'ceiling': 100.0, 'floor': 0.0, 'fcas': 10.0}
        return s

    def nontrivial(self, ctx):
        return bool(ctx.probes)

    def execute(self, s, prop, ctx):
        Run(s, prop, ctx).go()

    def simplify(self, s):
        """drop rows of tables, violation prices and options"""
        for i, st in enumerate(s['steps']):
            if st['op'] in ('set', 'bad') and len(st['in'].get('rows', [])) > 1:
                for k in range(len(st['in']['rows'])):
                    c = copy.deepcopy(s)
                    del c['steps'][i]['in']['rows'][k]
                    yield c
            if st['op'] == 'set' and st.get('idx'):
                c = copy.deepcopy(s)
                c['steps'][i]['idx'] = False
                yield c


# ------------------------------------------------------------------------------------------------------------ execution
def frame(rows, idx=False):
    import numpy as np
    import pandas as pd
    cols = []
    for r in rows:
        for c in r:
            if c not in cols:
                cols.append(c)
    data = {}
    for c in cols:
        v = [r.get(c) for r in rows]
        if c in INT_COLS:
            data[c] = np.array(v, dtype=np.int64)
        elif c in STR_COLS:
            data[c] = v
        elif c == 'loss_function':
            data[c] = [loss_callable(x) for x in v]
        else:
            data[c] = np.array([np.nan if x is None else x for x in v], dtype=np.float64)
    df = pd.DataFrame(data)
    if idx:
        df.index = list(range(len(df) + 3, 3, -1))
    return df


def loss_callable(spec):
    if spec == 'failing':
        return _failing_loss
    spec = dict(spec)

    def loss(flow):
        return rm.loss_at(spec, flow)
    return loss


def same(a, b):
    """tables identical: columns, index, types and values"""
    if list(a.columns) != list(b.columns) or list(a.index) != list(b.index) or list(a.dtypes) != list(b.dtypes):
        return False
    return a.equals(b)


class Slot:
    def __init__(self, market):
        self.market = market
        self.inp = {}
        self.stale = set()
        self.after = set()     # kinds of disturbance in this market's history
        self.dispatched = False
        self.handed = []


class Fault(Exception):
    pass


class Run:
    def __init__(self, s, prop, ctx):
        self.s, self.prop, self.ctx, self.cfg = s, prop, ctx, s['cfg']
        self.slots = {}
        self.pool = {}
        self.returned = []
        self.fault_plan = {}
        self.lasting_at, self.lasting = {}, None
        self.solves = 0
        self.hit = None

    # ---- solver seam
    def solver(self, model, real):
        import mip
        k = self.solves
        self.solves += 1
        f = self.fault_plan.get(k)
        if f is None and self.lasting:
            # a solver that keeps failing: from then on, or on versions of the same model with rows taken out
            f, mode, rows = self.lasting
            if mode == 'reduced' and model.num_rows >= rows:
                f = None
        if f is None:
            return real()
        if self.hit is None:
            self.ctx.fault('solver-' + f)
            self.hit = (k, f)
            if self.lasting_at.get(k):
                self.ctx.fault('solver-keeps-failing')
                self.lasting = (f, self.lasting_at[k], model.num_rows)
        S = mip.OptimizationStatus
        if f == 'raises':
            raise Fault('the solver library failed')
        if f == 'stopped-early':
            real()
            return S.FEASIBLE
        return {'infeasible': S.INFEASIBLE, 'no-solution': S.NO_SOLUTION_FOUND, 'error': S.ERROR, 'unbounded': S.UNBOUNDED,
                'other': S.OTHER}[f]

    BLAMABLE = {'dispatch-failed', 'not-least-cost', 'needless-violation', 'wrong-objective', 'limit-violated', 'fcas-undeliverable',
                'losses-inconsistent'}

    def plain_solver(self, model, real):
        """solver seam: branch without preprocessing and cuts, where this build of CBC goes wrong now and then"""
        model.preprocess, model.cuts = 0, 0
        return real()

    def solver_to_blame(self, slot, st, problem, best, probs):
        """does the same dispatch come out right once the solver is told to solve the very same model more plainly?
        Only then (and only if repeating the dispatch unchanged repeats the problem) the model was right."""
        if not {c for c, _ in probs} & self.BLAMABLE:
            return False

        def again(seam):
            err = self.dispatch(slot.market, st.get('rerun'), seam=seam)
            if err is not None:
                return {'dispatch-failed'}
            return {c for c, _ in self.judge(slot, problem, best, self.read(slot.market, slot.inp), bool(st.get('rerun')))}
        return bool(again(None) & self.BLAMABLE) and not again(self.plain_solver)

    def quiet(self, fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)

    # ---- steps
    def go(self):
        import warnings
        warnings.simplefilter('ignore')
        from nempy import markets
        self.mod = markets
        for i, st in enumerate(self.s['steps']):
            self.ctx.sim_time += 300
            if st['op'] != 'new' and st['m'] not in self.slots:
                continue
            getattr(self, 'do_' + st['op'])(i, st)

    def unit_info(self):
        rows = self.cfg['units']
        if not self.cfg['dt']:
            rows = [{k: v for k, v in r.items() if k != 'dispatch_type'} for r in rows]
        key = 'unit_info'
        if key not in self.pool:
            self.pool[key] = frame(rows)
        return self.pool[key]

    def hand(self, rows, idx=False):
        key = json.dumps([rows, idx], sort_keys=False)
        if key not in self.pool:
            self.pool[key] = frame(rows, idx)
        return self.pool[key]

    def do_new(self, i, st):
        ui = self.unit_info()
        before = ui.copy()
        regions = list(self.cfg['regions'])
        try:
            m = self.mod.SpotMarket(regions, ui, dispatch_interval=self.cfg['interval'])
        except Exception as e:
            self.ctx.ev(i, 'new', st['m'], 'raised', type(e).__name__, e)
            self.ctx.check(False, 'after:setter-failed' if self.slots else 'setter-failed',
                           'creating a market failed: %s: %s' % (type(e).__name__, e))
        self.ctx.check(same(ui, before), 'caller-modified', 'creating a market changed the unit_info table of the caller: columns %s '
                       'became %s' % (list(before.columns), list(ui.columns)))
        self.slots[st['m']] = Slot(m)
        self.slots[st['m']].handed = [('unit_info', ui), ('regions', regions)]
        self.ctx.ev(i, 'new', st['m'])

    def args(self, what, e, idx):
        """(method name, args, kwargs)"""
        H = lambda rows: self.hand(rows, idx)
        c = e.get('cost')
        if isinstance(c, dict):
            c = self.hand([{'set': k, 'cost': v} for k, v in c.items()])
        kw = {} if c is None else {'violation_cost': c}
        if what == 'volume_bids':
            return 'set_unit_volume_bids', [H(e['rows'])], {}
        if what == 'price_bids':
            return 'set_unit_price_bids', [H(e['rows'])], {}
        if what == 'capacity':
            return 'set_unit_bid_capacity_constraints', [H(e['rows'])], kw
        if what == 'uigf':
            return 'set_unconstrained_intermittent_generation_forecast_constraint', [H(e['rows'])], kw
        if what in ('ramp', 'joint_ramp'):
            if e['run_type'] != 'no_fast_start_units':
                kw = dict(kw, run_type=e['run_type'], fast_start_profiles=H(e['profiles']))
            if what == 'ramp':
                if e['scada']:
                    kw = dict(kw, scada_ramp_rates=H(e['scada']))
                return 'set_unit_ramp_rate_constraints', [H(e['rows'])], kw
            return 'set_joint_ramping_constraints_reg', [H(e['rows'])], kw
        if what == 'losses':
            return 'set_interconnector_losses', [H(e['rows']), H(e['points'])], {}
        if what == 'tie_break':
            return 'set_tie_break_constraints', [e['cost']], {}
        name = {'fast_start': 'set_fast_start_constraints', 'demand': 'set_demand_constraints',
                'fcas': 'set_fcas_requirements_constraints', 'fcas_max': 'set_fcas_max_availability',
                'joint_cap': 'set_joint_capacity_constraints', 'enreg': 'set_energy_and_regulation_capacity_constraints',
                'interconnectors': 'set_interconnectors', 'generic': 'set_generic_constraints',
                'link_units': 'link_units_to_generic_constraints', 'link_regions': 'link_regions_to_generic_constraints',
                'link_inters': 'link_interconnectors_to_generic_constraints'}[what]
        return name, [H(e['rows'])], kw

    def call(self, slot, name, args, kw):
        """call an operation and verify the tables handed over are untouched; returns the exception or None"""
        import pandas as pd
        frames = [a for a in list(args) + list(kw.values()) if isinstance(a, pd.DataFrame)]
        before = [f.copy() for f in frames]
        err = None
        try:
            self.quiet(getattr(slot.market, name), *args, **kw)
        except Exception as e:
            err = e
        for f, b in zip(frames, before):
            self.ctx.check(same(f, b), 'caller-modified', '%s changed a table of the caller: columns %s became %s%s' % (
                name, list(b.columns), list(f.columns), '' if err is None else ' (the call failed with %s)' % type(err).__name__))
            slot.handed.append((name, f))
        return err

    def ready(self, slot, what):
        """can this be set now, given what it is defined on"""
        n = NEEDS.get(what)
        return n is None or (n in slot.inp and n not in slot.stale)

    def do_set(self, i, st):
        slot, what, e = self.slots[st['m']], st['what'], st['in']
        if not self.ready(slot, what) or not self.wellformed(slot, what, e):
            return
        name, args, kw = self.args(what, e, st.get('idx'))
        if st.get('named'):
            kw = dict(zip(inspect.signature(getattr(slot.market, name)).parameters, args), **kw)
            args = []
        err = self.call(slot, name, args, kw)
        self.ctx.ev(i, 'set', st['m'], what, 'rows=%d' % len(e['rows']), 'cost=%s' % (e.get('cost'),),
                    'ok' if err is None else 'raised %s' % type(err).__name__)
        if err is not None:
            self.problem(i, slot, [('setter-failed', '%s with valid input failed: %s: %s' % (name, type(err).__name__, err))], None,
                         pending=(what, e))
        if what in slot.inp:
            slot.after.add('replaced')
        slot.inp[what] = copy.deepcopy(e)
        slot.stale.discard(what)
        for d in DEPENDENTS.get(what, []):
            if d in slot.inp:
                slot.stale.add(d)

    def wellformed(self, slot, what, e):
        """scenarios shrunk by the minimiser may have become malformed"""
        if not e.get('rows') and what != 'tie_break':
            return False
        bdu = {u['unit'] for u in self.cfg['units'] if u['dispatch_type'] == 'load'} & \
              {u['unit'] for u in self.cfg['units'] if u['dispatch_type'] == 'generator'}
        if what in ('volume_bids', 'price_bids', 'ramp'):
            n = {}
            for r in e['rows']:
                if r.get('service', 'energy') == 'energy' and r['unit'] in bdu:
                    n[r['unit']] = n.get(r['unit'], 0) + 1
            if any(v != 2 for v in n.values()):
                return False
        if what == 'volume_bids' and not any(r.get('service', 'energy') == 'energy' for r in e['rows']):
            return False
        if what == 'losses':
            have = {(r['interconnector'], r.get('link', r['interconnector'])) for r in slot.inp['interconnectors']['rows']}
            mine = {(r['interconnector'], r.get('link', r['interconnector'])) for r in e['rows']}
            pts = {(r['interconnector'], r.get('link', r['interconnector'])) for r in e['points']}
            return mine <= have and mine == pts
        return True

    def do_elastic(self, i, st):
        slot = self.slots[st['m']]
        what = next(w for w, ks in ELASTIC_KEYS.items() if st['key'] in ks)
        if what not in slot.inp or what in slot.stale:
            return
        if what == 'tie_break' and not [r for r in rm.build(self.cfg, slot.inp).rows if r.group == 'tie_break']:
            return
        cost = st['cost']
        if isinstance(cost, dict):
            cost = self.hand([{'set': k, 'cost': v} for k, v in cost.items()])
        err = self.call(slot, 'make_constraints_elastic', [st['key'], cost], {})
        self.ctx.ev(i, 'elastic', st['m'], st['key'], st['cost'], 'ok' if err is None else 'raised %s' % type(err).__name__)
        if err is not None:
            self.problem(i, slot, [('setter-failed', 'make_constraints_elastic(%r) failed: %s: %s' % (st['key'], type(err).__name__, err))], None)
        slot.inp[what] = dict(slot.inp[what], cost=st['cost'])
        slot.after.add('replaced')

    def do_remove_fast_start(self, i, st):
        slot = self.slots[st['m']]
        err = self.call(slot, 'remove_fast_start_constraints', [], {})
        self.ctx.ev(i, 'remove fast start', st['m'], 'ok' if err is None else 'raised %s' % type(err).__name__)
        if err is not None:
            self.problem(i, slot, [('setter-failed', 'remove_fast_start_constraints failed: %s' % err)], None)
        slot.inp.pop('fast_start', None)
        slot.after.add('replaced')

    # ---- rejected inputs
    def spoil(self, what, kind, e, pick):
        """a malformed variant of a valid input made by changing the entry itself, or None"""
        e = copy.deepcopy(e)
        rows = e['rows']
        k = pick % max(1, len(rows))
        if kind == 'cost-text':
            if 'cost' not in e:
                return None
            return dict(e, cost=['much', True][pick % 2])
        if kind == 'one-sided':
            if what not in ('volume_bids', 'price_bids', 'ramp'):
                return None
            two = [u['unit'] for u in self.cfg['units'] if u['dispatch_type'] == 'load' and
                   any(x['unit'] == u['unit'] and x['dispatch_type'] == 'generator' for x in self.cfg['units'])]
            for r in rows:
                if r['unit'] in two and r.get('service', 'energy') == 'energy':
                    rows.remove(r)
                    return e
            return None
        if kind == 'bad-run-type':
            if what not in ('ramp', 'joint_ramp'):
                return None
            return dict(e, run_type='fast_start_third_run', profiles=[{'unit': rows[0]['unit']}])
        if kind == 'bad-loss':
            if what != 'losses':
                return None
            rows[k]['loss_function'] = 'failing'
            return e
        return e

    @staticmethod
    def spoil_table(table, kind, df, pick):
        """a malformed variant of a valid table, or None: what the documentation of the operation says is refused"""
        import numpy as np
        import pandas as pd
        if df is None or not len(df):
            return None
        r = random.Random(pick)
        spec = {c: f for c, f in TABLES[table].items() if c in df.columns}
        df = df.copy()
        k = r.randrange(len(df))

        def column(test):
            cs = [c for c, f in spec.items() if test(f)]
            return r.choice(cs) if cs else None

        def put(c, v):
            x = list(df[c])
            x[k] = v
            df[c] = pd.Series(x, index=df.index, dtype=df[c].dtype)
            return df
        if kind == 'missing':
            c = column(lambda f: 'o' not in f)
            return df.drop(columns=[c])
        if kind == 'extra':
            df['comment'] = 1.0
            return df
        if kind in ('nan', 'inf'):
            c = column(lambda f: 'f' in f and 'r' in f)
            return c and put(c, np.nan if kind == 'nan' else r.choice([np.inf, -np.inf]))
        if kind == 'negative':
            c = column(lambda f: 'n' in f)
            return c and put(c, -1 if 'i' in spec[c] else r.choice([-1.0, -0.01]))
        if kind == 'unknown':
            c = column(lambda f: 'a' in f)
            return c and put(c, r.choice(['NOBODY', '']))
        if kind == 'duplicate':
            if not any('k' in f for f in spec.values()):
                return None
            extra = df.iloc[[k]].copy()
            if r.random() < 0.6:
                for c, f in spec.items():
                    if 'k' not in f and 'f' in f:
                        extra[c] = extra[c] * 0.5 + 1.0 if c != 'from_region_loss_share' else 0.25
            return pd.concat([df, extra])
        if kind == 'dtype':
            c = column(lambda f: True)
            if 's' in spec[c]:
                return put(c, r.choice([7, 1.5, True]))
            if 'c' in spec[c]:
                return put(c, 0.05)
            if 'i' in spec[c]:
                df[c] = df[c].astype(float) if r.random() < 0.5 else df[c].astype(str)
            else:
                df[c] = df[c].astype(str) if r.random() < 0.5 else df[c].fillna(1.0).round().astype('int64')
            return df
        if kind == 'not-increasing':
            bands = [b for b in '123' if b in df.columns]
            if table != 'price_bids' or len(bands) < 2:
                return None
            a, b = sorted(r.sample(range(len(bands)), 2))
            lo, hi = df[bands[a]].iloc[k], df[bands[b]].iloc[k]
            if lo == hi:
                return put(bands[a], hi + 0.5)
            put(bands[a], hi)
            return put(bands[b], lo)
        if kind == 'above-one':
            return put('from_region_loss_share', r.choice([1.0001, 2.0])) if table == 'losses' else None
        if kind == 'repeat-point':
            if table != 'points':
                return None
            extra = df.iloc[[k]].copy()
            extra['loss_segment'] = 99
            return pd.concat([df, extra])
        return None

    def tables_of(self, what, args, kw):
        """the tables of a call: where each is passed, and what its documentation calls it"""
        import pandas as pd
        out = [(what, ('a', 0))]
        if what == 'losses':
            out.append(('points', ('a', 1)))
        if 'fast_start_profiles' in kw:
            out.append(('profiles1' if kw['run_type'] == 'fast_start_first_run' else 'profiles2', ('k', 'fast_start_profiles')))
        if 'scada_ramp_rates' in kw:
            out.append(('scada', ('k', 'scada_ramp_rates')))
        if isinstance(kw.get('violation_cost'), pd.DataFrame):
            out.append(('cost', ('k', 'violation_cost')))
        return out

    def do_bad_new(self, i, st):
        """malformed unit_info"""
        rows = self.cfg['units']
        if not self.cfg['dt']:
            rows = [{k: v for k, v in r.items() if k != 'dispatch_type'} for r in rows]
        df = self.spoil_table('unit_info', st['kind'], frame(rows), st['pick'])
        if df is None:
            return
        err = None
        try:
            self.mod.SpotMarket(list(self.cfg['regions']), df, dispatch_interval=self.cfg['interval'])
        except Exception as e:
            err = e
        self.ctx.fault('rejected-input-' + st['kind'])
        self.ctx.ev(i, 'bad_new', st['kind'], 'accepted' if err is None else 'raised %s' % type(err).__name__)
        self.ctx.check(err is not None, 'malformed-accepted', 'a market was made with malformed unit_info (%s)' % st['kind'])

    def do_bad(self, i, st):
        slot, what, kind = self.slots[st['m']], st['what'], st['kind']
        where = what
        if kind == 'unknown-key':
            name, args, kw = 'make_constraints_elastic', ['no_such_constraints', 10.0], {}
        elif not self.ready(slot, what):
            if what in ('price_bids', 'capacity', 'uigf') and 'volume_bids' not in slot.inp:
                kind = 'order'      # set before what it is defined on
                name, args, kw = self.args(what, st['in'], False)
            else:
                return
        else:
            e = self.spoil(what, kind, st['in'], st['pick'])
            if e is None or (what == 'losses' and not self.losses_fit(slot, e)):
                return
            if kind == 'cost-text' and 'volume_bids' not in slot.inp:
                return
            if kind == 'cost-text' and not any(r.group in ELASTIC_KEYS[what] for r in rm.build(
                    self.cfg, dict(slot.inp, **{what: dict(e, cost=None)})).rows):
                return      # no constraint for the price to apply to
            try:
                name, args, kw = self.args(what, e, False)
            except Exception:
                raise HarnessError('bad input %s %s could not be made' % (what, kind))
            args = list(args)
            if kind in TABLE_KINDS:
                tables = self.tables_of(what, args, kw)
                if st['pick'] % 3 == 0 or kind == 'repeat-point':      # prefer the tables that come with the first
                    tables.reverse()
                elif len(tables) > 2 and st['pick'] % 3 == 1:
                    tables = tables[1:] + tables[:1]
                for where, (how, at) in tables:
                    df = self.spoil_table(where, kind, args[at] if how == 'a' else kw[at], st['pick'])
                    if df is not None:
                        if how == 'a':
                            args[at] = df
                        else:
                            kw = dict(kw, **{at: df})
                        break
                else:
                    return
                if where == 'cost' and 'volume_bids' not in slot.inp:
                    return
                if where == 'cost' and not any(r.group in ELASTIC_KEYS[what] for r in rm.build(
                        self.cfg, dict(slot.inp, **{what: dict(e, cost=None)})).rows):
                    return
        err = self.call(slot, name, args, kw)
        self.ctx.fault('rejected-input-' + kind)
        self.ctx.ev(i, 'bad', st['m'], what, where, kind, 'accepted' if err is None else 'raised %s' % type(err).__name__)
        self.ctx.check(err is not None, 'malformed-accepted', '%s accepted malformed input (%s in %s)' % (name, kind, where))
        slot.after.add('rejected')

    def losses_fit(self, slot, e):
        have = {(r['interconnector'], r.get('link', r['interconnector'])) for r in slot.inp['interconnectors']['rows']}
        return all((r['interconnector'], r.get('link', r['interconnector'])) in have for r in e['rows'])

    # ---- caller changes tables it handed over or got back
    def do_scribble(self, i, st):
        slot = self.slots[st['m']]
        targets = self.returned if st['returned'] else [f for n, f in slot.handed]
        if st['returned']:
            self.returned = []
        else:
            gone = {id(f) for f in targets}
            self.pool = {k: v for k, v in self.pool.items() if id(v) not in gone}
            slot.handed = []
        for f in targets:
            scribble(f, st['how'])
        self.ctx.fault('caller-mutation')
        self.ctx.ev(i, 'scribble', st['m'], st['how'], 'returned' if st['returned'] else 'handed', len(targets))
        for s in self.slots.values():
            s.after.add('scribbled')

    # ---- dispatch
    def dispatch(self, market, rerun=None, faults=(), seam=None):
        self.fault_plan = {f['at']: f['kind'] for f in faults}
        self.lasting_at, self.lasting = {f['at']: f['lasting'] for f in faults if f.get('lasting')}, None
        self.solves, self.hit = 0, None
        kw = {}
        if rerun:
            kw = dict(energy_market_ceiling_price=rerun['ceiling'], energy_market_floor_price=rerun['floor'],
                      fcas_market_ceiling_price=rerun['fcas'], allow_over_constrained_dispatch_re_run=True)
        seams.ENV.solver = seam or self.solver
        try:
            self.quiet(market.dispatch, **kw)
            return None
        except Exception as e:
            return e
        finally:
            seams.ENV.solver = None
            self.fault_plan = {}

    def do_dispatch(self, i, st):
        try:
            self.dispatch_step(i, st)
        except rm.Undecided as e:
            self.ctx.ev(i, 'reference undecided', str(e))
            self.ctx.probe('reference-undecided')

    def dispatch_step(self, i, st):
        ctx, slot = self.ctx, self.slots[st['m']]
        if slot.stale or 'volume_bids' not in slot.inp or 'price_bids' not in slot.inp or 'demand' not in slot.inp:
            return
        self.in_force = slot.inp
        problem = rm.build(self.cfg, slot.inp)
        if problem.unservable:
            return      # outside the range the reference covers
        ctx.state(json.dumps(slot.inp, sort_keys=True))
        best = rm.solve(problem)
        if best is not None and max([best.x[v] for r in problem.rows for v, _ in r.dvars] or [0]) > rm.DEFICIT_CAP * 0.9:
            return      # outside the range the reference covers
        faults = st.get('faults') or []
        if best is None:
            ctx.probe('infeasible-inputs')
            faults = []
        rerun = st.get('rerun')
        if self.prop == 'P24' and rerun and not faults:
            self.over_constrained(i, slot, problem, best, rerun)
            return
        err = self.dispatch(slot.market, rerun, faults)
        if self.hit:
            ctx.ev(i, 'dispatch', st['m'], 'solver fault', self.hit, 'raised' if err is not None else 'returned')
            ctx.check(err is not None, 'solver-failure-hidden', 'solve %d of the dispatch ended with %s, the dispatch returned as if it '
                      'had succeeded' % self.hit)
            slot.after.add('failed')
            ctx.probe('solver-fault')
            return
        if best is None:
            ctx.ev(i, 'dispatch', st['m'], 'infeasible', 'raised' if err is not None else 'returned')
            ctx.check(err is not None, 'infeasible-accepted', 'no dispatch meets the hard limits in force, yet the market reported one')
            slot.after.add('failed')
            return
        if err is not None:
            ctx.ev(i, 'dispatch', st['m'], 'raised', type(err).__name__)
            if self.solver_to_blame(slot, st, problem, best, [('dispatch-failed', '')]):
                ctx.probe('solver-gave-up-on-a-solvable-model')
                slot.after.add('failed')
                return
            self.problem(i, slot, [('dispatch-failed', 'a dispatch exists for the inputs in force, but dispatching failed: %s: %s'
                                    % (type(err).__name__, err))], None)
        res = self.read(slot.market, slot.inp)
        ctx.ev(i, 'dispatch', st['m'], 'cost=%.2f' % (best.value + 0.0), summary(res))
        ctx.probe('dispatch')
        for a in sorted(slot.after):
            ctx.probe('dispatch-after-' + a)
        if len(slot.inp) > 6:
            ctx.probe('many-inputs')
        probs = self.judge(slot, problem, best, res, bool(rerun))
        if probs and self.solver_to_blame(slot, st, problem, best, probs):
            ctx.probe('solver-stopped-short-of-the-optimum')
            return
        if probs:
            try:
                self.problem(i, slot, probs, st)
            except Foreign:
                pass        # another property's: later dispatches may still show whether this one holds
        if self.prop == 'P16':
            again = self.read(slot.market, slot.inp)
            for f in again['frames']:
                scribble(f, 'scale')
            third = self.read(slot.market, slot.inp)
            ctx.check(res['key'] == third['key'], 'result-aliased', 'changing a returned table changed what the market reports: %s became %s'
                      % (res['key'][:300], third['key'][:300]))
            self.returned += res['frames']

    def problem(self, i, slot, probs, st, pending=None):
        """report what is wrong with this market's behaviour.  For the properties about histories a control market is given
        only the inputs in force: what it gets wrong too is not an effect of the history."""
        ctx = self.ctx
        if self.prop in HISTORY:
            if not slot.after and self.prop != 'P16':
                raise_foreign(ctx, *probs[0])
            control = self.control(slot, st, pending)
            for cls, msg in probs:
                if cls not in control:
                    ctx.check(False, 'after:' + cls, 'after %s: %s (a new market given the inputs in force: %s)' % (
                        ', '.join(sorted(slot.after)) or 'interleaved operations', msg, 'fine' if not control else sorted(control)))
            raise_foreign(ctx, *probs[0])
        for cls, msg in probs:
            if cls in ctx.own:
                ctx.check(False, cls, msg)
        raise_foreign(ctx, *probs[0])

    def control(self, slot, st, pending):
        """problem classes of a new market given only the inputs in force"""
        ui = frame([r if self.cfg['dt'] else {k: v for k, v in r.items() if k != 'dispatch_type'} for r in self.cfg['units']])
        seams.new_process()
        from nempy import markets
        try:
            m = markets.SpotMarket(list(self.cfg['regions']), ui, dispatch_interval=self.cfg['interval'])
            inp = dict(slot.inp)
            if pending:
                inp[pending[0]] = pending[1]
            self.pool, keep = {}, self.pool
            try:
                for what in ORDER:
                    if what in inp:
                        name, args, kw = self.args(what, inp[what], False)
                        self.quiet(getattr(m, name), *copy.deepcopy(args), **copy.deepcopy(kw))
                        # separately softened constraint groups are part of the violation price in force
            finally:
                self.pool = keep
        except Exception as e:
            return {'setter-failed', 'dispatch-failed'}
        if st is None and pending:
            return set()
        problem = rm.build(self.cfg, slot.inp)
        best = rm.solve(problem)
        err = self.dispatch(m, st.get('rerun') if st else None)
        if err is not None:
            return {'dispatch-failed', 'setter-failed'}
        return {c for c, _ in self.judge(None, problem, best, self.read(m, slot.inp), bool(st and st.get('rerun')))}

    def read(self, m, inp):
        res = {'frames': []}
        d = m.get_unit_dispatch()
        res['frames'].append(d)
        res['totals'] = {('unit', u, t, s): float(x) for u, t, s, x in zip(d['unit'], d['dispatch_type'], d['service'], d['dispatch'])}
        res['rows'] = len(d)
        if 'interconnectors' in inp:
            f = m.get_interconnector_flows()
            res['frames'].append(f)
            for k, (a, b, x) in enumerate(zip(f['interconnector'], f['link'], f['flow'])):
                res['totals']['flow', a, b] = float(x)
                if 'losses' in f.columns and f['losses'].iloc[k] == f['losses'].iloc[k]:
                    res['totals']['loss', a, b] = float(f['losses'].iloc[k])
        e = m.get_energy_prices()
        res['frames'].append(e)
        res['energy'] = dict(zip(e['region'], map(float, e['price'])))
        res['fcas'] = {}
        if 'fcas' in inp:
            f = m.get_fcas_prices()
            res['frames'].append(f)
            res['fcas'] = {(r, s): float(x) for r, s, x in zip(f['region'], f['service'], f['price'])}
        res['violations'] = {k: float(m.get_elastic_constraints_violation_degree(k)) for k in ALL_KEYS}
        s = m.get_region_dispatch_summary()
        res['frames'].append(s)
        res['summary'] = {r['region']: {k: float(v) for k, v in r.items() if k != 'region'} for r in s.to_dict('records')}
        res['objective'] = float(m.objective_value)
        res['available'] = None
        if self.prop == 'P25':
            a = m.get_fcas_availability()
            res['frames'].append(a)
            res['available'] = {}
            for u, sv, x in zip(a['unit'], a['service'], a['availability']):
                res['available'].setdefault((u, sv), []).append(float(x))
        res['key'] = json.dumps([sorted((str(k), round(v, 6) + 0.0) for k, v in res['totals'].items()), sorted(res['energy'].items()),
                                 sorted((str(k), v) for k, v in res['fcas'].items()), sorted(res['violations'].items()),
                                 sorted((k, sorted(v.items())) for k, v in res['summary'].items())])
        return res

    def judge(self, slot, p, best, res, rerun):
        prop, out = self.prop, []
        T = res['totals']
        want = lambda *ps: prop in ps or prop in HISTORY
        # what is reported
        exp = set(p.total)
        got = set(T)
        lossless = {k for k in exp if k[0] == 'loss'} - got
        if got - {k for k in got if k[0] == 'loss'} != exp - {k for k in exp if k[0] == 'loss'} or lossless or res['rows'] != len(
                [k for k in T if k[0] == 'unit']):
            out.append(('bad-report', 'reported items differ from the inputs in force: missing %s, unexpected %s'
                        % (sorted(map(str, exp - got)), sorted(map(str, got - exp)))))
            return out
        tol = 1e-2 + 2e-6 * abs(best.value)
        if want('P11', 'P12', 'P17', 'P18', 'P23'):
            near = {k: v for k, v in T.items()}
            s = rm.solve(p, near=near)
            if s is None:
                d = rm.solve(p, near=near, slack=True)
                groups = {}
                for r, x in (d.slacks if d else []):
                    g, k = (r[0], r[1]) if isinstance(r, tuple) else (r.group, r.key)
                    groups.setdefault(g, []).append('%s by %.4f' % (k, x))
                text = '; '.join('%s: %s' % (g, ', '.join(v)) for g, v in sorted(groups.items())) or 'no consistent reading'
                cls = 'limit-violated'
                if groups and all(g in rm.FCAS_GROUPS for g in groups):
                    cls = 'fcas-undeliverable'
                elif any(g in rm.FCAS_GROUPS for g in groups):
                    out.append(('fcas-undeliverable', 'the reported dispatch is not jointly deliverable: ' + text))
                if groups and all(g in rm.LOSS_GROUPS for g in groups) or not groups:
                    cls = 'losses-inconsistent'
                out.append((cls, 'the reported dispatch breaks hard limits in force: ' + text))
            elif s.value > best.value + tol:
                soft = [r for r in p.rows if r.cost is not None and sum(s.x[v] for v, _ in r.dvars) > 1e-3]
                out.append(('not-least-cost', 'the reported dispatch costs %.4f, a dispatch costing %.4f meets all limits in force'
                            % (s.value, best.value)))
                if soft:
                    viol = lambda z: sum(r.cost * sum(z.x[v] for v, _ in r.dvars) for r in p.rows if r.cost is not None)
                    if viol(s) > viol(best) + tol:
                        out.append(('needless-violation', 'the reported dispatch costs %.4f with violations worth %.4f, %.4f with '
                                    'violations worth %.4f is possible' % (s.value, viol(s), best.value, viol(best))))
            self.near = s
            least = min(best.value, s.value) if s else best.value      # the reference solver may stop short too
            self.judge_limits(p, T, out)
        if want('P12') and abs(res['objective'] - least) > tol:
            out.append(('wrong-objective', 'the objective value reported is %.4f, the least cost is %.4f' % (res['objective'], least)))
        if want('P17'):
            self.judge_violations(p, res, out)
        if want('P18'):
            self.judge_flows(slot, p, res, out)
        if prop == 'P25' and res['available'] is not None:
            self.judge_availability(p, res, out)
        if want('P13') and not rerun:
            msg = self.judge_prices(p, best, res, T)
            if msg:
                out.append(('wrong-price', msg))
        return out

    def judge_limits(self, p, T, out):
        """every hard limit that is a sum over reported quantities, one by one"""
        bad = {}
        for r in p.rows:
            if r.cost is not None or r.group == 'tie_break':
                continue
            v = rm.row_violation(p, r, T)
            if v is not None and v > 5e-3 + 1e-5 * abs(r.rhs):
                cls = ('fcas-undeliverable' if r.group in rm.FCAS_GROUPS else 'losses-inconsistent' if r.group in rm.LOSS_GROUPS
                       else 'limit-violated')
                bad.setdefault(cls, []).append('%s of %s by %.4f' % (r.group, r.key, v))
        for cls in sorted(bad):
            if cls not in {c for c, _ in out}:
                out.append((cls, 'the reported dispatch breaks limits in force: ' + ', '.join(bad[cls])))

    def judge_violations(self, p, res, out):
        groups = {}
        for r in p.rows:
            if r.group in ('tie_break',) + rm.LOSS_GROUPS:
                continue
            v = rm.row_violation(p, r, res['totals'])
            if v is None:
                continue
            groups.setdefault(r.group, []).append((r, v))
        for key in ALL_KEYS:
            if key == 'tie_break':
                continue
            rows = groups.get(key, [])
            soft = sum(v for r, v in rows if r.cost is not None)
            got = res['violations'][key]
            n = max(1, len(rows))
            if abs(got - soft) > 1e-3 * n:
                out.append(('wrong-violation', 'the violation of the %s constraints is reported as %.4f, the reported dispatch violates them '
                            'by %.4f' % (key, got, soft)))
                return
            if soft > 1e-3:
                self.ctx.probe('violation-reported')

    def judge_availability(self, p, res, out):
        """what is reported as available of a service is what the unit is enabled for plus the room its constraints leave"""
        T = res['totals']
        room = {}
        for r in p.rows:
            if r.group not in rm.FCAS_GROUPS:
                continue
            v = rm.row_value(p, r, T)
            if v is None:
                return
            for k, c in rm.row_terms(p, r).items():
                if k[0] != 'unit' or k[3] == 'energy':
                    continue
                room.setdefault(k, (float('inf'), 1.0))
                if abs(c) < 1e-4 or (c > 0) != (r.type == '<='):
                    continue
                x = max(0.0, (r.rhs - v) / c)
                if x < room[k][0]:
                    room[k] = (x, abs(c))
        expect = {}
        for k, (x, c) in room.items():
            expect.setdefault((k[1], k[3]), []).append((T[k] + x, 2e-3 + 2e-4 / c))
        got = res['available']
        bounded = {k for k, v in expect.items() if any(x < 1e9 for x, _ in v)}
        if not (bounded <= set(got) <= set(expect)):
            out.append(('wrong-availability', 'fcas availability reported for %s, constraints limit %s' % (sorted(got), sorted(bounded))))
            return
        for k in sorted(got):
            a, b = sorted(got[k]), sorted(expect[k])
            if len(a) != len(b) or any(not (x == y or abs(x - y) <= t) for x, (y, t) in zip(a, b)):
                out.append(('wrong-availability', 'availability of %s reported as %s, the constraints on it leave %s' % (
                    k, a, [round(y, 4) for y, _ in b])))
                return
            self.ctx.probe('availability-checked' if len(a) == 1 else 'availability-of-two-sides-checked')
            if any(y > T_ + 1e-3 for (y, _), T_ in zip(b, sorted(T[q] for q in room if (q[1], q[3]) == k))):
                self.ctx.probe('availability-above-enablement')

    def judge_flows(self, slot, p, res, out):
        T = res['totals']
        for i, l, ws, spec in p.sos2:
            f, loss = T['flow', i, l], T['loss', i, l]
            e = rm.interpolate([b for _, b in ws], spec, f)
            if e is None or abs(e - loss) > 1e-3:
                out.append(('losses-inconsistent', 'losses of %s at flow %.4f reported as %.4f, interpolating its loss function gives %s'
                            % (l, f, loss, e)))
                return
            self.ctx.probe('losses-checked')
        inp = self.in_force
        reg = {}
        info = {(u['unit'], u['dispatch_type']): u['region'] for u in self.cfg['units']}
        for k, v in T.items():
            if k[0] == 'unit' and k[3] == 'energy':
                e = reg.setdefault(info[k[1], k[2]], {'dispatch': 0.0})
                e['dispatch'] += v if k[2] == 'generator' else -v
        inters = inp.get('interconnectors', {}).get('rows', [])
        shares = {(r['interconnector'], r.get('link', r['interconnector'])): r['from_region_loss_share']
                  for r in inp.get('losses', {}).get('rows', [])}
        for r in inters:
            k = (r['interconnector'], r.get('link', r['interconnector']))
            f = T[('flow',) + k]
            a, b = r['from_region'], r['to_region']
            for g, sign, lf, share in ((a, -1.0, r.get('from_region_loss_factor', 1.0), shares.get(k)),
                                       (b, 1.0, r.get('to_region_loss_factor', 1.0), None if k not in shares else 1 - shares[k])):
                e = reg.setdefault(g, {})
                e.setdefault('dispatch', 0.0)
                e['inflow'] = e.get('inflow', 0.0) + sign * f
                e['transmission_losses'] = e.get('transmission_losses', 0.0) + sign * f * (1 - lf)
                if share is not None:
                    e['interconnector_losses'] = e.get('interconnector_losses', 0.0) + share * T[('loss',) + k]
        S = res['summary']
        if set(S) != set(reg):
            out.append(('wrong-summary', 'the region summary covers %s, dispatch and flows exist in %s' % (sorted(S), sorted(reg))))
            return
        for g, e in sorted(reg.items()):
            cols = set(S[g])
            for c in ('dispatch', 'inflow', 'transmission_losses', 'interconnector_losses'):
                x = S[g].get(c, 0.0)
                if not abs(x - e.get(c, 0.0)) <= 1e-3:
                    out.append(('wrong-summary', 'region %s: %s reported as %s, dispatch and flows give %.4f' % (g, c, x, e.get(c, 0.0))))
                    return
            row = p.demand_rows.get(g)
            if row is not None and row.cost is None:
                bal = S[g]['dispatch'] + S[g].get('inflow', 0.0) - S[g].get('transmission_losses', 0.0) - S[g].get('interconnector_losses', 0.0)
                if abs(bal - row.rhs) > 1e-3:
                    out.append(('wrong-summary', 'region %s: reported dispatch, inflow and losses balance to %.4f, demand is %.4f'
                                % (g, bal, row.rhs)))
                    return
        self.ctx.probe('summary-checked')

    def judge_prices(self, p, best, res, T):
        """no bounded trade at the reported prices may lower the cost of the problem linearised at the reported flows"""
        if set(res['energy']) != set(p.demand_rows) or not set(p.fcas_members) <= set(res['fcas']):
            if set(res['energy']) != set(p.demand_rows):
                return 'prices reported for regions %s, demand is set for %s' % (sorted(res['energy']), sorted(p.demand_rows))
        fcas = {k: v for k, v in res['fcas'].items()}
        for k in p.fcas_members:
            if k not in fcas:
                return 'no price reported for %s' % (k,)
        tol = 1e-2 + 2e-6 * abs(best.value)
        choices = [{}]
        if p.sos2 or p.sos1:
            relaxed = rm.solve(p, integer=False)
            if relaxed is None or relaxed.value < best.value - tol:
                self.ctx.probe('loss-relaxation-not-tight')
                return None
            fixed = {'off': set()}
            for group in p.sos1:
                used = [v for v in group if abs(T[('flow',) + v[1:]]) > 1e-7]
                fixed['off'] |= set(group) - set(used)
            choices = [fixed]
            for i, l, ws, spec in p.sos2:
                f = T['flow', i, l]
                segs = [k for k in range(len(ws) - 1) if ws[k][1] - 1e-6 <= f <= ws[k + 1][1] + 1e-6]
                choices = [{**c, (i, l): k} for c in choices for k in segs]
            if len(choices) > 4:
                choices = choices[:4]
        for fixed in choices:
            s = rm.solve(p, integer=False, fixed=fixed or None, prices=(res['energy'], fcas, 5.0))
            if s is None:
                return None
            if s.value < best.value - tol:
                return ('the prices %s %s are not marginal costs: buying or selling up to 5 MW at them lowers the total cost from %.4f to %.4f'
                        % ({k: round(v, 4) for k, v in res['energy'].items()}, {k: round(v, 4) for k, v in fcas.items()}, best.value, s.value))
        self.ctx.probe('prices-checked')
        return None

    def over_constrained(self, i, slot, p, best, rerun):
        ctx = self.ctx
        if best is None:
            return
        err = self.dispatch(slot.market)
        if err is not None:
            raise_foreign(ctx, 'dispatch-failed')
        a = self.read(slot.market, slot.inp)
        near, rerun_by = rerun.get('near'), rerun.get('by')
        pool = list((a['fcas'] if near == 'fcas' else a['energy']).values())
        if near and pool:        # price limits close to the prices found, the other ones out of reach
            rerun = {'ceiling': 1e8, 'floor': -1e8, 'fcas': 1e8}
            rerun[near] = round((min if near == 'floor' else max)(pool) + rerun_by, 2)
        err = self.dispatch(slot.market, rerun)
        ctx.check(err is None, 'rerun-failed', 'dispatching with the re-run for over-constrained prices failed: %s' % (err,))
        b = self.read(slot.market, slot.inp)
        ctx.ev(i, 'rerun', 'cost=%.2f' % (best.value + 0.0), summary(a), summary(b))
        ctx.probe('rerun')
        for k in a['totals']:
            ctx.check(abs(a['totals'][k] - b['totals'].get(k, 1e9)) <= 1e-5, 'rerun-changed-dispatch', 'allowing the re-run changed %s from %s to %s'
                      % (k, a['totals'][k], b['totals'].get(k)))
        for k in a['violations']:
            ctx.check(abs(a['violations'][k] - b['violations'][k]) <= 1e-5, 'rerun-changed-dispatch', 'allowing the re-run changed the violation of '
                      '%s from %s to %s' % (k, a['violations'][k], b['violations'][k]))
        ctx.check(abs(a['objective'] - b['objective']) <= 1e-4 + 1e-7 * abs(a['objective']), 'rerun-changed-dispatch',
                  'allowing the re-run changed the objective from %s to %s' % (a['objective'], b['objective']))
        e = list(a['energy'].values())
        fsum = a['fcas']
        over = (e and (max(e) >= rerun['ceiling'] or min(e) <= rerun['floor']))
        near = lambda x, y: abs(x - y) < 1e-6 * max(1.0, abs(y))
        edge = any(near(x, rerun['ceiling']) or near(x, rerun['floor']) for x in e)
        f_over = None      # prices of single requirements are not reported where several share a region and service
        if p.fcas_rows:
            single = all(len(v) == 1 for v in p.fcas_members.values())
            if single:
                x = list(fsum.values())
                f_over = max(x) >= rerun['fcas'] if x else False
                edge = edge or any(near(y, rerun['fcas']) for y in x)
        else:
            f_over = False
        viol = []
        noise = False
        for r in p.rows:
            if r.group in ('generic', 'fcas') and r.cost is not None:
                v = rm.row_violation(p, r, a['totals'])
                if v is None:
                    return
                if v > 2e-3:
                    viol.append((r, v))
                elif v > 1e-7:
                    noise = True
        same_prices = all(abs(a['energy'][k] - b['energy'][k]) < 1e-5 for k in a['energy']) and \
            all(abs(a['fcas'][k] - b['fcas'][k]) < 1e-5 for k in a['fcas'])
        if edge or noise or (f_over is None and not over):
            return
        triggered = (over or f_over) and viol
        if not triggered:
            ctx.check(same_prices, 'rerun-changed-price', 'no constraint is violated or no price is beyond the limits, yet allowing the re-run '
                      'changed prices from %s %s to %s %s' % (a['energy'], a['fcas'], b['energy'], b['fcas']))
            return
        ctx.probe('over-constrained')
        q = rm.build(self.cfg, slot.inp)
        for (r, v), r2 in zip(viol, [next(x for x in q.rows if x.group == r.group and x.key == r.key) for r, v in viol]):
            lhs = sum(r.lhs[x] * 0 for x in r.lhs)
            if r.type == '<=':
                r2.rhs = r.rhs + v + 0.01
            elif r.type == '>=':
                r2.rhs = r.rhs - v - 0.01
            else:
                sign = self.side(p, r, a['totals'])
                r2.rhs = r.rhs + sign * (v + 0.01)
        # the re-run works on the problem linearised at the flows of the dispatch
        T = a['totals']
        fixed = {'off': set()}
        for group in q.sos1:
            fixed['off'] |= {v for v in group if abs(T[('flow',) + v[1:]]) <= 1e-7}
        for k, l, ws, spec in q.sos2:
            f = T['flow', k, l]
            segs = [n for n in range(len(ws) - 1) if ws[n][1] - 1e-6 <= f <= ws[n + 1][1] + 1e-6]
            if len(segs) != 1:
                return
            fixed[k, l] = segs[0]
        lin = rm.solve(q, integer=False, fixed=fixed if (q.sos1 or q.sos2) else None)
        if lin is None:
            return
        tol = 1e-2 + 2e-6 * abs(lin.value)
        if q.sos1 or q.sos2:
            relaxed = rm.solve(q, integer=False)
            if relaxed is None or relaxed.value < lin.value - tol:
                ctx.probe('loss-relaxation-not-tight')
                return
        s = rm.solve(q, integer=False, fixed=fixed if (q.sos1 or q.sos2) else None, prices=(b['energy'], b['fcas'], 5.0))
        if s is None:
            return
        ctx.check(s.value >= lin.value - tol, 'wrong-rerun-price', 'the re-run prices %s %s are not those of the problem with the violated '
                  'constraints %s relaxed: trading up to 5 MW at them lowers its cost from %.4f to %.4f' % (
                      b['energy'], b['fcas'], [r.key for r, _ in viol], lin.value, s.value))
        ctx.probe('rerun-prices-checked')

    def side(self, p, r, totals):
        inv = {v: k for k, vs in p.total.items() for v in vs}
        seen, val = set(), 0.0
        for v, c in r.lhs.items():
            k = inv[v]
            if k not in seen:
                seen.add(k)
                val += c * totals[k]
        return 1.0 if val > r.rhs else -1.0


def raise_foreign(ctx, cls, *msg):
    ctx.ev('FOREIGN', cls, *msg)
    ctx.probe('violation-of-another-property')
    raise Foreign(cls)


def _failing_loss(flow):
    raise ValueError('loss function failed')


def scribble(f, how):
    import pandas as pd
    if isinstance(f, list):
        f.append('NOWHERE')
        return
    if not isinstance(f, pd.DataFrame):
        return
    if how == 'columns':
        f['scribbled'] = 1.0
        return
    if how == 'drop' and len(f) > 1:
        f.drop(index=f.index[-1], inplace=True)
        return
    for c in f.columns:
        if f[c].dtype == 'float64':
            f[c] = f[c] * 3 + 1
            f.loc[:, c] = f[c]
        elif c in ('unit', 'region', 'set', 'interconnector'):
            f.loc[:, c] = 'ZZZ'


def summary(res):
    return 'dispatch ' + ' '.join('%s=%.2f' % ('/'.join(k[1:]), v + 0.0) for k, v in sorted(res['totals'].items())) + \
        ' prices ' + ' '.join('%s=%.3f' % (k, v + 0.0) for k, v in sorted(res['energy'].items()))
