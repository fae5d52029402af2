"""Simulated market operator case files.

`Case(day, number, cfg)` is the *truth* of one dispatch interval (plain Python values, a pure function of its
arguments); `xml()` is the file the simulated server publishes for it, in the structure the real files have."""
import random
from datetime import datetime, timedelta
from functools import lru_cache

ENERGY = {'GENERATOR': 'ENOF', 'LOAD': 'LDOF', 'NORMALLY_ON_LOAD': 'LDOF', 'WDR': 'DROF', 'BIDIRECTIONAL': 'BDOF'}
FCAS = ['R1SE', 'R6SE', 'R60S', 'R5MI', 'R5RE', 'L1SE', 'L6SE', 'L60S', 'L5MI', 'L5RE']
SERVICE = dict(ENOF='ENERGY', LDOF='ENERGY', DROF='ENERGY', BDOF='ENERGY', L5RE='LOWERREG', R5RE='RAISEREG',
               R5MI='RAISE5MIN', L5MI='LOWER5MIN', R60S='RAISE60SEC', L60S='LOWER60SEC', R6SE='RAISE6SEC',
               L6SE='LOWER6SEC', R1SE='RAISE1SEC', L1SE='LOWER1SEC')
REGIONS = ['NSW1', 'QLD1', 'SA1', 'TAS1', 'VIC1']
PRICES = dict(regional_demand='EnergyDeficitPrice', interocnnector='InterconnectorPrice',
              generic_constraint='GenericConstraintPrice', ramp_rate='RampRatePrice', unit_capacity='CapacityPrice',
              energy_offer='OfferPrice', fcas_profile='ASProfilePrice', fcas_max_avail='ASMaxAvailPrice',
              fcas_enablement_min='ASEnablementMinPrice', fcas_enablement_max='ASEnablementMaxPrice',
              fast_start='FastStartPrice', mnsp_ramp_rate='MNSPRampRatePrice', msnp_offer='MNSPOfferPrice',
              mnsp_capacity='MNSPCapacityPrice', uigf='UIGFSurplusPrice', voll='VoLL', tiebreak='TieBreakPrice')
VIOLATIONS = dict(regional_demand='TotalAreaGenViolation', interocnnector='TotalInterconnectorViolation',
                  generic_constraint='TotalGenericViolation', ramp_rate='TotalRampRateViolation',
                  unit_capacity='TotalUnitMWCapacityViolation', energy_constraint='TotalEnergyConstrViolation',
                  energy_offer='TotalEnergyOfferViolation', fcas_profile='TotalASProfileViolation',
                  fast_start='TotalFastStartViolation', mnsp_ramp_rate='TotalMNSPRampRateViolation',
                  msnp_offer='TotalMNSPOfferViolation', mnsp_capacity='TotalMNSPCapacityViolation',
                  ugif='TotalUIGFViolation')


def market_day_and_number(when):
    """'2024/07/10 12:05:00' -> ('20240710', 97)"""
    d = datetime.strptime(when, '%Y/%m/%d %H:%M:%S')
    day = d - timedelta(days=1) if (d.hour, d.minute) < (4, 5) else d
    start = datetime(day.year, day.month, day.day, 4, 5)
    return day.strftime('%Y%m%d'), int((d - start) / timedelta(minutes=5)) + 1


def time_of(day, number):
    d = datetime.strptime(day, '%Y%m%d') + timedelta(hours=4, minutes=5 * number)
    return d.strftime('%Y/%m/%d %H:%M:%S')


def _f(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


class Case:
    """rich=False: a small file (two units, two constraints); rich=True: every kind of element the readers handle."""

    def __init__(self, day, number, cfg):
        self.day, self.number = day, number
        self.when = time_of(day, number)
        salt, rich = cfg.get('salt', 0), cfg.get('rich', False)
        rng = random.Random('case:%s:%s:%s:%s' % (salt, rich, day, number))
        self.actual_first = random.Random('order:%s:%s:%s' % (salt, day, number)).random() < 0.5
        self.ocd = rng.random() < cfg.get('p_ocd', 0.2)
        self.intervention = rng.random() < cfg.get('p_int', 0.15)
        self.price = {k: float(rng.randint(1, 400)) * 1000 for k in PRICES}
        p_viol = cfg.get('p_viol', 0.1)
        self.violation, self.violation_int = {}, {}
        for k in VIOLATIONS:
            self.violation[k] = rng.choice([_f(rng, 0.01, 50), _f(rng, 0.0001, 0.009, 4)]) if rng.random() < p_viol else 0.0
            self.violation_int[k] = _f(rng, 0.01, 50)
        self.period_level = {k: rng.random() < 0.7 for k in VIOLATIONS}
        self.market_price = {(r, s): _f(rng, -1000, 15000) for r in REGIONS[:5 if rich else 2]
                             for s in ('EnergyPrice', 'R6Price', 'L6Price')}
        # the identity of units follows the day (stable within a day), their values follow the interval
        drng = random.Random('case-day:%s:%s:%s' % (salt, rich, day))
        self.traders = []
        n = drng.randint(6, 9) if rich else 2
        types = ['GENERATOR', 'LOAD', 'BIDIRECTIONAL', 'GENERATOR', 'GENERATOR', 'WDR', 'GENERATOR', 'BIDIRECTIONAL',
                 'NORMALLY_ON_LOAD']
        for i in range(n):
            self.traders.append(self._trader(rng, drng, i, types[i] if rich else 'GENERATOR', rich))
        self.traders = rng.sample(self.traders, len(self.traders))
        self.period_order = rng.sample(range(len(self.traders)), len(self.traders))
        self._interconnectors(rng, rich)
        self._constraints(rng, drng, rich)
        if rich:
            self._rhs_data(rng, drng)

    def _trader(self, rng, drng, i, ttype, rich):
        t = {'id': 'U%d' % i, 'type': ttype, 'region': REGIONS[i % 5], 'cap': float(drng.choice([50, 100, 200, 400]))}
        cap = t['cap']
        lo = -cap if ttype == 'BIDIRECTIONAL' else 0.0
        ic = {'InitialMW': _f(rng, lo, cap), 'WhatIfInitialMW': _f(rng, lo, cap), 'AGCStatus': float(rng.randint(0, 1))}
        if drng.random() < 0.6:
            ic['SCADARampUpRate'] = _f(rng, 10, 900) if rng.random() < 0.85 else 0.0
            ic['SCADARampDnRate'] = _f(rng, 10, 900) if rng.random() < 0.85 else 0.0
        if rng.random() < 0.3:
            ic['HMW'] = _f(rng, 0, cap)
            ic['LMW'] = _f(rng, 0, cap)
        items = list(ic.items())
        rng.shuffle(items)
        t['ic'] = dict(items)
        t['fast'] = None
        if rich and ttype == 'GENERATOR' and i in (3, 4):
            # the minimum loading of a fast start unit may be 0
            t['fast'] = {'MinLoadingMW': rng.choice([0, 10, 20, 30]), 'CurrentMode': rng.randint(0, 4),
                         'CurrentModeTime': rng.randint(0, 10), 'T1': rng.choice([0, 3, 5, 10]),
                         'T2': rng.choice([1, 5, 10]), 'T3': rng.choice([5, 10]), 'T4': rng.choice([5, 10])}
            if self.intervention or rng.random() < 0.1:
                t['fast']['WhatIfCurrentMode'] = rng.randint(0, 4)
                t['fast']['WhatIfCurrentModeTime'] = rng.randint(0, 10)
        # the forecast of a semi scheduled unit may be exactly zero (at night)
        semi = rich and (i == 6 or i == 0 and drng.random() < 0.4)
        t['uigf'] = None if not semi else 0.0 if rng.random() < 0.2 else _f(rng, 0, cap)
        dirs = ['GEN', 'LOAD'] if ttype == 'BIDIRECTIONAL' else [None]
        t['volume'], t['prices'] = [], []
        services = [ENERGY[ttype]]
        if rich:
            services += [s for s in FCAS if (drng.random() < 0.5) and ttype not in ('WDR', 'NORMALLY_ON_LOAD')]
        services = drng.sample(services, len(services))
        for s in services:
            for d in dirs:
                bands = [float(rng.choice([0, 0, 5, 10, 25, 50])) for _ in range(10)]
                v = {'MaxAvail': _f(rng, 0, cap, 1)}
                em, lb, hb, ex = 0.0, _f(rng, 0, cap * 0.2, 1), _f(rng, cap * 0.5, cap * 0.8, 1), cap
                if s != ENERGY[ttype] and rng.random() < 0.6:
                    if rng.random() < 0.1:
                        v['MaxAvail'] = 0.0
                    if rng.random() < 0.2:
                        bands = [0.0] * 10
                        if rng.random() < 0.6:        # everything in one band
                            bands[rng.randrange(10)] = 25.0
                    em = rng.choice([0.0, _f(rng, 0, cap * 0.15, 1), _f(rng, 0, cap * 0.9, 1)])
                    ex = rng.choice([cap, _f(rng, em, cap, 1), em])
                    lb, hb = sorted((_f(rng, em, ex, 1), _f(rng, em, ex, 1)))
                    if rng.random() < 0.2:
                        lb = em
                    if rng.random() < 0.2:
                        hb = ex
                    if ttype == 'BIDIRECTIONAL' and rng.random() < 0.6:        # across zero
                        shift = _f(rng, 0, cap, 1)
                        em, lb, hb, ex = em - shift, lb - shift, hb - shift, ex - shift
                v.update({'EnablementMin': round(em, 1), 'LowBreakpoint': round(lb, 1), 'HighBreakpoint': round(hb, 1),
                          'EnablementMax': round(ex, 1)})
                for b in range(10):
                    v['BandAvail%d' % (b + 1)] = bands[b]
                if s == ENERGY[ttype]:
                    v['RampUpRate'] = float(rng.choice([60, 180, 600, 1200]))
                    v['RampDnRate'] = float(rng.choice([60, 180, 600, 1200]))
                t['volume'].append((s, d, v))
                pb = sorted(_f(rng, -1000, 14000, 2) for _ in range(10))
                t['prices'].append((s, d, {'PriceBand%d' % (b + 1): pb[b] for b in range(10)}))
        # metering below zero, and outputs and offers right at the ends of a trapezium
        fcas = [v for s, d, v in t['volume'] if s != ENERGY[ttype]]
        for k in ('InitialMW', 'WhatIfInitialMW'):
            if rich and ttype != 'BIDIRECTIONAL' and rng.random() < 0.15:
                t['ic'][k] = -_f(rng, 0, 2)
            if fcas and rng.random() < 0.2:
                t['ic'][k] = rng.choice(fcas)[rng.choice(['EnablementMin', 'EnablementMax'])]
        if fcas and rng.random() < 0.2:
            v = rng.choice([v for s, d, v in t['volume'] if s == ENERGY[ttype]])
            v['MaxAvail'] = max(0.0, rng.choice(fcas)['EnablementMin'])
        if fcas and t['uigf'] and rng.random() < 0.15:
            t['uigf'] = max(0.0, rng.choice(fcas)[rng.choice(['EnablementMin', 'EnablementMax'])])
        return t

    def _interconnectors(self, rng, rich):
        self.inters = [{'id': 'N-Q-MNSP1', 'mnsp': False, 'from': 'NSW1', 'to': 'QLD1', 'offers': []},
                       {'id': 'T-V-MNSP1', 'mnsp': True, 'from': 'TAS1', 'to': 'VIC1', 'offers': [
                           ('TAS1', _f(rng, 0, 478, 1) if rng.random() < 0.8 else 0.0),
                           ('VIC1', _f(rng, 0, 594, 1) if rng.random() < 0.8 else 0.0)]}]
        if rich:
            self.inters.append({'id': 'V-SA', 'mnsp': False, 'from': 'VIC1', 'to': 'SA1', 'offers': []})
        rng.shuffle(self.inters)

    def _constraints(self, rng, drng, rich):
        self.constraints = []
        n = drng.randint(5, 8) if rich else 2
        for i in range(n):
            c = {'id': 'C%d' % i, 'type': drng.choice(['LE', 'GE', 'EQ']), 'cost': _f(rng, 1000, 500000, 1),
                 'rhs': _f(rng, -500, 1500, 4), 'rhs_int': _f(rng, -500, 1500, 4), 'region': [], 'unit': [], 'inter': [],
                 'terms': None}
            if rich:
                kind = i % 4
                if kind == 0:      # regional FCAS requirement
                    for r in drng.sample(REGIONS, drng.randint(1, 3)):
                        c['region'].append((r, drng.choice(FCAS), 1.0))
                elif kind == 1:
                    for u in drng.sample(range(6), drng.randint(1, 3)):
                        t = [x for x in self.traders if x['id'] == 'U%d' % u][0]
                        c['unit'].append((t['id'], ENERGY[t['type']], _f(rng, -1, 1, 2)))
                    if drng.random() < 0.5:
                        c['inter'].append(('N-Q-MNSP1', _f(rng, -1, 1, 2)))
                elif kind == 2:
                    for x in drng.sample(['N-Q-MNSP1', 'V-SA', 'T-V-MNSP1'], drng.randint(1, 2)):
                        c['inter'].append((x, _f(rng, -1, 1, 2)))
                # kind 3: no left hand side at all
            else:
                c['unit'].append(('U%d' % i, 'ENOF', _f(rng, -1, 1, 2)))
            self.constraints.append(c)
        rng.shuffle(self.constraints)

    def _rhs_data(self, rng, drng):
        """SCADA values, entered values, generic equations and right hand side terms (dyadic values: exact sums)"""
        q = lambda: rng.randint(-400, 400) / 4.0 if rng.random() < 0.9 else 0.0
        self.scada = {}
        for ty in 'ASIWR':
            self.scada[ty] = {}
            for j in range(drng.randint(1, 3)):
                # the same name can stand for values of several types
                name = '%s%d' % (ty, j) if j or drng.random() < 0.8 else drng.choice(['X0', 'X1', 'E0', 'A0', 'U1', 'T-V-MNSP1'])
                self.scada[ty][name] = [(q(), drng.random() < 0.8)
                                                    for _ in range(1 if drng.random() < 0.7 else 2)]
        self.entered = {'E%d' % j: q() for j in range(3)}
        self.generic = {}
        ng = drng.randint(2, 5)
        for g in range(ng):
            deeper = ['X%d' % k for k in range(g + 1, ng)]
            self.generic['X%d' % g] = self._terms(rng, drng, deeper)
        for c in self.constraints:
            if drng.random() < 0.8:
                c['terms'] = self._terms(rng, drng, list(self.generic))

    def leaf_values(self):
        out = [(i, ty) for ty in 'ASIWR' for i in self.scada[ty]]
        out += [(i, 'E') for i in self.entered]
        out += [(t['id'], 'T') for t in self.traders]
        out += [(x['id'], m) for x in self.inters if x['mnsp'] for m in 'MN']
        return sorted(out)

    def _terms(self, rng, drng, generics):
        """list of terms: {'id','ty','mult','op','group','default'}; they follow the day, their values the interval"""
        leaves = self.leaf_values()
        mult = lambda: drng.choice([1, 1, -1, -1, 0.5, 2, 0.25, 0])

        def leaf():
            x = drng.random()
            if generics and x < 0.35:
                return drng.choice(generics), 'X'
            if x < 0.47:
                return 'Constant', 'C'
            if x < 0.53:
                return 'NOWHERE', drng.choice('EETMN')        # no value recorded: the default of the term stands in
            return drng.choice(leaves)

        def term(i, ty, op, group=None):
            return {'id': i, 'ty': ty, 'mult': mult(), 'op': op, 'group': group, 'default': drng.choice([1, 25, -3.5])}

        def sequence(n, style, group=None):
            out, depth = [], 1
            for _ in range(n):
                if style == 'sum':
                    i, ty = leaf()
                    while i == 'NOWHERE':
                        i, ty = leaf()
                    out.append(term(i, ty, None, group))
                    continue
                x = drng.random()
                if x < 0.25:        # acts on the top of the stack
                    op = drng.choice([None, 'STEP', 'ABS', 'NEG', 'POW2', 'POW3', 'DUP', 'ABS SQRT'])
                    for o in (op.split() if op else [None]):
                        out.append(term('Top', 'U', o, group))
                    depth += op == 'DUP'
                elif x < 0.5 and depth > 1:
                    op = drng.choice(['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN', 'EXCH', 'RSD', 'RSU', 'POP', 'POP'])
                    if op == 'POP' and depth > 2 and drng.random() < 0.5:
                        out.append(term('Top', 'U', 'POP', group))
                        out.append(term('Top', 'U', 'EXLEZ', group))
                        depth -= 1
                    elif op == 'POP':        # a term that only sets the flag
                        i, ty = leaf()
                        if ty != 'C' and i != 'NOWHERE':
                            out.append(term(i, ty, 'POP', group))
                            out.append(term('Top', 'U', 'EXLEZ', group))
                    elif op != 'POP':
                        out.append(term('Top', 'U', op, group))
                        depth -= op in ('ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN')
                else:
                    i, ty = leaf()
                    ops = ['PUSH', 'PUSH', 'ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN', 'STEP', None, 'ABS', 'NEG', 'POW2', 'POW3', 'SQRT']
                    if i == 'NOWHERE':
                        ops = ['PUSH', 'ADD', 'SUB', 'MUL', 'MAX', 'MIN', 'STEP']
                    if ty == 'C':
                        ops.remove('STEP')
                    op = drng.choice(ops)
                    out.append(term(i, ty, op, group))
                    depth += op == 'PUSH'
            while depth > 1 and drng.random() < 0.8:
                out.append(term('Top', 'U', drng.choice(['ADD', 'SUB', 'MAX', 'MIN', 'MUL']), group))
                depth -= 1
            return out

        style = drng.choice(['sum', 'sum', 'stack', 'stack', 'stack'])
        terms = sequence(drng.randint(1, 6), style)
        if drng.random() < 0.3:        # terms grouped before or behind the term that takes their value, like brackets
            def brackets(label, outer, deep):
                members = sequence(drng.randint(1, 3), drng.choice(['sum', 'sum', 'stack']), label)
                if deep and drng.random() < 0.4:
                    inner = brackets(label + 'i', label, False)
                    at = drng.choice([0, len(members)])
                    members[at:at] = inner
                g = term('GROUP', 'G', drng.choice([None, None, 'ADD', 'PUSH', 'MAX']) if outer is None else None, outer)
                g['gid'] = label
                return ([g] + members) if drng.random() < 0.5 else (members + [g])
            for label in drng.choice([['a'], ['a'], ['a', 'b']]):
                at = drng.choice([0, len(terms)])
                terms[at:at] = brackets(label, None, True)
            number = {t['gid']: str(n + 1) for n, t in enumerate(terms) if 'gid' in t}
            for t in terms:        # the group of a term is the number of the term that takes its value
                t['group'] = number.get(t['group'])
                if 'gid' in t:
                    t['gid'] = number[t['gid']]
        return terms

    # ------------------------------------------------------------------------------------------------ the file
    @property
    def file_name(self):
        return 'NEMSPDOutputs_%s%03d00%s.loaded' % (self.day, self.number, '_OCD' if self.ocd else '')

    def xml(self):
        o = ['<?xml version="1.0"?>', '<NEMSPDCaseFile>', '<NemSpdInputs>']
        a = lambda d: ' '.join('%s="%s"' % (k, v) for k, v in d.items())
        o.append('<Case CaseID="%s%03d" %s/>' % (self.day, self.number, a({PRICES[k]: v for k, v in self.price.items()})))
        o.append('<TraderCollection>')
        for t in self.traders:
            d = {'TraderID': t['id'], 'TraderType': t['type']}
            d.update(t['fast'] or {})
            o.append('<Trader %s><TraderInitialConditionCollection>' % a(d))
            for k, v in t['ic'].items():
                o.append('<TraderInitialCondition InitialConditionID="%s" Value="%s"/>' % (k, v))
            o.append('</TraderInitialConditionCollection><TradePriceStructureCollection><TradePriceStructure>'
                     '<TradeTypePriceStructureCollection>')
            for s, dr, p in t['prices']:
                d = {'TradeType': s}
                if dr:
                    d['Direction'] = dr
                d.update(p)
                o.append('<TradeTypePriceStructure %s/>' % a(d))
            o.append('</TradeTypePriceStructureCollection></TradePriceStructure></TradePriceStructureCollection></Trader>')
        o.append('</TraderCollection>')
        if hasattr(self, 'scada'):
            self._rhs_xml(o, a)
        o.append('<GenericConstraintCollection>')
        for c in self.constraints:
            o.append('<GenericConstraint ConstraintID="%s" Type="%s" ViolationPrice="%s">' % (c['id'], c['type'], c['cost']))
            o.append('<LHSFactorCollection>')
            for r, s, f in c['region']:
                o.append('<RegionFactor RegionID="%s" TradeType="%s" Factor="%s"/>' % (r, s, f))
            for r, s, f in c['unit']:
                o.append('<TraderFactor TraderID="%s" TradeType="%s" Factor="%s"/>' % (r, s, f))
            for r, f in c['inter']:
                o.append('<InterconnectorFactor InterconnectorID="%s" Factor="%s"/>' % (r, f))
            o.append('</LHSFactorCollection>')
            if c['terms']:
                self._terms_xml(o, a, c['terms'])
            o.append('</GenericConstraint>')
        o.append('</GenericConstraintCollection><PeriodCollection><Period><TraderPeriodCollection>')
        for k in self.period_order:
            t = self.traders[k]
            d = {'TraderID': t['id'], 'RegionID': t['region']}
            if t['uigf'] is not None:
                d['UIGF'] = t['uigf']
            o.append('<TraderPeriod %s><TradeCollection>' % a(d))
            for s, dr, v in t['volume']:
                d = {'TradeType': s}
                if dr:
                    d['Direction'] = dr
                d.update(v)
                o.append('<Trade %s/>' % a(d))
            o.append('</TradeCollection></TraderPeriod>')
        o.append('</TraderPeriodCollection><InterconnectorPeriodCollection>')
        for x in self.inters:
            o.append('<InterconnectorPeriod InterconnectorID="%s" MNSP="%d" FromRegion="%s" ToRegion="%s">' %
                     (x['id'], x['mnsp'], x['from'], x['to']))
            if x['offers']:
                o.append('<MNSPOfferCollection>')
                for r, v in x['offers']:
                    o.append('<MNSPOffer RegionID="%s" MaxAvail="%s"/>' % (r, v))
                o.append('</MNSPOfferCollection>')
            o.append('</InterconnectorPeriod>')
        o.append('</InterconnectorPeriodCollection>')
        if hasattr(self, 'entered'):
            o.append('<EnteredValuePeriodCollection>')
            for k, v in self.entered.items():
                o.append('<EnteredValuePeriod SpdID="%s" Type="E" Value="%s"/>' % (k, v))
            o.append('</EnteredValuePeriodCollection>')
        o.append('</Period></PeriodCollection></NemSpdInputs><NemSpdOutputs>')
        both = [('0', self.violation)] + ([('1', self.violation_int)] if self.intervention else [])
        both = both[::-1] if self.actual_first else both
        for i, vals in both:
            o.append('<CaseSolution Intervention="%s" %s/>' % (i, a({VIOLATIONS[k]: v for k, v in vals.items()
                                                                     if not self.period_level[k]})))
        for i, vals in both:
            o.append('<PeriodSolution Intervention="%s" %s/>' % (i, a({VIOLATIONS[k]: v for k, v in vals.items()
                                                                       if self.period_level[k]})))
        for r in sorted({r for r, _ in self.market_price}):
            o.append('<RegionSolution RegionID="%s" Intervention="0" %s/>' %
                     (r, a({s: v for (rr, s), v in self.market_price.items() if rr == r})))
        for c in self.constraints:
            both = [('0', c['rhs'])] + ([('1', c['rhs_int'])] if self.intervention else [])
            for i, v in both[::-1] if self.actual_first else both:
                o.append('<ConstraintSolution ConstraintID="%s" Intervention="%s" RHS="%s"/>' % (c['id'], i, v))
        o.append('</NemSpdOutputs></NEMSPDCaseFile>')
        return '\n'.join(o).encode()

    def _terms_xml(self, o, a, terms):
        o.append('<RHSTermCollection>')
        for n, t in enumerate(terms):
            d = {'TermID': n + 1, 'Multiplier': t['mult'], 'SpdID': t['id'], 'SpdType': t['ty'], 'Default': t['default']}
            if t['op']:
                d['Operation'] = t['op']
            if t['group']:
                d['GroupTerm'] = t['group']
            o.append('<RHSTerm %s/>' % a(d))
        o.append('</RHSTermCollection>')

    def _rhs_xml(self, o, a):
        o.append('<ConstraintScadaDataCollection>')
        for ty, vals in self.scada.items():
            o.append('<ConstraintScadaData SpdType="%s">' % ty)
            good = [(i, v) for i, vs in vals.items() for v, g in vs if g]
            bad = [(i, v) for i, vs in vals.items() for v, g in vs if not g]
            if not good:
                good, bad = bad, []
            for name, lst in (('ScadaValuesCollection', good), ('BadScadaValuesCollection', bad)):
                if lst:
                    o.append('<%s>' % name)
                    for i, v in lst:
                        o.append('<ScadaValues SpdID="%s" Value="%s" EMS_ID="K"/>' % (i, v))
                    o.append('</%s>' % name)
            o.append('</ConstraintScadaData>')
        o.append('</ConstraintScadaDataCollection><GenericEquationCollection>')
        for g, terms in self.generic.items():
            o.append('<GenericEquation EquationID="%s">' % g)
            self._terms_xml(o, a, terms)
            o.append('</GenericEquation>')
        o.append('</GenericEquationCollection>')

    # ------------------------------------------------------------------------------------------------ expectations
    def expect(self, name):
        """what the reader `name` has to report: ('rows', columns, rows) or ('dict', {...}) or ('value', v)"""
        nan = None
        if name == 'get_unit_initial_conditions':
            mw = 'WhatIfInitialMW' if self.intervention else 'InitialMW'
            return ('rows', ['DUID', 'TRADERTYPE', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS'],
                    [(t['id'], t['type'], t['ic'].get(mw, nan), t['ic'].get('SCADARampUpRate', nan),
                      t['ic'].get('SCADARampDnRate', nan), t['ic'].get('AGCStatus', nan)) for t in self.traders])
        if name == 'get_unit_fast_start_parameters':
            rows = []
            for t in self.traders:
                f = t['fast']
                if f:
                    rows.append((t['id'], f['MinLoadingMW'], f.get('WhatIfCurrentMode', f['CurrentMode']),
                                 f.get('WhatIfCurrentModeTime', f['CurrentModeTime']), f['T1'], f['T2'], f['T3'], f['T4']))
            return ('rows', ['DUID', 'MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4'], rows)
        if name == 'get_unit_volume_bids':
            cols = ['DUID', 'BIDTYPE', 'DIRECTION', 'MAXAVAIL', 'ENABLEMENTMIN', 'ENABLEMENTMAX', 'LOWBREAKPOINT',
                    'HIGHBREAKPOINT'] + ['BANDAVAIL%d' % i for i in range(1, 11)] + ['RAMPDOWNRATE', 'RAMPUPRATE']
            keys = ['MaxAvail', 'EnablementMin', 'EnablementMax', 'LowBreakpoint', 'HighBreakpoint'] + \
                   ['BandAvail%d' % i for i in range(1, 11)] + ['RampDnRate', 'RampUpRate']
            dm = {'GEN': 'GENERATOR', 'LOAD': 'LOAD', None: None}
            rows = []
            for k in self.period_order:
                t = self.traders[k]
                for s, d, v in t['volume']:
                    rows.append((t['id'], SERVICE[s], dm[d]) + tuple(v.get(x, '*') for x in keys))
            return ('rows', cols, rows)
        if name == 'get_unit_price_bids':
            cols = ['DUID', 'BIDTYPE', 'DIRECTION'] + ['PRICEBAND%d' % i for i in range(1, 11)]
            rows = []
            for t in self.traders:
                for s, d, p in t['prices']:
                    dr = {'GEN': 'GENERATOR', 'LOAD': 'LOAD'}.get(d) or ('LOAD' if t['type'] == 'LOAD' else 'GENERATOR')
                    rows.append((t['id'], SERVICE[s], dr) + tuple(p['PriceBand%d' % i] for i in range(1, 11)))
            return ('rows', cols, rows)
        if name == 'get_UIGF_values':
            return ('rows', ['DUID', 'UIGF'], [(self.traders[k]['id'], self.traders[k]['uigf']) for k in self.period_order
                                               if self.traders[k]['uigf'] is not None])
        if name == 'get_violations':
            return ('dict', dict(self.violation))
        if name == 'get_constraint_violation_prices':
            return ('dict', dict(self.price))
        if name == 'is_intervention_period':
            return ('value', self.intervention)
        if name == 'get_constraint_rhs':
            return ('rows', ['set', 'rhs'], [(c['id'], c['rhs']) for c in self.constraints])
        if name == 'get_constraint_type':
            return ('rows', ['set', 'type', 'cost'], [(c['id'], c['type'], c['cost']) for c in self.constraints])
        if name == 'get_constraint_region_lhs':
            return ('rows', ['set', 'region', 'service', 'coefficient'],
                    [(c['id'],) + tuple(x) for c in self.constraints for x in c['region']])
        if name == 'get_constraint_unit_lhs':
            return ('rows', ['set', 'unit', 'service', 'coefficient'],
                    [(c['id'],) + tuple(x) for c in self.constraints for x in c['unit']])
        if name == 'get_constraint_interconnector_lhs':
            return ('rows', ['set', 'interconnector', 'coefficient'],
                    [(c['id'],) + tuple(x) for c in self.constraints for x in c['inter']])
        if name == 'get_market_interconnector_link_bid_availability':
            return ('rows', ['interconnector', 'to_region', 'availability'],
                    [(x['id'], r, v) for x in self.inters for r, v in x['offers']])
        if name == 'get_service_prices':
            m = {'EnergyPrice': 'ENERGY', 'R6Price': 'RAISE6SEC', 'L6Price': 'LOWER6SEC'}
            return ('rows', ['region', 'service', 'price'], [(r, m[s], v) for (r, s), v in self.market_price.items()])
        raise KeyError(name)


READERS = ['get_unit_initial_conditions', 'get_unit_fast_start_parameters', 'get_unit_volume_bids',
           'get_unit_price_bids', 'get_UIGF_values', 'get_violations', 'get_constraint_violation_prices',
           'is_intervention_period', 'get_constraint_rhs', 'get_constraint_type', 'get_constraint_region_lhs',
           'get_constraint_unit_lhs', 'get_constraint_interconnector_lhs',
           'get_market_interconnector_link_bid_availability', 'get_service_prices']


@lru_cache(maxsize=4096)
def _case(day, number, key):
    return Case(day, number, dict(key))


def case(day, number, cfg):
    return _case(day, number, tuple(sorted(cfg.items())))


@lru_cache(maxsize=48)
def _archive(day, numbers, key):
    import io
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED, compresslevel=1) as z:
        for n in numbers:
            c = _case(day, n, key)
            info = zipfile.ZipInfo(c.file_name, (2020, 1, 1, 0, 0, 0))
            info.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(info, c.xml(), compresslevel=1)
    return b.getvalue()


def archive(day, numbers, cfg):
    return _archive(day, tuple(numbers), tuple(sorted(cfg.items())))


def _norm(v):
    if v is None:
        return None
    if isinstance(v, float) and v != v:
        return None
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return float(v) + 0.0
    if hasattr(v, 'item'):
        return _norm(v.item())
    return v


def mismatch(got, exp):
    """None if `got` (as returned by the code under test) states the same as exp, else a description"""
    kind = exp[0]
    if kind == 'value':
        return None if bool(got) == exp[1] else 'got %r, the case file states %r' % (got, exp[1])
    if kind == 'dict':
        g = {k: _norm(v) for k, v in dict(got).items()}
        if g != exp[1]:
            bad = sorted(k for k in set(g) | set(exp[1]) if g.get(k) != exp[1].get(k))
            return '%s: got %s, the case file states %s' % (bad[:3], [g.get(k) for k in bad[:3]],
                                                           [exp[1].get(k) for k in bad[:3]])
        return None
    cols, rows = exp[1], exp[2]
    if any(c not in got.columns for c in cols):
        return 'columns %s, expected %s' % (list(got.columns), cols)
    vals = got.loc[:, cols].astype(object).values.tolist()
    if cols == ['region', 'service', 'price']:
        vals = [[a, b, float(c)] for a, b, c in vals]
    g = [tuple(_norm(v) for v in r) for r in vals]
    e = [tuple(_norm(v) for v in r) for r in rows]
    if len(g) != len(e):
        return '%d rows, the case file states %d (%s vs %s)' % (len(g), len(e), g[:2], e[:2])
    key = lambda r: tuple(repr(x) for x in r[:3])
    for x, y in zip(sorted(g, key=key), sorted(e, key=key)):
        for c, p, q in zip(cols, x, y):
            if q != '*' and p != q:
                return '%s of %s is %r, the case file states %r' % (c, y[:3], p, q)
    return None
