"""Input preparation world (P10, P26): UnitData, ConstraintData, InterconnectorData and DemandData over real loaders.

Clients select intervals, build preparation objects and ask them for tables in any order, any number of times, with failing
downloads, disk and database reads in between, another client working at the same time on the same cache folder and database
file, loaders moving on to other intervals, and callers scribbling over what they were given.  The oracle for an interval is
its preparation in a pristine process (one object per question), which in turn has to state what the simulated market operator
recorded.  Every run executes in a forked child of a process that never ran any of it, so nothing leaks between runs."""
import copy
import os
import pickle
import random
import shutil
import sqlite3
from datetime import datetime, timedelta

from .. import seams, casefile
from ..core import World, HarnessError, Violation, Foreign, SimCrash, Runaway, OutOfTime, cpu_limited
from .seq import advance

BASES = ['2024/07/10', '2023/07/07', '2024/02/29', '2019/12/31']
FMT = '%Y/%m/%d %H:%M:%S'
UNIT = ['get_unit_bid_availability', 'get_unit_uigf_limits', 'get_bid_ramp_rates', 'get_scada_ramp_rates', 'scada+initial',
        'get_initial_unit_output', 'fast:now', 'fast:now-all', 'fast:after', 'fast:after-all', 'get_unit_info',
        'volume_bids', 'price_bids', 'add_fcas_trapezium_constraints', 'get_fcas_max_availability',
        'get_fcas_regulation_trapeziums', 'get_contingency_services']
CONS = ['get_rhs_and_type_excluding_regional_fcas_constraints', 'get_rhs_and_type', 'get_unit_lhs', 'get_interconnector_lhs',
        'get_region_lhs', 'get_fcas_requirements', 'get_violation_costs', 'get_constraint_violation_prices',
        'is_over_constrained_dispatch_rerun']
INTER = ['loss_functions', 'break_points', 'get_interconnector_definitions']
DEMAND = ['get_operational_demand']
METHODS = {'unit': UNIT, 'cons': CONS, 'inter': INTER, 'demand': DEMAND}
TRAPEZIUMS = ('get_fcas_max_availability', 'get_fcas_regulation_trapeziums', 'get_contingency_services')
FLOWS = (-300.0, -10.5, 0.0, 25.0, 400.0)
SERVICES = {'ENERGY': 'energy', 'RAISEREG': 'raise_reg', 'LOWERREG': 'lower_reg', 'RAISE6SEC': 'raise_6s', 'RAISE1SEC': 'raise_1s',
            'RAISE60SEC': 'raise_60s', 'RAISE5MIN': 'raise_5min', 'LOWER6SEC': 'lower_6s', 'LOWER1SEC': 'lower_1s',
            'LOWER60SEC': 'lower_60s', 'LOWER5MIN': 'lower_5min'}
SQL = ['locked', 'ioerr']
DISK = ['eio', 'eacces']
HTTP = ['refused', 'timeout', '404', '503', 'garbage']


def in_child(fn):
    """run fn in a forked child and return what it returns"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                with cpu_limited():
                    out = ('ok', fn())
            except OutOfTime as e:
                out = ('late', str(e))
            except (Violation,) as e:
                out = ('violation', (e.cls, e.msg))
            except HarnessError as e:
                out = ('harness', str(e))
            except BaseException as e:
                import traceback
                out = ('error', traceback.format_exc()[-3000:])
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('child died')
    kind, val = pickle.loads(data)
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(*val)
    if kind == 'late':
        raise OutOfTime(val)
    raise HarnessError(str(val))


# ---------------------------------------------------------------------------------------------------- recorded data
class Records:
    """everything the market operator recorded for one simulated market (pure function of cfg)"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.ccfg = {'salt': cfg['salt'], 'rich': True, 'p_ocd': 0.4, 'p_int': 0.3}
        rng = random.Random('prep:%s:%s' % (cfg['salt'], cfg['base']))
        base = datetime.strptime(cfg['base'], '%Y/%m/%d')
        times = [base + timedelta(hours=13, minutes=35), base + timedelta(hours=13, minutes=40)]
        for _ in range(3):
            times.append(base + timedelta(days=rng.randint(-1, 1), minutes=5 * rng.randint(0, 287)))
        self.whens = sorted({t.strftime(FMT) for t in times})
        self.unpublished = (base + timedelta(days=5, hours=12)).strftime(FMT)
        self.dates = [(base + timedelta(days=d)).strftime(FMT) for d in (-400, -30, 0, 1)]
        f = lambda a, b, n=3: round(rng.uniform(a, b), n)
        self.tables = {}
        links = [('N-Q-MNSP1', 'NSW1', 'QLD1'), ('T-V-MNSP1', 'TAS1', 'VIC1'), ('V-SA', 'VIC1', 'SA1')]
        if rng.random() < 0.4:
            links.append(('V-S-MNSP1', 'VIC1', 'SA1'))
        self.tables['INTERCONNECTOR'] = (['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], [], links)
        ic, lm, lf = [], [], []
        for i, a, b in links:
            for d in self.dates:
                if d != self.dates[0] and rng.random() < 0.4:
                    continue
                for v in (['1'] if rng.random() < 0.6 else ['1', '2']):
                    ic.append((i, d, v, f(0, 1, 2), f(0.9, 1.1, 4), 'MNSP' if i == 'T-V-MNSP1' else 'REGULATED', f(1e-5, 3e-4, 6),
                               f(100, 600, 0) if rng.random() < 0.8 else f(-80, 0, 0), f(100, 1200, 0)))
                    for k, mw in enumerate(sorted(rng.sample(range(-500, 500, 20), rng.randint(3, 6)))):
                        lm.append((i, d, v, str(k - 2), float(mw)))
                    for reg in rng.choice([(a, b), (a, b), (b,), ()]):
                        lf.append((i, d, v, reg, f(-1e-4, 1e-4, 7)))
        self.tables['INTERCONNECTORCONSTRAINT'] = (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE',
                                                    'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'], [], ic)
        self.tables['LOSSMODEL'] = (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'], [], lm)
        self.tables['LOSSFACTORMODEL'] = (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'], [], lf)
        mn = []
        for d in self.dates:
            if d != self.dates[0] and rng.random() < 0.5:
                continue
            mn += [('T-V-MNSP1', 'BLNKTAS', d, '1', 'TAS1', 'VIC1', f(0.9, 1.1, 4), f(0.9, 1.1, 4), 1.0, f(300, 600, 0)),
                   ('T-V-MNSP1', 'BLNKVIC', d, '1', 'VIC1', 'TAS1', f(0.9, 1.1, 4), f(0.9, 1.1, 4), -1.0, f(300, 600, 0))]
        self.tables['MNSP_INTERCONNECTOR'] = (['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION',
                                               'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'], [], mn)
        res, reg, load = [], [], []
        duids = sorted({t['id'] for w in self.whens for t in self.case(w).traders}, key=lambda x: int(x[1:]))
        for w in self.whens + [self.unpublished]:
            for i, _, _ in links:
                if i != 'V-SA' or rng.random() < 0.7:
                    res.append((i, w, f(-500, 500), f(0, 20)))
            for r in casefile.REGIONS:
                reg.append((w, r, f(1000, 9000, 2), f(-100, 100, 2), f(1000, 9000, 2)))
            for u in duids:
                load.append((w, u, rng.choice([0.0, f(20, 200, 1), f(300, 500, 1)]), rng.choice([0.0, f(0, 60, 1)]),
                             rng.choice([0.0, f(20, 200, 1), f(300, 500, 1)]), rng.choice([0.0, f(0, 60, 1)])))
        self.tables['DISPATCHINTERCONNECTORRES'] = (['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES'], [], res)
        self.tables['DISPATCHREGIONSUM'] = (['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'], [], reg)
        self.tables['DISPATCHLOAD'] = (['SETTLEMENTDATE', 'DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN',
                                        'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN'], [], load)
        du = []
        types = {t['id']: t['type'] for w in self.whens for t in self.case(w).traders}
        for k, u in enumerate(duids):
            if k == 5 and rng.random() < 0.3:
                continue        # a unit the registration tables do not know
            for d in self.dates:
                if d != self.dates[0] and rng.random() < 0.5:
                    continue
                end = '2100/01/01 00:00:00'
                du.append((u, d, end, 'LOAD' if types[u] == 'LOAD' else 'GENERATOR', 'CP' + u, casefile.REGIONS[k % 5], f(0.85, 1.05, 4),
                           f(0.98, 1.0, 4), 'SCHEDULED', f(0.85, 1.05, 4) if types[u] == 'BIDIRECTIONAL' and rng.random() < 0.7 else None))
        self.tables['DUDETAILSUMMARY'] = (['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID',
                                           'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF'], [], du)
        for k, v in list(self.tables.items()):
            rows = list(v[2])
            rng.shuffle(rows)
            self.tables[k] = (v[0], v[1], rows)

    def case(self, when):
        day, n = casefile.market_day_and_number(when)
        return casefile.case(day, n, self.ccfg)

    def write_db(self, path):
        con = sqlite3.connect(path)
        text = {'LOSSSEGMENT', 'VERSIONNO'}
        for t, (cols, _, rows) in self.tables.items():
            typ = lambda c, j: 'TEXT' if c in text or any(isinstance(r[j], str) for r in rows) else 'REAL'
            con.execute('CREATE TABLE %s (%s)' % (t, ','.join('%s %s' % (c, typ(c, j)) for j, c in enumerate(cols))))
            con.executemany('INSERT INTO %s VALUES (%s)' % (t, ','.join('?' * len(cols))), rows)
        con.commit()
        con.close()

    # ---- what the records state
    def latest(self, table, when, keys):
        cols, _, rows = self.tables[table]
        e, v = cols.index('EFFECTIVEDATE'), cols.index('VERSIONNO')
        ks = [cols.index(k) for k in keys]
        best = {}
        for r in rows:
            if r[e] <= when:
                k = tuple(r[j] for j in ks)
                best[k] = max(best.get(k, ('', '')), (r[e], r[v]))
        return [dict(zip(cols, r)) for r in rows if r[e] <= when and best[tuple(r[j] for j in ks)] == (r[e], r[v])]

    def at(self, table, when):
        cols, _, rows = self.tables[table]
        j = cols.index('SETTLEMENTDATE')
        return [dict(zip(cols, r)) for r in rows if r[j] == when]

    def direction(self, t, d):
        if d:
            return {'GEN': 'generator', 'LOAD': 'load'}[d]
        return 'load' if t['type'] == 'LOAD' else 'generator'

    def truth(self, when, method, arg=None):
        """(columns, rows) recorded for the interval, or None where only the rules of preparation define the table"""
        c = self.case(when)
        mw = 'WhatIfInitialMW' if c.intervention else 'InitialMW'
        ts = c.traders
        if method == 'get_unit_bid_availability':
            rows = [(t['id'], self.direction(t, d), v['MaxAvail']) for t in ts for s, d, v in t['volume']
                    if casefile.SERVICE[s] == 'ENERGY' and not (when < '2023/07/07 13:40' and t['uigf'] is not None)]
            return ['unit', 'dispatch_type', 'capacity'], rows
        if method == 'get_unit_uigf_limits':
            return ['unit', 'capacity'], [(t['id'], t['uigf']) for t in ts if t['uigf'] is not None]
        if method == 'get_bid_ramp_rates':
            return (['unit', 'dispatch_type', 'initial_output', 'ramp_up_rate', 'ramp_down_rate'],
                    [(t['id'], self.direction(t, d), t['ic'].get(mw), v['RampUpRate'], v['RampDnRate']) for t in ts
                     for s, d, v in t['volume'] if casefile.SERVICE[s] == 'ENERGY'])
        if method in ('get_scada_ramp_rates', 'scada+initial'):
            rows = [(t['id'], t['ic']['SCADARampUpRate'], t['ic']['SCADARampDnRate']) + ((t['ic'].get(mw),) if '+' in method else ())
                    for t in ts if 'SCADARampUpRate' in t['ic']]
            return ['unit', 'scada_ramp_up_rate', 'scada_ramp_down_rate'] + (['initial_output'] if '+' in method else []), rows
        if method == 'get_initial_unit_output':
            return ['unit', 'initial_output'], [(t['id'], t['ic'].get(mw)) for t in ts]
        if method.startswith('fast'):
            fs = []
            for t in ts:
                if t['fast']:
                    f = t['fast']
                    fs.append((t['id'], dict(f, mode=f.get('WhatIfCurrentMode', f['CurrentMode']),
                                             time=f.get('WhatIfCurrentModeTime', f['CurrentModeTime']))))
            if method == 'fast:now':
                return ['unit', 'current_mode'], [(u, f['mode']) for u, f in fs]
            if method == 'fast:now-all':
                return (['unit', 'current_mode', 'time_in_current_mode', 'min_loading', 'mode_one_length', 'mode_two_length',
                         'mode_three_length', 'mode_four_length'],
                        [(u, f['mode'], f['time'], f['MinLoadingMW'], f['T1'], f['T2'], f['T3'], f['T4']) for u, f in fs])
            rows = []
            for u, f in fs:
                if u in arg:
                    m, t, since = advance(f, arg[u])
                    rows.append((u, m, t, since, f['MinLoadingMW'], f['T2'], f['T4']))
            return (['unit', 'end_mode', 'time_in_end_mode', 'time_since_end_of_mode_two', 'min_loading', 'mode_two_length',
                     'mode_four_length'], rows)
        if method == 'get_unit_info':
            cols, _, du = self.tables['DUDETAILSUMMARY']
            best = {}
            for r in du:
                r = dict(zip(cols, r))
                if r['START_DATE'] <= when and r['START_DATE'] >= best.get(r['DUID'], r)['START_DATE']:
                    best[r['DUID']] = r
            rows = []
            for t in ts:
                if t['id'] in best:
                    for d in sorted({self.direction(t, d) for _, d, _ in t['prices']}):
                        r = best[t['id']]
                        tlf = r['TRANSMISSIONLOSSFACTOR']
                        if t['type'] == 'BIDIRECTIONAL' and d == 'generator' and r['SECONDARY_TLF'] is not None:
                            tlf = r['SECONDARY_TLF']
                        rows.append((t['id'], d, r['REGIONID'], tlf * r['DISTRIBUTIONLOSSFACTOR']))
            return ['unit', 'dispatch_type', 'region', 'loss_factor'], rows
        if method in ('volume_bids', 'price_bids') + TRAPEZIUMS:
            return self.processed(when, method, c, mw)
        sv = lambda s: SERVICES[casefile.SERVICE[s]]
        ty = {'LE': '<=', 'GE': '>=', 'EQ': '='}
        fc = [x['id'] for x in c.constraints if x['region']]
        if method == 'get_rhs_and_type_excluding_regional_fcas_constraints':
            return ['set', 'rhs', 'type'], [(x['id'], x['rhs'], ty[x['type']]) for x in c.constraints if x['id'] not in fc]
        if method == 'get_rhs_and_type':
            return ['set', 'rhs', 'type'], [(x['id'], x['rhs'], ty[x['type']]) for x in c.constraints]
        if method == 'get_unit_lhs':
            return ['set', 'unit', 'service', 'coefficient'], [(x['id'], u, sv(s), k) for x in c.constraints for u, s, k in x['unit']]
        if method == 'get_region_lhs':
            return ['set', 'region', 'service', 'coefficient'], [(x['id'], u, sv(s), k) for x in c.constraints for u, s, k in x['region']]
        if method == 'get_interconnector_lhs':
            return ['set', 'interconnector', 'coefficient'], [(x['id'], u, k) for x in c.constraints for u, k in x['inter']]
        if method == 'get_fcas_requirements':
            return (['set', 'service', 'region', 'type', 'volume'],
                    [(x['id'], sv(s), u, ty[x['type']], x['rhs']) for x in c.constraints for u, s, k in x['region']])
        if method == 'get_violation_costs':
            return ['set', 'cost'], [(x['id'], x['cost']) for x in c.constraints]
        if method == 'get_constraint_violation_prices':
            return ['key', 'value'], sorted(c.price.items())
        if method == 'is_over_constrained_dispatch_rerun':
            return ['value'], [(c.ocd,)]
        if method == 'get_operational_demand':
            return ['region', 'demand'], [(r['REGIONID'], r['TOTALDEMAND']) for r in self.at('DISPATCHREGIONSUM', when)]
        # interconnectors
        used = {r['INTERCONNECTORID'] for r in self.at('DISPATCHINTERCONNECTORRES', when)}
        cons = [r for r in self.latest('INTERCONNECTORCONSTRAINT', when, ['INTERCONNECTORID']) if r['INTERCONNECTORID'] in used]
        ends = {r[0]: r[1:] for r in self.tables['INTERCONNECTOR'][2]}
        defs = []
        for r in cons:
            i = r['INTERCONNECTORID']
            if r['ICTYPE'] == 'REGULATED':
                defs.append((i, i, ends[i][0], ends[i][1], -r['IMPORTLIMIT'], r['EXPORTLIMIT'], 1.0, 1.0, 1))
            else:
                for m in self.latest('MNSP_INTERCONNECTOR', when, ['INTERCONNECTORID', 'LINKID']):
                    offer = [a for x in c.inters if x['id'] == i for reg, a in x['offers'] if reg == m['TOREGION']]
                    for a in offer:
                        defs.append((i, m['LINKID'], m['FROMREGION'], m['TOREGION'], 0.0, a, m['FROM_REGION_TLF'], m['TO_REGION_TLF'],
                                     m['LHSFACTOR']))
        if method == 'get_interconnector_definitions':
            return (['interconnector', 'link', 'from_region', 'to_region', 'min', 'max', 'from_region_loss_factor',
                     'to_region_loss_factor', 'generic_constraint_factor'], defs)
        if method == 'break_points':
            rows = []
            for r in self.latest('LOSSMODEL', when, ['INTERCONNECTORID']):
                for d in defs:
                    if d[0] == r['INTERCONNECTORID']:
                        rows.append((d[0], d[1], int(r['LOSSSEGMENT']) * d[8], r['MWBREAKPOINT'] * d[8]))
            return ['interconnector', 'link', 'loss_segment', 'break_point'], rows
        if method == 'loss_functions':
            dem = {r['REGIONID']: r['INITIALSUPPLY'] + r['DEMANDFORECAST'] for r in self.at('DISPATCHREGIONSUM', when)}
            rows = []
            for r in cons:
                i = r['INTERCONNECTORID']
                k = r['LOSSCONSTANT'] + sum(m['DEMANDCOEFFICIENT'] * dem[m['REGIONID']] for m in self.latest(
                    'LOSSFACTORMODEL', when, ['INTERCONNECTORID']) if m['INTERCONNECTORID'] == i)
                share = 1.0 if i == 'T-V-MNSP1' else r['FROMREGIONLOSSSHARE']
                for d in defs:
                    if d[0] == i:
                        fn = tuple((k - 1) * (x * d[8]) + r['LOSSFLOWCOEFFICIENT'] / 2 * (x * d[8]) ** 2 for x in FLOWS)
                        rows.append((i, d[1], share, fn))
            return ['interconnector', 'link', 'from_region_loss_share', 'loss_function'], rows
        return None

    def processed(self, when, method, c, mw):
        """bids and trapeziums after the documented scaling rules and the preconditions for enabling FCAS"""
        cols, info = self.truth(when, 'get_unit_info')
        loss = {(u, d): k for u, d, _, k in info}
        known = {u for u, _, _, _ in info}
        cap = {(u, d): k for u, d, k in self.truth(when, 'get_unit_bid_availability')[1]}
        agc = {r['DUID']: r for r in self.at('DISPATCHLOAD', when)}
        kept, energy = {}, {}
        for t in c.traders:
            u, bdu = t['id'], t['type'] == 'BIDIRECTIONAL'
            fcas = {}
            for s, d, v in t['volume']:
                sv, d = casefile.SERVICE[s], self.direction(t, d)
                if sv == 'ENERGY':
                    energy[u, d, sv] = v
                    continue
                top, lo, lb, hb, hi = (v[x] for x in ('MaxAvail', 'EnablementMin', 'LowBreakpoint', 'HighBreakpoint', 'EnablementMax'))
                reg = sv in ('RAISEREG', 'LOWERREG')
                if reg:
                    if u not in agc:
                        continue
                    a, b = agc[u][sv + 'ENABLEMENTMIN'], agc[u][sv + 'ENABLEMENTMAX']
                    if a > 0 and a > lo:            # the control system allows less: shift the slope
                        lo, lb = a, lb + a - lo
                    if 0 < b < hi:
                        hi, hb = b, hb - (hi - b)
                    rate = t['ic'].get('SCADARampUpRate' if sv == 'RAISEREG' else 'SCADARampDnRate')
                    if rate and top > rate / 12:    # less can be ramped: cut the top off along the slopes
                        lb, hb, top = lo + (lb - lo) * (rate / 12) / top, hi - (hi - hb) * (rate / 12) / top, rate / 12
                if t['uigf'] is not None and hi > t['uigf']:
                    hi, hb = t['uigf'], hb - (hi - t['uigf'])
                fcas[d, sv] = (top, lo, lb, hb, hi, v)
            first = {k: x for k, x in fcas.items() if x[0] > 0 and any(x[5]['BandAvail%d' % b] > 0 for b in range(1, 11)) and
                     not cap.get((u, k[0]), x[1]) < x[1]}
            mwh = t['ic'].get(mw)
            mwh = round(mwh if bdu else max(0.0, mwh), 5)
            for (d, sv), x in first.items():
                lo, hi = x[1], x[4]
                reg = sv in ('RAISEREG', 'LOWERREG')
                if d == 'load' and bdu:
                    if lo > 0 or reg and -cap.get((u, 'load'), -hi) > hi:
                        continue
                elif hi < 0 or bdu and not reg and -cap.get((u, 'load'), -hi) > hi:
                    continue
                if bdu and reg:        # the two sides of a bidirectional unit regulate as one
                    lo = first.get(('load', sv), x)[1]
                    hi = first.get(('generator', sv), x)[4]
                if not lo <= mwh <= hi or reg and t['ic']['AGCStatus'] == 0:
                    continue
                kept[u, d, sv] = x
        if method == 'volume_bids':
            rows = [(k[0], k[1], SERVICES[k[2]]) + tuple(v['BandAvail%d' % b] for b in range(1, 11))
                    for k, v in list(energy.items()) + [(k, x[5]) for k, x in kept.items()] if k[0] in known]
            return ['unit', 'dispatch_type', 'service'] + [str(b) for b in range(1, 11)], rows
        if method == 'price_bids':
            rows = []
            for t in c.traders:
                for s, d, p in t['prices']:
                    k = t['id'], self.direction(t, d), casefile.SERVICE[s]
                    if k[:2] in loss and (k[2] == 'ENERGY' or k in kept):
                        rows.append((k[0], k[1], SERVICES[k[2]]) + tuple(p['PriceBand%d' % b] * (loss[k[:2]] if k[2] == 'ENERGY' else 1.0)
                                                                         for b in range(1, 11)))
            return ['unit', 'dispatch_type', 'service'] + [str(b) for b in range(1, 11)], rows
        want = {'get_fcas_regulation_trapeziums': lambda sv: sv.endswith('REG'), 'get_contingency_services': lambda sv: not sv.endswith('REG'),
                'get_fcas_max_availability': lambda sv: True}[method]
        n = 1 if method == 'get_fcas_max_availability' else 5
        return (['unit', 'dispatch_type', 'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point',
                 'enablement_max'][:3 + n], [(k[0], k[1], SERVICES[k[2]]) + x[:n] for k, x in kept.items() if want(k[2])])


_records = {}


def records(cfg):
    k = (cfg['salt'], cfg['base'])
    if k not in _records:
        if len(_records) > 40:
            _records.clear()
        _records[k] = Records(cfg)
    return _records[k]


# ---------------------------------------------------------------------------------------------------- calls
def norm(v):
    if callable(v):
        return tuple(norm(v(x)) for x in FLOWS)
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    v = casefile._norm(v)
    if isinstance(v, bool):
        return float(v)
    return float('%.9g' % v) + 0.0 if isinstance(v, float) else v


def canon(got):
    """a returned table as (columns, sorted rows)"""
    if isinstance(got, dict):
        return ['key', 'value'], sorted((k, norm(v)) for k, v in got.items())
    if not hasattr(got, 'columns'):
        return ['value'], [(norm(got),)]
    cols = sorted(got.columns)
    rows = [tuple(norm(v) for v in r) for r in got.loc[:, cols].astype(object).values.tolist()]
    return cols, sorted(rows, key=repr)


def dispatch_frame(arg):
    import pandas as pd
    us = sorted(arg)
    return pd.DataFrame({'unit': us + us[:1], 'service': ['energy'] * len(us) + ['raise_reg'] * len(us[:1]),
                         'dispatch_type': 'generator', 'dispatch': [arg[u] for u in us] + [5.0] * len(us[:1])})


def ask(obj, method, arg=None):
    """one question to a preparation object; returns (raw results for the caller, table, arguments unchanged?)"""
    if method == 'scada+initial':
        r = obj.get_scada_ramp_rates(inlude_initial_output=True)
    elif method.startswith('fast:now'):
        r = obj.get_fast_start_profiles_for_dispatch(**({'return_all_columns': True} if method.endswith('all') else {}))
    elif method.startswith('fast:after'):
        d = dispatch_frame(arg)
        before = d.copy()
        r = obj.get_fast_start_profiles_for_dispatch(d, **({'return_all_columns': True} if method.endswith('all') else {}))
        return [r], r, d.equals(before)
    elif method in ('volume_bids', 'price_bids'):
        v, p = obj.get_processed_bids()
        return [v, p], v if method == 'volume_bids' else p, True
    elif method in ('loss_functions', 'break_points'):
        a, b = obj.get_interconnector_loss_model()
        return [a, b], a if method == 'loss_functions' else b, True
    else:
        r = getattr(obj, method)()
    return [r], r, True


def make(kind, loader):
    from nempy.historical_inputs import units, constraints, interconnectors, demand
    return {'unit': units.UnitData, 'cons': constraints.ConstraintData, 'inter': interconnectors.InterconnectorData,
            'demand': demand.DemandData}[kind](loader)


_oracle = {}


def oracle(cfg, when, method, arg):
    """table `method` of interval `when`, prepared in a pristine process by an object asked nothing else; None if it fails"""
    key = (cfg['salt'], cfg['base'], when)
    if key not in _oracle:
        _oracle[key] = in_child(lambda: fresh(cfg, when))
    if method.startswith('fast:after'):
        k = key + (method, repr(sorted(arg.items())))
        if k not in _oracle:
            _oracle[k] = in_child(lambda: fresh(cfg, when, [('unit', method, arg)]))
        return _oracle[k][method]
    return _oracle[key][method]


def fresh(cfg, when, questions=None):
    import warnings
    warnings.simplefilter('ignore')
    from nempy.historical_inputs import loaders, xml_cache, mms_db
    rec = records(cfg)
    d = seams.scratch_dir()
    try:
        cache = os.path.join(d, 'cache')
        os.mkdir(cache)
        c = rec.case(when)
        with open(os.path.join(cache, c.file_name), 'wb') as f:
            f.write(c.xml())
        rec.write_db(os.path.join(d, 'mms.db'))
        con = sqlite3.connect(os.path.join(d, 'mms.db'))
        loader = loaders.RawInputsLoader(xml_cache.XMLCacheManager(cache), mms_db.DBManager(con))
        loader.set_interval(when)
        out = {}
        if questions is None:
            questions = [(k, m, None) for k, ms in METHODS.items() for m in ms if not m.startswith('fast:after') and
                         m != 'add_fcas_trapezium_constraints']
        for kind, m, arg in questions:
            try:
                o = make(kind, loader)
                if m in TRAPEZIUMS:
                    o.get_processed_bids()
                    o.add_fcas_trapezium_constraints()
                out[m] = canon(ask(o, m, arg)[1])
            except Exception as e:
                out[m] = '%s: %s' % (type(e).__name__, e)
        con.close()
        return out
    finally:
        seams.rm_scratch(d)


# ---------------------------------------------------------------------------------------------------- world
class PrepWorld(World):
    name = 'prep'
    real = ['nempy.historical_inputs.{units,constraints,interconnectors,demand}', 'nempy.historical_inputs.loaders',
            'nempy.historical_inputs.xml_cache', 'nempy.historical_inputs.mms_db (reads)', 'sqlite on a real file']
    stub = ['nemweb server and network transport', 'clock', 'disk and sqlite read faults', 'case files and MMS rows (generated)']
    rule = ('one evaluation = one seeded history of selections, constructions and requests by two interleaved clients, every '
            'returned table compared with a pristine preparation and the records; distinct non-trivial = distinct event logs')
    state_measure = 'hash of (object, interval, selected interval, table asked) at each request'
    own = {'P10': {'history-dependent', 'wrong-prepared-data', 'prep-failed', 'call-order', 'caller-modified', 'not-recovered'},
           'P26': {'wrong-prepared-data', 'prep-failed', 'not-recovered'}}

    def generate(self, rng, prop, tier):
        if prop == 'P26':
            return self.generate_rules(rng)
        cfg = {'salt': rng.randint(0, 3 if tier == 'quick' else 30), 'base': rng.choice(BASES),
               'cached': [rng.random() < 0.7 for _ in range(6)]}
        if rng.random() < 0.3:        # the second client works on other data, in another folder and another database
            cfg['salt2'] = (cfg['salt'] + rng.randint(1, 3)) % (4 if tier == 'quick' else 31)
        objs = []
        steps = []
        for c in (0, 1):
            steps.append({'op': 'select', 'client': c, 'when': rng.randint(0, 4), 'faults': []})
        n = rng.randint(6, 22) if tier == 'quick' else rng.randint(8, 50)
        for _ in range(n):
            steps.append(self.step(rng, objs))
        return {'world': 'prep', 'cfg': cfg, 'steps': steps}

    def generate_rules(self, rng):
        """ever new records, a plain history: what is prepared is what the rules make of them"""
        cfg = {'salt': rng.randint(100, 10 ** 6), 'base': rng.choice(BASES), 'cached': [True] * 6}
        steps, n = [], 0
        for k in rng.sample(range(5), rng.randint(2, 4)):
            c = rng.randint(0, 1)
            sel = {'op': 'select', 'client': c, 'when': k, 'faults': []}
            if rng.random() < 0.1:
                sel['faults'].append({'k': 'sql', 'ev': rng.randint(0, 20), 'what': rng.choice(SQL)})
                steps += [sel, dict(sel, faults=[])]
            else:
                steps.append(sel)
            for kind in ['unit'] + [x for x in ('inter', 'cons', 'demand') if rng.random() < 0.5]:
                steps.append({'op': 'new', 'client': c, 'kind': kind, 'obj': n, 'faults': []})
                ms = list(METHODS[kind])
                if kind == 'unit':
                    ms = [m for m in ms if m in ('volume_bids', 'price_bids') + TRAPEZIUMS or rng.random() < 0.35]
                rng.shuffle(ms)
                for m in ms:
                    s = {'op': 'ask', 'client': c, 'obj': n, 'method': m, 'spoil': False, 'faults': []}
                    if m in TRAPEZIUMS:
                        s['before'] = ['volume_bids', 'add_fcas_trapezium_constraints']
                    if m.startswith('fast:after'):
                        s['arg'] = {u: rng.choice([0.0, 0.0, 5.0, 40.0]) for u in ('U3', 'U4') if rng.random() < 0.9} or {'U3': 0.0}
                    if rng.random() < 0.04:
                        s['faults'].append({'k': 'sql', 'ev': int(rng.random() ** 1.5 * 25), 'what': rng.choice(SQL)})
                    steps.append(s)
                n += 1
        return {'world': 'prep', 'cfg': cfg, 'steps': steps}

    def step(self, rng, objs, nested=None):
        r = rng.random()
        client = (0 if rng.random() < 0.7 else 1) if nested is None else nested
        mine = [k for k, o in enumerate(objs) if o[0] == client]
        if r < 0.16:
            s = {'op': 'select', 'client': client, 'when': -1 if rng.random() < 0.15 else rng.randint(0, 4), 'faults': []}
        elif r < 0.4 or not mine:
            kind = rng.choice(['unit', 'unit', 'unit', 'cons', 'inter', 'inter', 'demand'])
            s = {'op': 'new', 'client': client, 'kind': kind, 'obj': len(objs), 'faults': []}
            objs.append((client, kind))
        else:
            k = rng.choice(mine[-3:])
            m = rng.choice(METHODS[objs[k][1]])
            s = {'op': 'ask', 'client': client, 'obj': k, 'method': m, 'spoil': rng.random() < 0.4, 'faults': []}
            if m in TRAPEZIUMS and rng.random() < 0.7:
                s['before'] = ['volume_bids', 'add_fcas_trapezium_constraints']
            if m.startswith('fast:after'):
                s['arg'] = {u: rng.choice([0.0, 0.0, 5.0, 40.0]) for u in ('U3', 'U4') if rng.random() < 0.9} or {'U3': 0.0}
        if nested is None:
            if rng.random() < 0.3:
                kind = rng.choice(['sql', 'sql', 'disk', 'http'])
                s['faults'].append({'k': kind, 'ev': int(rng.random() ** 1.5 * 25) if kind == 'sql' else rng.randint(0, 1),
                                    'what': rng.choice({'sql': SQL, 'disk': DISK, 'http': HTTP}[kind])})
            if rng.random() < 0.25:
                s['other'] = {'ev': int(rng.random() ** 1.5 * 25), 'step': self.step(rng, objs, 1 - client)}
        return s

    def nontrivial(self, ctx):
        return ctx.probes.get('asked', 0) > 0

    def execute(self, s, prop, ctx):
        import nempy.historical_inputs.units, nempy.historical_inputs.constraints          # noqa: imported, never run, here
        import nempy.historical_inputs.interconnectors, nempy.historical_inputs.demand     # noqa
        import nempy.historical_inputs.loaders, nempy.historical_inputs.xml_cache, nempy.historical_inputs.mms_db   # noqa
        cfgs = [s['cfg'], dict(s['cfg'], salt=s['cfg'].get('salt2', s['cfg']['salt']))]
        recs = [records(c) for c in cfgs]
        expect = {}
        steps = []
        for st in s['steps']:
            steps.append(st)
            if st.get('other'):
                steps.append(st['other']['step'])
        for c, (cfg, rec) in enumerate(zip(cfgs, recs)):
            own = [st for st in steps if st['client'] == c]
            for w in sorted({rec.whens[st['when'] % len(rec.whens)] for st in own if st['op'] == 'select' and st['when'] >= 0}):
                for st in own:
                    if st['op'] == 'ask' and st['method'] != 'add_fcas_trapezium_constraints':
                        k = (cfg['salt'], w, st['method'], repr(sorted((st.get('arg') or {}).items())))
                        if k not in expect:
                            expect[k] = oracle(cfg, w, st['method'], st.get('arg')) if prop != 'P26' else None
        run = lambda: PrepRun(s, prop, ctx, recs, expect).guarded()
        out = in_child(run)
        ctx.log, ctx.faults, ctx.probes, ctx.states, ctx.sim_time, ctx.evaluations = out['ctx']
        if out['verdict'] is not None:
            k, a, b = out['verdict']
            raise Violation(a, b) if k == 'violation' else Foreign(a)

    def simplify(self, s):
        for i, st in enumerate(s['steps']):
            if st.get('other'):
                c = copy.deepcopy(s)
                del c['steps'][i]['other']
                yield c
            if st.get('spoil'):
                c = copy.deepcopy(s)
                c['steps'][i]['spoil'] = False
                yield c
            if st.get('before'):
                c = copy.deepcopy(s)
                del c['steps'][i]['before']
                yield c


class PrepRun:
    def __init__(self, s, prop, ctx, recs, expect):
        self.s, self.prop, self.ctx, self.recs, self.expect = s, prop, ctx, recs, expect
        self.apart = 'salt2' in s['cfg']
        self.active = 0
        self.clients, self.objs = {}, {}

    def guarded(self):
        verdict = None
        self.dir = seams.scratch_dir()
        try:
            self.go()
        except Violation as v:
            verdict = ('violation', v.cls, v.msg)
        except Foreign as e:
            verdict = ('foreign', str(e), '')
        finally:
            seams.ENV.net = seams.ENV.clock = seams.ENV.disk = None
            seams.rm_scratch(self.dir)
        c = self.ctx
        return {'ctx': (c.log, c.faults, c.probes, c.states, c.sim_time, c.evaluations), 'verdict': verdict}

    def go(self):
        import warnings
        warnings.simplefilter('ignore')
        from nempy.historical_inputs import units
        self.order_error = units.MethodCallOrderError
        for c in (0, 1) if self.apart else (0,):
            os.mkdir(self.folder(c))
            self.recs[c].write_db(self.db(c))
            for k, w in enumerate(self.recs[c].whens):
                if self.s['cfg']['cached'][k]:
                    case = self.recs[c].case(w)
                    with open(os.path.join(self.folder(c), case.file_name), 'wb') as f:
                        f.write(case.xml())
        self.http_plan, self.reqs = {}, 0
        self.disk = seams.Disk(self.dir, self.ctx)
        seams.ENV.net, seams.ENV.clock, seams.ENV.disk = self.net, self.sleep, self.disk
        for i, st in enumerate(self.s['steps']):
            self.ctx.sim_time += 1
            self.run_step(i, st, False)
        if self.prop != 'P26':
            self.settle()

    def folder(self, c):
        return os.path.join(self.dir, 'cache%d' % (c if self.apart else 0))

    def db(self, c):
        return os.path.join(self.dir, 'mms%d.db' % (c if self.apart else 0))

    def sleep(self, s):
        self.ctx.sim_time += s

    def net(self, request):
        import requests
        k = self.reqs
        self.reqs += 1
        f = self.http_plan.get(k)
        if f:
            self.ctx.fault('http-' + f)
            self.hit = True
            if f in ('refused', 'timeout'):
                raise (requests.ConnectionError if f == 'refused' else requests.Timeout)('simulated')
            if f == 'garbage':
                return seams.response(request, 200, b'<html>busy')
            return seams.response(request, int(f), b'<html>error')
        day = request.url.split('NemSpdOutputs_')[-1][:8]
        rec = self.recs[self.active]
        nums = sorted({casefile.market_day_and_number(w)[1] for w in rec.whens if casefile.market_day_and_number(w)[0] == day})
        if not nums:
            return seams.response(request, 404, b'<html>not found')
        return seams.response(request, 200, casefile.archive(day, nums, rec.ccfg))

    def client(self, c):
        from nempy.historical_inputs import loaders, xml_cache, mms_db
        if c not in self.clients:
            plan = seams.SqlPlan(self.ctx)
            con = seams.connect(self.db(c), plan)
            loader = loaders.RawInputsLoader(xml_cache.XMLCacheManager(self.folder(c)), mms_db.DBManager(con))
            self.clients[c] = {'loader': loader, 'plan': plan, 'when': None, 'good': False}
        return self.clients[c]

    def run_step(self, i, st, nested):
        before_active, self.active = self.active, st['client']
        try:
            self.run_step_as(i, st, nested)
        finally:
            self.active = before_active

    def run_step_as(self, i, st, nested):
        cl = self.client(st['client'])
        if not nested:
            before = sum(self.ctx.faults.values())
            self.http_plan = {f['ev']: f['what'] for f in st['faults'] if f['k'] == 'http'}
            self.reqs, self.hit = 0, False
            self.disk.begin_op({f['ev']: f['what'] for f in st['faults'] if f['k'] == 'disk'})
            cl['plan'].begin_op({f['ev']: (f['what'],) for f in st['faults'] if f['k'] == 'sql'})
            other = st.get('other')
            if other:
                def hook(k, what):
                    if k == other['ev']:
                        self.ctx.probe('interleaved')
                        keep = (self.http_plan, self.disk.plan, self.reqs)
                        self.http_plan, self.disk.plan = {}, {}
                        try:
                            self.run_step('%s.other' % i, other['step'], True)
                        finally:
                            self.http_plan, self.disk.plan, self.reqs = keep
                cl['plan'].hook = hook
            faulty = lambda: sum(self.ctx.faults.values()) > before
        else:
            cl['plan'].begin_op({})
            faulty = lambda: False
        try:
            getattr(self, 'do_' + st['op'])(i, st, cl, faulty)
        finally:
            cl['plan'].hook = None
            if not nested:
                self.http_plan = {}
                self.disk.begin_op({})
            cl['plan'].begin_op({})

    def call(self, fn):
        try:
            return fn(), None
        except (Violation, Foreign, HarnessError):
            raise
        except Exception as e:
            return None, e

    def do_select(self, i, st, cl, faulty):
        rec = self.recs[st['client']]
        when = rec.whens[st['when'] % len(rec.whens)] if st['when'] >= 0 else rec.unpublished
        _, err = self.call(lambda: cl['loader'].set_interval(when))
        cl['when'], cl['good'] = when, err is None and st['when'] >= 0
        self.ctx.ev(i, 'select', st['client'], when, 'ok' if err is None else type(err).__name__)
        if err is not None:
            self.ctx.probe('selection-failed')
            self.ctx.check(faulty() or st['when'] < 0, 'prep-failed', 'selecting %s failed without any fault: %s: %s' % (
                when, type(err).__name__, err))

    def do_new(self, i, st, cl, faulty):
        if cl['when'] is None:
            return
        o, err = self.call(lambda: make(st['kind'], cl['loader']))
        self.ctx.ev(i, 'new', st['client'], st['kind'], cl['when'], 'ok' if err is None else type(err).__name__)
        if err is not None:
            if cl['good']:
                self.ctx.check(faulty(), 'prep-failed', 'preparing %s of %s failed without any fault: %s: %s' % (
                    st['kind'], cl['when'], type(err).__name__, err))
                self.ctx.probe('construction-failed')
            return
        if not cl['good']:
            if st['kind'] != 'demand':
                return        # another property decides what a failed selection may serve
        self.objs[st['obj']] = {'o': o, 'kind': st['kind'], 'when': cl['when'] if cl['good'] else None, 'client': st['client'],
                                'processed': False, 'added': False}

    def do_ask(self, i, st, cl, faulty):
        ob = self.objs.get(st['obj'])
        if ob is None:
            return
        for m in st.get('before', []):
            self.question(i, ob, cl, m, None, False, faulty, st['obj'])
        self.question(i, ob, cl, st['method'], st.get('arg'), st['spoil'], faulty, st['obj'])

    def allowed(self, ob, cl, method, arg):
        """tables this question may be answered with"""
        key = lambda w: (self.recs[ob['client']].cfg['salt'], w, method, repr(sorted((arg or {}).items())))
        whens = [ob['when']]
        if ob['kind'] == 'demand':        # demand is read when asked for
            if not cl['good']:
                return []
            whens.append(cl['when'])
        return [(w, self.expect[key(w)]) for w in dict.fromkeys(whens) if w is not None and key(w) in self.expect]

    def question(self, i, ob, cl, method, arg, spoil, faulty, name):
        ctx = self.ctx
        late = cl['when'] != ob['when']
        res, err = self.call(lambda: ask(ob['o'], method, arg))
        tag = '%s of %s%s' % (method, ob['when'], ' after the loader moved on to %s' % cl['when'] if late else '')
        ctx.ev(i, 'ask', name, method, ob['when'], 'ok' if err is None else type(err).__name__, 'late' if late else '')
        if method == 'add_fcas_trapezium_constraints' or method in TRAPEZIUMS:
            ready = ob['processed'] if method not in TRAPEZIUMS else ob['added']
            if not ready:
                ctx.check(isinstance(err, self.order_error), 'call-order', '%s before the calls it depends on gave %s' % (
                    tag, 'a result' if err is None else type(err).__name__))
                ctx.probe('call-order-error')
                return
        if err is not None:
            if ob['kind'] == 'demand' and not cl['good']:
                return
            ctx.check(faulty(), 'prep-failed', '%s failed without any fault: %s: %s' % (tag, type(err).__name__, err))
            ctx.probe('request-failed')
            return
        if method in ('volume_bids', 'price_bids'):
            ob['processed'] = True
        if method == 'add_fcas_trapezium_constraints':
            ob['added'] = True
            return
        raw, table, intact = res
        ctx.check(intact, 'caller-modified', '%s changed the dispatch it was given' % tag)
        options = self.allowed(ob, cl, method, arg)
        if options:
            got = canon(table)
            ctx.probe('asked')
            if late:
                ctx.probe('asked-late')
            ctx.state(name, ob['when'], cl['when'], method)
            probs = [self.differs(ob, w, e, got, method, arg) for w, e in options]
            if all(probs):
                p = probs[0]
                ctx.check(False, p[0], '%s: %s' % (tag, p[1]))
            ctx.evaluations += 1
        if spoil:
            ctx.probe('caller-scribbled')
            for x in raw:
                scribble(x)

    def differs(self, ob, when, exp, got, method, arg):
        rec = self.recs[ob['client']]
        if self.prop == 'P26':
            truth = rec.truth(when, method, arg)
            bad = against(truth, got) if truth is not None else None
            return ('wrong-prepared-data', bad) if bad else None
        if isinstance(exp, str):
            return ('prep-failed', 'a pristine process cannot prepare it: %s' % exp)
        truth = rec.truth(when, method, arg)
        if truth is not None:
            bad = against(truth, exp)
            if bad:
                return ('wrong-prepared-data', 'prepared by a pristine process: %s' % bad)
        if got != exp:
            if got[0] != exp[0]:
                return ('history-dependent', 'columns %s, a pristine process gives %s' % (got[0], exp[0]))
            a = [r for r in got[1] if r not in exp[1]][:2]
            b = [r for r in exp[1] if r not in got[1]][:2]
            return ('history-dependent', 'columns %s: given %s (%d rows), a pristine process gives %s (%d rows)' % (
                got[0], a, len(got[1]), b, len(exp[1])))
        return None

    def settle(self):
        """faults have stopped: every object can be asked, every interval prepared"""
        for name, ob in sorted(self.objs.items()):
            if ob['when'] is None:
                continue
            for k, exp in sorted(self.expect.items()):
                salt, w, m, a = k
                if w != ob['when'] or salt != self.recs[ob['client']].cfg['salt'] or m not in METHODS[ob['kind']] or m in TRAPEZIUMS or m.startswith('fast:after'):
                    continue
                if ob['kind'] == 'demand':
                    continue
                res, err = self.call(lambda: ask(ob['o'], m))
                self.ctx.check(err is None, 'not-recovered', '%s of %s fails after the faults stopped: %s: %s' % (
                    m, w, type(err).__name__, err))
                p = self.differs(ob, w, exp, canon(res[1]), m, None)
                if p:
                    self.ctx.check(False, p[0], '%s of %s asked at the end: %s' % (m, w, p[1]))
                self.ctx.evaluations += 1
        self.ctx.probe('settled')


def against(truth, got):
    cols, rows = truth
    if any(c not in got[0] for c in cols):
        return 'columns %s, recorded are %s' % (got[0], cols)
    idx = [got[0].index(c) for c in cols]
    g = sorted((tuple(r[j] for j in idx) for r in got[1]), key=repr)
    e = sorted((tuple(norm(v) for v in r) for r in rows), key=repr)
    if len(g) != len(e):
        return '%d rows, recorded are %d (extra %s, missing %s)' % (len(g), len(e), [r for r in g if r not in e][:2],
                                                                   [r for r in e if r not in g][:2])
    left = list(e)
    for r in g:
        m = [x for x in left if all(near(a, b) for a, b in zip(r, x))]
        if not m:
            return 'columns %s: %s is not recorded (recorded: %s)' % (cols, r, [x for x in left if x[0] == r[0]][:3])
        left.remove(m[0])
    return None


def near(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    return a == b


def scribble(got):
    if isinstance(got, dict):
        for k in list(got):
            got[k] = -1.0
    elif hasattr(got, 'columns') and len(got):
        for col in list(got.columns):
            v = got[col]
            got[col] = 'SPOILED' if v.dtype == object else -12345.0
        got.drop(got.index[:1], inplace=True)
