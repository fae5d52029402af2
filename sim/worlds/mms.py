"""Simulated world around nempy.historical_inputs.mms_db.

Real code: mms_db, pandas.to_sql / read_sql_query, sqlite3 on a real database file, requests (above the transport
adapter), zipfile.  Simulated: nemweb, the network, process death, sqlite statement failures, the other process that
reads the same database file between any two statements of the writer.
"""
import io
import math
import os
import shutil
import sqlite3
import zipfile

from ..core import World, SimCrash, HarnessError
from .. import seams

FIVE_MIN = ['00:00:00', '00:05:00', '04:00:00', '04:05:00', '12:00:00', '23:55:00']

# Independent statement of what nemweb's tables look like and which columns nempy documents that it keeps.
MULTI = {
    'DISPATCHREGIONSUM': (['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'],
                          ['SETTLEMENTDATE', 'REGIONID']),
    'DISPATCHLOAD': (['SETTLEMENTDATE', 'DUID', 'DISPATCHMODE', 'AGCSTATUS', 'INITIALMW', 'TOTALCLEARED',
                      'RAMPDOWNRATE', 'RAMPUPRATE', 'AVAILABILITY', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN',
                      'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN', 'SEMIDISPATCHCAP', 'LOWER5MIN', 'LOWER60SEC',
                      'LOWER6SEC', 'LOWER1SEC', 'RAISE5MIN', 'RAISE60SEC', 'RAISE6SEC', 'RAISE1SEC', 'LOWERREG',
                      'RAISEREG', 'RAISEREGAVAILABILITY', 'RAISE6SECACTUALAVAILABILITY', 'RAISE1SECACTUALAVAILABILITY',
                      'RAISE60SECACTUALAVAILABILITY', 'RAISE5MINACTUALAVAILABILITY', 'RAISEREGACTUALAVAILABILITY',
                      'LOWER6SECACTUALAVAILABILITY', 'LOWER1SECACTUALAVAILABILITY', 'LOWER60SECACTUALAVAILABILITY',
                      'LOWER5MINACTUALAVAILABILITY', 'LOWERREGACTUALAVAILABILITY'], ['SETTLEMENTDATE', 'DUID']),
    'DISPATCHPRICE': (['SETTLEMENTDATE', 'REGIONID', 'ROP', 'RAISE6SECROP', 'RAISE1SECROP', 'RAISE60SECROP',
                       'RAISE5MINROP', 'RAISEREGROP', 'LOWER6SECROP', 'LOWER1SECROP', 'LOWER60SECROP', 'LOWER5MINROP',
                       'LOWERREGROP'], ['SETTLEMENTDATE', 'REGIONID']),
    'DISPATCHCONSTRAINT': (['SETTLEMENTDATE', 'CONSTRAINTID', 'RHS', 'GENCONID_EFFECTIVEDATE', 'GENCONID_VERSIONNO',
                            'LHS', 'VIOLATIONDEGREE', 'MARGINALVALUE'], ['SETTLEMENTDATE', 'CONSTRAINTID']),
    'DISPATCHINTERCONNECTORRES': (['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES'],
                                  ['INTERCONNECTORID', 'SETTLEMENTDATE']),
}
SINGLE = {
    'DUDETAILSUMMARY': (['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID',
                         'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF'],
                        ['START_DATE', 'DUID']),
    'DUDETAIL': (['DUID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGISTEREDCAPACITY'], ['DUID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'INTERCONNECTOR': (['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], ['INTERCONNECTORID']),
    'INTERCONNECTORCONSTRAINT': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE',
                                  'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'],
                                 ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'LOSSMODEL': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'],
                  ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'LOSSFACTORMODEL': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'],
                        ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'MNSP_INTERCONNECTOR': (['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION',
                             'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'],
                            ['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO']),
}
ALLHIST = {
    'GENCONDATA': (['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'CONSTRAINTTYPE', 'GENERICCONSTRAINTWEIGHT'],
                   ['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'SPDREGIONCONSTRAINT': (['REGIONID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'BIDTYPE', 'FACTOR'],
                            ['REGIONID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'BIDTYPE']),
    'SPDCONNECTIONPOINTCONSTRAINT': (['CONNECTIONPOINTID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'BIDTYPE',
                                      'FACTOR'],
                                     ['CONNECTIONPOINTID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'BIDTYPE']),
    'SPDINTERCONNECTORCONSTRAINT': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'FACTOR'],
                                    ['INTERCONNECTORID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO']),
}
# Stand-alone table classes that DBManager does not instantiate but that are public.
EXTRA = {
    'BIDDAYOFFER_D': (['SETTLEMENTDATE', 'DUID', 'BIDTYPE', 'PRICEBAND1'], ['SETTLEMENTDATE', 'DUID', 'BIDTYPE']),
    'BIDPEROFFER_D': (['INTERVAL_DATETIME', 'DUID', 'BIDTYPE', 'BANDAVAIL1'],
                      ['INTERVAL_DATETIME', 'DUID', 'BIDTYPE']),
}
TABLES = {}
for _d in (MULTI, SINGLE, ALLHIST, EXTRA):
    TABLES.update(_d)

REGIONS = ['NSW1', 'VIC1', 'QLD1']
UNITS = ['U1', 'U2', 'U10']
INTERS = ['I1', 'V-S', 'T-V']
GENCONS = ['C1', 'C2', 'C10']
BIDTYPES = ['ENERGY', 'RAISEREG', 'L5RE']


def norm(v):
    if v is None:
        return None
    if isinstance(v, (int, float)):
        if isinstance(v, float) and math.isnan(v):
            return None
        return float(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def rowkey(row):
    return tuple((0, '') if v is None else (1, '%.12g' % (v + 0.0)) if isinstance(v, float) else (2, v) for v in row)


def bag(rows):
    return sorted((rowkey(tuple(norm(v) for v in r)) for r in rows))


def show(rows, n=4):
    return '%d rows %s' % (len(rows), [tuple(x[1] for x in r) for r in rows[:n]])


# --------------------------------------------------------------------------------------------- simulated nemweb
class Nemweb:
    """Month files of every table, generated from (data_seed): the truth the database is compared against."""

    def __init__(self, cfg):
        import random
        self.cfg = cfg
        self.random = random
        self.cache = {}

    def rng(self, *k):
        return self.random.Random('mms:%s:%s' % (self.cfg['data_seed'], ':'.join(map(str, k))))

    def published(self, table, y, m):
        if (y, m) in [tuple(x) for x in self.cfg.get('holes', {}).get(table, [])]:
            return False
        if table in ALLHIST or table in SINGLE:
            first = self.cfg.get('first', [2010, 1])
            return (y, m) >= tuple(first)
        return True

    def raw(self, table, y, m):
        """-> (header columns, list of row dicts incl. INTERVENTION and duplicate rows) as published"""
        key = (table, y, m)
        if key in self.cache:
            return self.cache[key]
        r = self.rng(table, y, m)
        cols, pk = TABLES[table]
        rows = []
        header = list(cols)
        num = lambda lo=-100, hi=1000: round(r.uniform(lo, hi), r.choice([0, 1, 3, 5]))
        day = lambda: '%04d/%02d/%02d' % (y, m, r.choice([1, 2, 15, 28]))
        times = sorted({day() + ' ' + r.choice(FIVE_MIN) for _ in range(r.choice([1, 2, 3]))})
        if table in MULTI or table in EXTRA:
            ids = {'REGIONID': REGIONS, 'DUID': UNITS, 'CONSTRAINTID': GENCONS, 'INTERCONNECTORID': INTERS}
            idcol = [c for c in pk if c in ids][0]
            tcol = 'INTERVAL_DATETIME' if table == 'BIDPEROFFER_D' else 'SETTLEMENTDATE'
            if table == 'BIDDAYOFFER_D':
                times = sorted({t[:10] + ' 00:00:00' for t in times})
            with_int = table not in EXTRA
            if with_int:
                header.append('INTERVENTION')
            # older files miss some of the optional columns
            if table == 'DISPATCHLOAD' and r.random() < 0.4:
                for c in ('RAISE1SEC', 'LOWER1SEC', 'RAISE1SECACTUALAVAILABILITY', 'LOWER1SECACTUALAVAILABILITY'):
                    header.remove(c)
            if table == 'DISPATCHPRICE' and r.random() < 0.4:
                header.remove('RAISE1SECROP')
                header.remove('LOWER1SECROP')
            for t in times:
                for i in r.sample(ids[idcol], r.choice([1, 2, 3])):
                    bts = r.sample(BIDTYPES, r.choice([1, 2])) if 'BIDTYPE' in pk else [None]
                    for bt in bts:
                        base = {}
                        for c in cols:
                            if c == tcol:
                                base[c] = t
                            elif c == idcol:
                                base[c] = i
                            elif c == 'BIDTYPE':
                                base[c] = bt
                            elif c == 'GENCONID_EFFECTIVEDATE':
                                base[c] = self.effdates(i)[r.randrange(3)]
                            elif c == 'GENCONID_VERSIONNO':
                                base[c] = r.choice([1, 2, 10])
                            elif c == 'DISPATCHMODE' or c == 'AGCSTATUS' or c == 'SEMIDISPATCHCAP':
                                base[c] = r.choice([0, 1])
                            else:
                                base[c] = None if r.random() < 0.06 else num()
                        base['INTERVENTION'] = 0
                        rows.append(base)
                        if with_int and r.random() < 0.25:      # intervention run of the same interval
                            o = dict(base)
                            for c in cols:
                                if isinstance(o[c], float):
                                    o[c] = o[c] + 1
                            o['INTERVENTION'] = 1
                            rows.insert(r.randrange(len(rows)) if r.random() < 0.5 else len(rows), o)
                        if r.random() < 0.12:                   # AEMO files do contain repeated rows
                            o = dict(base)
                            rows.append(o)
            if not any(x['INTERVENTION'] == 0 for x in rows):
                rows[0]['INTERVENTION'] = 0
        elif table == 'INTERCONNECTOR':
            for i in INTERS:
                rows.append({'INTERCONNECTORID': i, 'REGIONFROM': r.choice(REGIONS), 'REGIONTO': r.choice(REGIONS)})
        elif table == 'DUDETAILSUMMARY':
            if r.random() < 0.4:
                header.remove('SECONDARY_TLF')
            for u in UNITS:
                starts = sorted({'2010/0%d/01 00:00:00' % r.choice([1, 2, 3, 6, 9]) for _ in range(r.choice([1, 2, 3]))})
                for k, s in enumerate(starts):
                    end = starts[k + 1] if k + 1 < len(starts) else '2999/12/31 00:00:00'
                    rows.append({'DUID': u, 'START_DATE': s, 'END_DATE': end,
                                 'DISPATCHTYPE': r.choice(['GENERATOR', 'LOAD']), 'CONNECTIONPOINTID': 'CP' + u,
                                 'REGIONID': r.choice(REGIONS), 'TRANSMISSIONLOSSFACTOR': num(0.8, 1.2),
                                 'DISTRIBUTIONLOSSFACTOR': num(0.8, 1.2), 'SCHEDULE_TYPE': 'SCHEDULED',
                                 'SECONDARY_TLF': num(0.8, 1.2)})
            r.shuffle(rows)
        elif table in SINGLE:
            ids = {'DUID': UNITS, 'INTERCONNECTORID': INTERS}
            idcol = [c for c in pk if c in ids][0]
            for i in ids[idcol]:
                links = ['L1', 'L2'] if 'LINKID' in cols else [None]
                for link in links:
                    for e in r.sample(self.effdates(i), r.choice([1, 2, 3])):
                        for v in r.sample([1, 2, 9, 10], r.choice([1, 2])):
                            reps = 3 if table == 'LOSSMODEL' else 2 if table == 'LOSSFACTORMODEL' else 1
                            for k in range(reps):
                                row = {}
                                for c in cols:
                                    row[c] = {'EFFECTIVEDATE': e, 'VERSIONNO': v, idcol: i, 'LINKID': link,
                                              'LOSSSEGMENT': k + 1, 'MWBREAKPOINT': -100.0 + 50 * k,
                                              'REGIONID': REGIONS[k % 3], 'FROMREGION': 'TAS1', 'TOREGION': 'VIC1',
                                              'ICTYPE': r.choice(['REGULATED', 'MNSP'])}.get(c)
                                    if row[c] is None and c != 'LINKID':
                                        row[c] = num(0, 2)
                                rows.append(row)
            r.shuffle(rows)
        else:   # ALLHIST
            if r.random() < 0.15 and not self.cfg.get('no_format_gaps'):
                header.remove(header[-1])     # an older format lacking a needed column
            rid = {'REGIONID': REGIONS, 'CONNECTIONPOINTID': ['CPU1', 'CPU2'], 'INTERCONNECTORID': INTERS}
            for g in GENCONS:
                for e in self.effdates(g):
                    for v in (1, 2, 10):
                        if r.random() < 0.55:
                            continue
                        row = {}
                        for c in cols:
                            row[c] = {'GENCONID': g, 'EFFECTIVEDATE': e, 'VERSIONNO': v,
                                      'CONSTRAINTTYPE': r.choice(['<=', '>=', '='])}.get(c)
                            if c in rid:
                                row[c] = r.choice(rid[c])
                            elif c == 'BIDTYPE':
                                row[c] = r.choice(BIDTYPES)
                            elif row[c] is None:
                                row[c] = num()
                        rows.append(row)
            if not rows:
                rows.append({c: ('C1' if c == 'GENCONID' else self.effdates('C1')[0] if c == 'EFFECTIVEDATE' else 1
                                 if c == 'VERSIONNO' else '<=' if c == 'CONSTRAINTTYPE' else 'ENERGY'
                                 if c == 'BIDTYPE' else rid[c][0] if c in rid else 1.0) for c in cols})
        self.cache[key] = (header, rows)
        return header, rows

    def effdates(self, ident):
        return ['2009/07/01 00:00:00', '2010/02/01 00:00:00', '2010/04/15 12:00:00']

    def body(self, table, y, m):
        header, rows = self.raw(table, y, m)
        out = ['C,NEMP.WORLD,%s,AEMO,PUBLIC,%04d/%02d/01,00:00:00,1,MONTHLY,1' % (table, y, m)]
        out.append('I,%s,X,4,%s,LASTCHANGED' % (table, ','.join(header)))
        for row in rows:
            vals = ['' if row.get(c) is None else repr(row[c]) if isinstance(row[c], float) else
                    ('"%s"' % row[c] if isinstance(row[c], str) else str(row[c])) for c in header]
            out.append('D,%s,X,4,%s,"%04d/%02d/03 00:00:00"' % (table, ','.join(vals), y, m))
        out.append('C,"END OF REPORT",%d' % (len(rows) + 3))
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED) as z:
            zi = zipfile.ZipInfo('PUBLIC_DVD_%s_%04d%02d010000.CSV' % (table, y, m), (2020, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, '\n'.join(out) + '\n')
        return buf.getvalue()

    @staticmethod
    def url(table, y, m):
        base = 'http://nemweb.com.au/Data_Archive/Wholesale_Electricity/MMSDM/%04d/MMSDM_%04d_%02d/' \
               'MMSDM_Historical_Data_SQLLoader/DATA/' % (y, y, m)
        if (y, m) >= (2024, 8):
            return base + 'PUBLIC_ARCHIVE%%23%s%%23FILE01%%23%04d%02d010000.zip' % (table, y, m)
        return base + 'PUBLIC_DVD_%s_%04d%02d010000.zip' % (table, y, m)

    def parse(self, url):
        """url -> (table, y, m) if the url is exactly one nemweb serves"""
        import re
        mo = re.search(r'/MMSDM_(\d{4})_(\d{2})/', url)
        if not mo:
            return None
        y, m = int(mo.group(1)), int(mo.group(2))
        for t in TABLES:
            if self.url(t, y, m) == url:
                return t, y, m
        return None

    # ---- the rows the database should hold
    def month_rows(self, table, y, m):
        cols, pk = TABLES[table]
        header, rows = self.raw(table, y, m)
        out, seen = [], set()
        for row in rows:
            if table not in EXTRA and row.get('INTERVENTION', 0) != 0:
                continue
            k = tuple(row[c] for c in pk)
            if k in seen:
                continue
            seen.add(k)
            out.append(tuple(norm(row.get(c)) if c in header else None for c in cols))
        return out

    def single_rows(self, table, y, m):
        cols, _ = TABLES[table]
        header, rows = self.raw(table, y, m)
        return [tuple(norm(row.get(c)) if c in header else None for c in cols) for row in rows]

    def allhist_rows(self, table, year, month):
        """newest month's copy of every key wins; months not published or lacking needed columns contribute nothing"""
        cols, pk = TABLES[table]
        have, out = set(), []
        used = 0
        for y in range(year, 2009, -1):
            for m in range(12, 0, -1):
                if y == year and m > month:
                    continue
                if not self.published(table, y, m):
                    continue
                header, rows = self.raw(table, y, m)
                if not set(cols) <= set(header):
                    continue
                used += 1
                fresh = [r for r in rows if tuple(r[c] for c in pk) not in have]
                out += [tuple(norm(r[c]) for c in cols) for r in fresh]
                have |= {tuple(r[c] for c in pk) for r in fresh}
        return out, used


def load_months(y, m):
    return [(y, m)]


# --------------------------------------------------------------------------------------------- the world
HTTP_FAULTS = ['500', '503', '403', '429', '404', 'conn', 'timeout', 'truncated', 'junk200', 'badcrc', 'empty200',
               'chunked']
SQL_FAULTS = ['full', 'ioerr', 'locked', 'crash', 'crash-after', 'row-crash', 'row-full']


class MMSWorld(World):
    name = 'mms'
    real = ['nempy.historical_inputs.mms_db', 'pandas sql layer', 'sqlite3 on a real database file with its journal',
            'requests above the transport adapter', 'zipfile']
    stub = ['nemweb server', 'network transport', 'process lifetime (crash = journal+db image at that statement)',
            'sqlite statement failures', 'second process reading between statements']
    rule = ('one case = one seeded history of loads, replacements, reads, restarts against one simulated nemweb; '
            'distinct_nontrivial counts distinct event logs in which at least one fault fired or one interleaved read '
            'happened and at least one load changed the database')

    # ------------------------------------------------------------------ generation
    def generate(self, rng, prop, tier):
        cfg = {'data_seed': rng.randrange(1 << 30), 'first': [2010, 1], 'holes': {}}
        for t in ALLHIST:
            if rng.random() < 0.4:
                cfg['holes'][t] = [[2010, rng.randrange(1, 13)] for _ in range(rng.choice([1, 2]))]
        modern = rng.random() < 0.08
        if modern:
            cfg['first'] = [2024, rng.choice([6, 7, 8])]
        steps = []
        ym = lambda: [2024, rng.choice([7, 8, 9, 10])] if modern else \
            rng.choice([[2010, rng.randrange(1, 13)], [2010, rng.randrange(1, 5)], [2010, rng.randrange(1, 5)]] +
                       ([[2011, rng.randrange(1, 3)]] if rng.random() < 0.2 else []))
        if prop == 'P02':
            y, m = ([2024, rng.choice([8, 9])] if modern else rng.choice([[2010, 1], [2010, 2], [2010, 3], [2011, 1], [2010, 12], [2010, 11]]))
            span = rng.choice([0, 0, 0, 1, 1, 2])
            ey, em = (y, m + span) if m + span <= 12 else (y + 1, m + span - 12)
            if rng.random() < 0.3:      # something was there before
                for _ in range(rng.choice([1, 2])):
                    steps.append({'op': 'load', 'table': rng.choice(list(MULTI) + list(SINGLE)), 'ym': [2010, 1],
                                  'faults': []})
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults = []
                for _ in range(rng.choice([1, 1, 2])):
                    faults.append(self._fault(rng, nreq=60, nsql=150))
                steps.append({'op': 'populate', 'range': [y, m, ey, em], 'faults': faults})
            steps.append({'op': 'populate', 'range': [y, m, ey, em], 'faults': []})
            return {'world': self.name, 'cfg': cfg, 'steps': steps}

        n = rng.choice([3, 4, 5, 6, 8])
        if prop == 'P04':
            pool = list(ALLHIST) * 3 + list(SINGLE) + list(MULTI)
        elif prop == 'P03':
            pool = list(MULTI) + ['DISPATCHCONSTRAINT'] * 2 + ['DISPATCHINTERCONNECTORRES'] * 2 + list(SINGLE) + \
                   list(ALLHIST) + list(EXTRA)
        else:
            pool = list(MULTI) * 2 + list(SINGLE) + list(ALLHIST) + list(EXTRA)
        focus = rng.sample(sorted(set(pool)), min(len(set(pool)), rng.choice([1, 2, 3])))
        prate = {'P01': 0.6, 'P03': 0.15, 'P04': 0.7}[prop]
        for _ in range(n):
            t = rng.choice(focus) if rng.random() < 0.6 else rng.choice(pool)
            x = rng.random()
            if prop == 'P03' and x < 0.1:
                steps.append({'op': 'restart', 'faults': []})
                continue
            st = {'op': 'load', 'table': t, 'ym': ym(), 'faults': []}
            if rng.random() < prate:
                for _ in range(rng.choice([1, 1, 2])):
                    if prop == 'P04':
                        st['faults'].append(self._http(rng, 14 if t in ALLHIST else 2))
                    else:
                        st['faults'].append(self._fault(rng, nreq=12 if t in ALLHIST else 1,
                                                        nsql=30 if t in ALLHIST else 14))
            if prop == 'P01' and rng.random() < 0.5:
                st['reads'] = sorted(rng.sample(range(0, 30 if t in ALLHIST else 14), rng.choice([1, 3, 6])))
            steps.append(st)
            if prop == 'P03' and t in ALLHIST and rng.random() < 0.8:
                steps.append({'op': 'load', 'table': 'DISPATCHCONSTRAINT', 'ym': st['ym'], 'faults': []})
            if prop == 'P03' and t in SINGLE and rng.random() < 0.8:
                steps.append({'op': 'load', 'table': 'DISPATCHINTERCONNECTORRES', 'ym': st['ym'], 'faults': []})
            if rng.random() < 0.15:
                steps.append({'op': 'restart', 'faults': []})
            if prop == 'P03':
                for _ in range(rng.choice([1, 2, 3])):
                    steps.append({'op': 'query', 'table': rng.choice(focus + [t]), 'pick': rng.randrange(1 << 20),
                                  'other': rng.random() < 0.4, 'faults': []})
        return {'world': self.name, 'cfg': cfg, 'steps': steps}

    def _http(self, rng, nreq):
        return {'k': 'http', 'req': rng.randrange(max(1, nreq)), 'what': rng.choice(HTTP_FAULTS)}

    def _fault(self, rng, nreq, nsql):
        if rng.random() < 0.35:
            return self._http(rng, nreq)
        what = rng.choice(SQL_FAULTS)
        ev = rng.randrange(nsql)
        if what.startswith('row-'):
            ev = rng.randrange(max(1, nreq if nreq < 50 else 24))
        return {'k': 'sql', 'ev': ev, 'what': what, 'row': rng.randrange(60)}

    def simplify(self, s):
        import copy
        for i, st in enumerate(s['steps']):
            if st.get('reads'):
                c = copy.deepcopy(s)
                c['steps'][i]['reads'] = st['reads'][:len(st['reads']) // 2]
                yield c
        if s['cfg'].get('holes'):
            c = copy.deepcopy(s)
            c['cfg']['holes'] = {}
            yield c

    # ------------------------------------------------------------------ execution
    def execute(self, scenario, prop, ctx):
        root = seams.scratch_dir()
        run = _MMSRun(scenario, prop, ctx, root)
        try:
            run.go()
        finally:
            seams.ENV.net = None
            seams.ENV.clock = None
            run.close()
            seams.rm_scratch(root)


class _MMSRun:
    def __init__(self, scenario, prop, ctx, root):
        self.s, self.prop, self.ctx, self.root = scenario, prop, ctx, root
        self.web = Nemweb(scenario['cfg'])
        self.gen = 0
        self.path = os.path.join(root, 'db0', 'h.db')
        os.makedirs(os.path.dirname(self.path))
        self.model = {t: [] for t in TABLES}       # rows (normalised tuples)
        self.con = None
        self.reqs = 0
        self.http_plan = {}
        self.fired = []

    # ---- process lifecycle
    def open(self):
        seams.new_process()
        from nempy.historical_inputs import mms_db
        self.mms = mms_db
        self.plan = seams.SqlPlan(self.ctx)
        self.plan.snapshot = self.snapshot
        self.con = seams.connect(self.path, self.plan)
        self.plan.in_hook = True      # construction is not a fault target
        self.db = self.mms.DBManager(self.con)
        self.extra = {
            'BIDDAYOFFER_D': self.mms.InputsByDay(
                table_name='BIDDAYOFFER_D', table_columns=list(EXTRA['BIDDAYOFFER_D'][0]),
                table_primary_keys=list(EXTRA['BIDDAYOFFER_D'][1]), con=self.con),
            'BIDPEROFFER_D': self.mms.InputsByIntervalDateTime(
                table_name='BIDPEROFFER_D', table_columns=list(EXTRA['BIDPEROFFER_D'][0]),
                table_primary_keys=list(EXTRA['BIDPEROFFER_D'][1]), con=self.con)}
        self.plan.in_hook = False

    def close(self):
        if self.con is not None:
            try:
                sqlite3.Connection.close(self.con)
            except Exception:
                pass
            self.con = None

    def snapshot(self):
        self.gen += 1
        d = os.path.join(self.root, 'db%d' % self.gen)
        os.makedirs(d)
        src = os.path.dirname(self.path)
        for f in sorted(os.listdir(src)):
            shutil.copy(os.path.join(src, f), os.path.join(d, f))

    def reboot_after_crash(self):
        self.close()
        self.path = os.path.join(self.root, 'db%d' % self.gen, 'h.db')
        self.open()
        self.ctx.ev('restart-after-crash')

    def table(self, name):
        return self.extra[name] if name in EXTRA else getattr(self.db, name)

    # ---- network
    def net(self, request):
        import requests
        k = self.reqs
        self.reqs += 1
        f = self.http_plan.get(k)
        self.ctx.sim_time += 0.5
        parsed = self.web.parse(request.url)
        if f is not None:
            self.ctx.fault('http-' + f)
            self.fired.append(('http', f, parsed))
            if f == 'conn':
                raise requests.exceptions.ConnectionError('simulated: connection reset')
            if f == 'chunked':
                raise requests.exceptions.ChunkedEncodingError('simulated: connection broken mid-body')
            if f == 'timeout':
                self.ctx.sim_time += 60
                raise requests.exceptions.ReadTimeout('simulated: timed out')
            if f in ('404', '403', '429', '500', '503'):
                return seams.response(request, int(f), b'<html>error</html>')
            if f == 'junk200':
                return seams.response(request, 200, b'<html>under maintenance</html>')
            if f == 'empty200':
                return seams.response(request, 200, b'')
            body = self.web.body(*parsed) if parsed else b''
            if f == 'truncated':
                return seams.response(request, 200, body[:max(0, len(body) * 2 // 3)])
            if f == 'badcrc':
                b = bytearray(body)
                if len(b) > 90:
                    b[80] ^= 0x55
                else:
                    b = b[:10]
                return seams.response(request, 200, bytes(b))
        if parsed is None or not self.web.published(*parsed):
            if parsed is None:
                self.ctx.probe('unknown-url')
            return seams.response(request, 404, b'<html>not found</html>')
        return seams.response(request, 200, self.web.body(*parsed))

    # ---- observation
    def dump(self, table, con=None):
        """rows of one table as a second process would see them"""
        own = con is None
        if own:
            con = sqlite3.connect(self.path, timeout=0.0)
        try:
            cols, _ = TABLES[table]
            cur = con.execute('SELECT name FROM sqlite_master WHERE name=?', (table,))
            if cur.fetchone() is None:
                return None
            names = [r[1] for r in con.execute('PRAGMA table_info(%s)' % table)]
            want = [c for c in cols if c in names]
            if want != list(cols):
                return [('schema', ','.join(names))]
            return [tuple(r) for r in con.execute('SELECT %s FROM %s' % (','.join(cols), table)).fetchall()]
        finally:
            if own:
                con.close()

    def expect_state(self, tables, alternatives, what):
        """each table in `tables` must equal one of alternatives[t] (list of row lists)"""
        for t in tables:
            got = self.dump(t)
            if got is None:
                self.ctx.check(False, 'table-missing', '%s: table %s no longer exists' % (what, t))
            g = bag(got)
            ok = None
            for idx, alt in enumerate(alternatives[t]):
                if g == bag(alt):
                    ok = idx
                    break
            self.ctx.check(ok is not None, 'db-content',
                           '%s: table %s holds %s; allowed: %s' % (what, t, show(g),
                                                                  [show(bag(a)) for a in alternatives[t]]))
            self.model[t] = alternatives[t][ok]
        return

    # ---- expectations
    def load_expectation(self, t, y, m):
        """-> (new_rows or None if the load cannot succeed on a healthy system)"""
        if t in ALLHIST:
            rows, used = self.web.allhist_rows(t, y, m)
            return rows if used else list(self.model[t])
        if not self.web.published(t, y, m):
            return None
        if t in SINGLE:
            return self.web.single_rows(t, y, m)
        cols, pk = TABLES[t]
        rows = self.web.month_rows(t, y, m)
        ki = [cols.index(c) for c in pk]
        have = {tuple(r[i] for i in ki) for r in self.model[t]}
        if any(tuple(r[i] for i in ki) in have for r in rows):
            return None      # the month is already there
        return list(self.model[t]) + rows

    # ---- driver
    def go(self):
        ctx = self.ctx
        seams.ENV.net = self.net
        seams.ENV.clock = lambda s: setattr(ctx, 'sim_time', ctx.sim_time + s)
        self.open()
        self.plan.in_hook = True
        self.db.create_tables()
        for x in self.extra.values():
            x.create_table_in_sqlite_db()
        self.plan.in_hook = False
        for i, st in enumerate(self.s['steps']):
            ctx.sim_time += 1
            if st['op'] == 'restart':
                self.close()
                self.open()
                ctx.ev(i, 'restart')
            elif st['op'] == 'load':
                self.do_load(i, st)
            elif st['op'] == 'query':
                self.do_query(i, st)
            elif st['op'] == 'populate':
                self.do_populate(i, st)
            ctx.state(tuple(sorted((t, len(r)) for t, r in self.model.items() if r)))

    def arm(self, st):
        self.reqs = 0
        self.fired = []
        self.http_plan = {f['req']: f['what'] for f in st['faults'] if f['k'] == 'http'}
        plan = {}
        for f in st['faults']:
            if f['k'] == 'sql':
                w = f['what']
                if w.startswith('row-'):
                    plan[('many', f['ev'])] = ('row', f['row'], w[4:])
                else:
                    plan[f['ev']] = (w,)
        self.plan.begin_op(plan)

    def disarm(self):
        self.http_plan = {}
        self.plan.begin_op({})
        self.plan.hook = None

    def call(self, fn):
        before = sum(self.ctx.faults.values())
        try:
            fn()
            out = 'ok'
        except SimCrash:
            out = 'crash'
        except HarnessError:
            raise
        except Exception as e:
            out = 'raised ' + type(e).__name__
            self.exc = e
        self.any_fault = sum(self.ctx.faults.values()) > before
        return out

    def do_load(self, i, st):
        ctx, t, (y, m) = self.ctx, st['table'], st['ym']
        old = list(self.model[t])
        new = self.load_expectation(t, y, m)
        self.arm(st)
        reads = set(st.get('reads', []))
        seen_partial = []

        def hook(k, what):
            if k in reads:
                ctx.probe('interleaved-read')
                try:
                    got = self.dump(t)
                except sqlite3.OperationalError as e:
                    ctx.ev('read', k, 'busy')
                    return
                g = None if got is None else bag(got)
                if g != bag(old):
                    seen_partial.append((k, what, g))
                ctx.ev('read', k, what, 'old' if g == bag(old) else 'changed')
        self.plan.hook = hook if reads else None
        fn = (lambda: self.table(t).add_data(year=y, month=m)) if (t in MULTI or t in EXTRA) else \
             (lambda: self.table(t).set_data(year=y, month=m))
        out = self.call(fn)
        ctx.ev(i, 'load', t, y, m, out, 'sql-events', self.plan.n, 'requests', self.reqs)
        self.disarm()
        if out == 'crash':
            self.reboot_after_crash()
        tag = 'load of %s %d/%02d (%s)' % (t, y, m, out)
        # http faults other than an honest "no such file" in an all-history load must surface
        fatal_http = [f for f in self.fired if f[0] == 'http' and not (f[1] == '404' and t in ALLHIST)]
        if out == 'ok':
            ctx.check(not fatal_http, 'silent-download-failure',
                      '%s returned normally although its download failed: %s' % (tag, fatal_http[:3]))
            new = self.with_404_holes(t, y, m, new)
            self.judge_reads(tag, seen_partial, old, new)
            ctx.check(new is not None, 'load-should-fail', '%s returned normally but the month is %s' %
                      (tag, 'already loaded' if self.web.published(t, y, m) else 'not published'))
            self.expect_state([t], {t: [new]}, tag)
            if new != old:
                ctx.probe('load-changed-db')
        else:
            if out != 'crash' and not self.any_fault and new is not None:
                ctx.check(False, 'unexpected-failure', '%s failed without any fault: %s: %s' %
                          (tag, type(self.exc).__name__, self.exc))
            new = self.with_404_holes(t, y, m, new)
            self.judge_reads(tag, seen_partial, old, new)
            alts = [old] + ([new] if new is not None and self.any_fault else [])
            if fatal_http and out != 'crash' and not any(k.startswith('sql') for k in ctx.faults):
                alts = [old]
            self.expect_state([t], {t: alts}, tag)
        # nothing else moved
        others = [x for x in TABLES if x != t and self.model[x]]
        self.expect_state(others, {x: [self.model[x]] for x in others}, tag + ' [other tables]')

    def with_404_holes(self, t, y, m, new):
        """months honestly answered with 404 during this load contribute nothing"""
        holes = [list(f[2][1:]) for f in self.fired if f[1] == '404' and f[2]]
        if not holes or t not in ALLHIST:
            return new
        cfg = self.s['cfg']
        saved = cfg['holes'].get(t)
        cfg['holes'][t] = (saved or []) + holes
        new = self.load_expectation(t, y, m)
        if saved is None:
            del cfg['holes'][t]
        else:
            cfg['holes'][t] = saved
        return new

    def judge_reads(self, tag, seen, old, new):
        for k, w, g in seen:
            self.ctx.check(new is not None and g == bag(new), 'partial-visible',
                           '%s: another process saw %s at statement %d (%s), expected the old %s or the new %s' %
                           (tag, 'no table' if g is None else show(g), k, w, show(bag(old)),
                            'nothing' if new is None else show(bag(new))))

    # ---- queries (P03)
    def query_times(self):
        ts = set()
        for t in MULTI:
            ci = TABLES[t][0].index('SETTLEMENTDATE')
            ts |= {r[ci] for r in self.model[t]}
        ci = TABLES['BIDPEROFFER_D'][0].index('INTERVAL_DATETIME')
        ts |= {r[ci] for r in self.model['BIDPEROFFER_D']}
        ts |= {'2010/01/15 04:00:00', '2010/02/01 00:00:00', '2010/04/15 12:00:00', '2010/04/15 11:55:00',
               '2009/07/01 00:00:00'}
        for d in list({x[:10] for x in ts}):
            for hh in ('00:00:00', '00:05:00', '04:00:00', '04:05:00', '23:55:00'):
                ts.add(d + ' ' + hh)
        return sorted(ts)

    def expected_query(self, t, when):
        cols, pk = TABLES[t]
        rows = self.model[t]
        ix = {c: k for k, c in enumerate(cols)}
        if t in MULTI:
            return [r for r in rows if r[ix['SETTLEMENTDATE']] == when]
        if t == 'BIDPEROFFER_D':
            return [r for r in rows if r[ix['INTERVAL_DATETIME']] == when]
        if t == 'BIDDAYOFFER_D':
            from datetime import datetime, timedelta
            d = datetime.strptime(when, '%Y/%m/%d %H:%M:%S')
            if (d.hour, d.minute) < (4, 5):
                d -= timedelta(days=1)
            key = d.strftime('%Y/%m/%d') + ' 00:00:00'
            return [r for r in rows if r[ix['SETTLEMENTDATE']] == key]
        if t == 'INTERCONNECTOR':
            return list(rows)
        if t == 'DUDETAILSUMMARY':
            best = {}
            for r in rows:
                if r[ix['START_DATE']] <= when:
                    u = r[ix['DUID']]
                    if u not in best or best[u][ix['START_DATE']] < r[ix['START_DATE']]:
                        best[u] = r
            return list(best.values())
        if t in ALLHIST:
            dc = TABLES['DISPATCHCONSTRAINT'][0]
            di = {c: k for k, c in enumerate(dc)}
            act = [r for r in self.model['DISPATCHCONSTRAINT'] if r[di['SETTLEMENTDATE']] == when]
            out = []
            for r in rows:
                for a in act:
                    if (a[di['CONSTRAINTID']] == r[ix['GENCONID']] and
                            a[di['GENCONID_EFFECTIVEDATE']] == r[ix['EFFECTIVEDATE']] and
                            a[di['GENCONID_VERSIONNO']] == r[ix['VERSIONNO']]):
                        out.append(r)
            return out
        idc = [c for c in pk if c not in ('EFFECTIVEDATE', 'VERSIONNO')]
        best = {}
        for r in rows:
            if r[ix['EFFECTIVEDATE']] <= when:
                k = tuple(r[ix[c]] for c in idc)
                v = (r[ix['EFFECTIVEDATE']], r[ix['VERSIONNO']])
                if k not in best or best[k] < v:
                    best[k] = v
        out = [r for r in rows if best.get(tuple(r[ix[c]] for c in idc)) ==
               (r[ix['EFFECTIVEDATE']], r[ix['VERSIONNO']])]
        if t in ('INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL'):
            rc = TABLES['DISPATCHINTERCONNECTORRES'][0]
            ri = {c: k for k, c in enumerate(rc)}
            used = [r[ri['INTERCONNECTORID']] for r in self.model['DISPATCHINTERCONNECTORRES']
                    if r[ri['SETTLEMENTDATE']] == when]
            out = [r for r in out if r[ix['INTERCONNECTORID']] in used]
        return out

    def do_query(self, i, st):
        ctx, t = self.ctx, st['table']
        times = self.query_times()
        exp = None
        if not st['other']:       # prefer a time at which something is in force
            good = [x for x in times if self.expected_query(t, x)]
            times = good or times
        when = times[st['pick'] % len(times)]
        exp = self.expected_query(t, when)
        if exp:
            ctx.probe('query-nonempty')
        box = {}

        def fn():
            box['df'] = self.table(t).get_data() if t == 'INTERCONNECTOR' else self.table(t).get_data(when)
        out = self.call(fn)
        ctx.ev(i, 'query', t, when, out, len(exp))
        ctx.check(out == 'ok', 'query-failed', 'query of %s at %s failed: %s' % (t, when, getattr(self, 'exc', '')))
        df = box['df']
        cols = TABLES[t][0]
        ctx.check(sorted(df.columns) == sorted(cols), 'query-columns', 'query of %s returned columns %s' %
                  (t, list(df.columns)))
        got = bag([tuple(r) for r in df.loc[:, cols].astype(object).values.tolist()])
        ctx.check(got == bag(exp), 'query-content', 'query of %s at %s returned %s, records in force are %s' %
                  (t, when, show(got), show(bag(exp))))

    # ---- populate (P02)
    def do_populate(self, i, st):
        ctx = self.ctx
        sy, sm, ey, em = st['range']
        self.arm(st)
        out = self.call(lambda: self.db.populate(start_year=sy, start_month=sm, end_year=ey, end_month=em,
                                                 verbose=False))
        ctx.ev(i, 'populate', sy, sm, ey, em, out, 'sql-events', self.plan.n, 'requests', self.reqs)
        self.disarm()
        if out == 'crash':
            self.reboot_after_crash()
        months = []
        y, m = (sy, sm - 1) if sm > 1 else (sy - 1, 12)
        while (y, m) <= (ey, em):
            months.append((y, m))
            y, m = (y, m + 1) if m < 12 else (y + 1, 1)
        fatal = [f for f in self.fired if f[0] == 'http' and not
                 (f[1] == '404' and (f[2] is None or f[2][0] in ALLHIST))]
        if out == 'ok' and not [f for f in self.fired]:
            exp = {}
            for t in MULTI:
                exp[t] = [r for (yy, mm) in months for r in self.web.month_rows(t, yy, mm)]
            for t in SINGLE:
                exp[t] = self.web.single_rows(t, ey, em)
            for t in ALLHIST:
                exp[t] = self.web.allhist_rows(t, ey, em)[0]
            for t in exp:
                self.expect_state([t], {t: [exp[t]]}, 'populate %s' % (st['range'],))
            ctx.probe('load-changed-db')
            ctx.probe('populate-converged')
        elif out == 'ok':
            ctx.check(not fatal, 'silent-download-failure',
                      'populate %s returned normally although a download failed: %s' % (st['range'], fatal[:3]))
        else:
            ctx.check(out == 'crash' or self.any_fault, 'unexpected-failure',
                      'populate %s failed without any fault: %s: %s' %
                      (st['range'], type(getattr(self, 'exc', None)).__name__, getattr(self, 'exc', None)))
