"""Case file cache world: the real XMLCacheManager / RawInputsLoader over a simulated nemweb, disk and clock."""
import os
import shutil
import sqlite3
from datetime import datetime, timedelta

from .. import seams, casefile
from ..core import World, SimCrash, HarnessError, Violation, Foreign, Runaway

HTTP_FAULTS = ['refused', 'timeout', 'dropped', '404', '403', '429', '500', '503', 'garbage', 'truncated', 'corrupt',
               'empty']
GARBLED = ('404', '403', '429', '500', '503', 'garbage', 'truncated', 'corrupt', 'empty')   # answers that are not a zip
DISK_FAULTS = ['enospc', 'eio', 'eacces', 'crash', 'torn-crash', 'torn-enospc']
BASES = ['2024/07/10', '2024/02/29', '2023/12/31', '2024/03/01', '2019/01/01', '2021/06/30']
FMT = '%Y/%m/%d %H:%M:%S'


def dt(s):
    return datetime.strptime(s, FMT)


def st(d):
    return d.strftime(FMT)


class XMLWorld(World):
    name = 'xml'
    real = ['nempy.historical_inputs.xml_cache.XMLCacheManager', 'nempy.historical_inputs.loaders.RawInputsLoader',
            'nempy.historical_inputs.mms_db (interval tables)', 'zipfile/xmltodict/requests (above the transport)',
            'the real file system below the seam (scratch directory)']
    stub = ['nemweb server and network transport', 'clock (time.sleep)', 'disk faults and process death',
            'case files (generated)']
    rule = ('one evaluation = one seeded history of loads, populations, scans, restarts and second-process reads; distinct '
            'non-trivial = distinct event logs of runs in which a fault fired or a probe was reached')
    state_measure = 'hash of (set of complete cached files per day, client interval) after each step'

    own = {
        'P05': {'wrong-interval-data', 'load-of-unpublished', 'unexpected-failure', 'not-recovered', 'damaged-cache-file',
                'reader-failed'},
        'P06': {'stale-interval-data', 'wrong-interval-data', 'wrong-interval-db', 'load-of-unpublished', 'reader-failed'},
        'P08': {'too-many-requests', 'unbounded-wait', 'undocumented-error', 'no-retry', 'scan-failed', 'scan-result',
                'unexpected-failure', 'not-recovered'},
        'P09': {'wrong-interval-data', 'stale-interval-data', 'reader-failed', 'load-of-unpublished'},
    }

    # ------------------------------------------------------------------------------------------------ generation
    def generate(self, rng, prop, tier):
        if prop == 'P07':
            return self.gen_populate(rng, tier)
        base = dt(rng.choice(BASES) + ' 00:00:00')
        cfg = {'salt': rng.randint(0, 5), 'rich': prop == 'P09' or rng.random() < 0.1,
               'p_ocd': rng.choice([0, 0.3, 0.5]), 'p_viol': 0.1, 'p_int': 0.15, 'days': {}, 'loader': prop == 'P06' or
               rng.random() < 0.4}
        if prop == 'P08' and rng.random() < (0.06 if tier == 'quick' else 0.12):
            return self.gen_scan(rng, cfg)
        days = [(base + timedelta(days=i)).strftime('%Y%m%d') for i in range(-1, 3)]
        whens = []
        for d in days:
            if rng.random() < (0.3 if prop == 'P08' else 0.12):
                continue                                       # the day is not published
            picks = sorted(set(rng.sample(range(1, 289), rng.randint(1, 4)) + rng.sample([1, 240, 241, 288], 2)))
            cfg['days'][d] = picks
        for d in days:
            for n in cfg['days'].get(d, []) + [rng.randint(1, 288)]:
                whens.append(casefile.time_of(d, n))
        # edges of market days and calendar days
        for d in days[1:]:
            c = datetime.strptime(d, '%Y%m%d')
            whens += [st(c), st(c + timedelta(minutes=5)), st(c + timedelta(hours=4)), st(c + timedelta(hours=4, minutes=5))]
        whens = sorted(set(whens))
        pub = [w for w in whens if self.is_pub(cfg, w)]
        steps = []
        n = rng.randint(2, 7)
        for k in range(n):
            r = rng.random()
            if r < 0.12:
                steps.append({'op': 'restart', 'client': rng.randint(0, 1), 'faults': []})
                continue
            when = rng.choice(pub) if (pub and rng.random() < 0.75) else rng.choice(whens)
            s = {'op': 'load', 'client': 0 if rng.random() < 0.7 else 1, 'when': when, 'faults': [], 'others': [],
                 'reads': self.gen_reads(rng, prop)}
            pf = {'P05': 0.75, 'P06': 0.6, 'P08': 0.75, 'P09': 0.2}.get(prop, 0.5)
            if rng.random() < pf:
                http = rng.random() < {'P05': 0.4, 'P06': 0.6, 'P08': 0.95, 'P09': 0.6}.get(prop, 0.5)
                if http:
                    for j in range(rng.choice([1, 1, 2, 2, 3])):
                        s['faults'].append({'k': 'http', 'req': j if rng.random() < 0.8 else rng.randint(0, 2),
                                            'what': rng.choice(HTTP_FAULTS)})
                if not http or rng.random() < 0.2:
                    for j in range(rng.choice([1, 1, 1, 2])):
                        s['faults'].append({'k': 'disk', 'ev': int(rng.random() ** 2 * 40), 'what': rng.choice(DISK_FAULTS)})
            if rng.random() < {'P05': 0.4, 'P09': 0.1}.get(prop, 0.15):
                for j in range(rng.randint(1, 3)):
                    s['others'].append({'ev': int(rng.random() ** 2 * 40), 'when': rng.choice([when] + pub + whens[:1]),
                                        'net': rng.random() < 0.5})
            steps.append(s)
        steps.append({'op': 'settle', 'faults': [], 'fresh': rng.random() < 0.5})
        return {'world': 'xml', 'cfg': cfg, 'steps': steps}

    def gen_reads(self, rng, prop):
        if prop == 'P09':
            out = []
            for _ in range(rng.randint(2, 10)):
                r = rng.choice(casefile.READERS)
                out.append([r, rng.random() < 0.4])
                if rng.random() < 0.4:
                    out.append([r, False])
            return out
        return [[r, rng.random() < 0.2] for r in rng.sample(casefile.READERS, 4)]

    def gen_scan(self, rng, cfg):
        y, m = rng.choice([(2024, 2), (2023, 2), (2021, 4), (2023, 12)])
        first = datetime(y, m, 1)
        nd = (datetime(y + m // 12, m % 12 + 1, 1) - first).days
        cfg['rich'] = False
        cfg['p_viol'] = rng.choice([0.002, 0.01])
        cfg['down'] = {}
        full = rng.random() < 0.2
        for i in range(-1, nd + 1):
            d = (first + timedelta(days=i)).strftime('%Y%m%d')
            r = rng.random()
            if r < (0.3 if full else 0.05):
                cfg['days'][d] = 'full'
            elif r < 0.5:
                cfg['days'][d] = sorted(rng.sample(range(1, 289), rng.randint(1, 12)))
            else:
                cfg['down'][d] = rng.choice(HTTP_FAULTS)
        steps = []
        if rng.random() < 0.5 and cfg['days']:
            d = rng.choice(sorted(cfg['days']))
            steps.append({'op': 'load', 'client': 0, 'when': casefile.time_of(d, 1), 'faults': [], 'others': [], 'reads': []})
        steps.append({'op': 'scan', 'faults': [], 'y': y, 'm': m, 'limit': rng.choice([1, 3, 10, 1000])})
        return {'world': 'xml', 'cfg': cfg, 'steps': steps}

    def gen_populate(self, rng, tier):
        base = dt(rng.choice(BASES[:4]) + ' 00:00:00')
        nd = rng.choice([1, 1, 1, 2])
        cfg = {'salt': 0, 'rich': False, 'p_ocd': 0.3, 'p_viol': 0.1, 'p_int': 0.1,
               'days': {}, 'loader': False, 'all': True}
        a, b = base.strftime('%Y/%m/%d'), (base + timedelta(days=nd - 1)).strftime('%Y/%m/%d')
        month = rng.random() < (0.02 if tier == 'quick' else 0.05)
        if month:
            y, m = rng.choice([(2023, 2), (2024, 2)])
            a, b = '%d/%02d/01' % (y, m), '%d/%02d/%d' % (y, m, 29 if y == 2024 else 28)
        steps = []
        for k in range(rng.choice([1, 1, 2, 2, 3, 3])):
            r = rng.random()
            if r < 0.2:
                day = base + timedelta(minutes=5 * rng.randint(-288, 576))
                s = {'op': 'load', 'client': 0, 'when': st(day), 'faults': [], 'others': [], 'reads': []}
            elif r < 0.3:
                s = {'op': 'restart', 'client': 0, 'faults': []}
                steps.append(s)
                continue
            elif r < 0.45 and k:
                # the user clears some files away; other intervals are there under both of their names
                s = {'op': 'lose', 'day': (base + timedelta(days=rng.randint(-1, nd - 1))).strftime('%Y%m%d'), 'faults': [],
                     'gone': rng.sample(range(1, 289), rng.choice([1, 1, 2, 30])),
                     'both': rng.sample(range(1, 289), rng.choice([0, 0, 1, 5]))}
                steps.append(s)
                continue
            else:
                s = {'op': 'populate', 'from': a, 'to': b, 'month': month, 'faults': [], 'others': []}
            r = rng.random()
            if r < 0.3:
                for j in range(rng.choice([1, 2])):
                    s['faults'].append({'k': 'http', 'req': rng.randint(0, 4), 'what': rng.choice(HTTP_FAULTS)})
            elif r < 0.85:
                s['faults'].append({'k': 'disk', 'ev': rng.randint(0, 4000) if rng.random() < 0.8 else rng.randint(0, 20),
                                    'what': rng.choice(DISK_FAULTS)})
            steps.append(s)
        steps.append({'op': 'populate', 'from': a, 'to': b, 'month': month, 'faults': [], 'others': [], 'verify': True})
        if rng.random() < 0.5:
            steps.append({'op': 'restart', 'client': 0, 'faults': []})
        steps.append({'op': 'populate', 'from': a, 'to': b, 'month': month, 'faults': [], 'others': [], 'again': True})
        for x in steps:
            if x['op'] == 'populate':
                x['every'] = rng.choice([1, 5, 6, 7])
        return {'world': 'xml', 'cfg': cfg, 'steps': steps}

    @staticmethod
    def is_pub(cfg, when):
        day, n = casefile.market_day_and_number(when)
        p = [] if day in cfg.get('down', {}) else cfg['days'].get(day, 'full' if cfg.get('all') else [])
        return p == 'full' or n in p

    def nontrivial(self, ctx):
        return bool(ctx.faults) or bool(ctx.probes)

    def simplify(self, s):
        import copy
        for i, step in enumerate(s['steps']):
            for key in ('others', 'reads'):
                if step.get(key):
                    c = copy.deepcopy(s)
                    c['steps'][i][key] = []
                    yield c
                    for j in range(len(step[key])):
                        c = copy.deepcopy(s)
                        del c['steps'][i][key][j]
                        yield c
        for d in list(s['cfg']['days']):
            c = copy.deepcopy(s)
            del c['cfg']['days'][d]
            yield c
        if s['cfg'].get('loader'):
            c = copy.deepcopy(s)
            c['cfg']['loader'] = False
            yield c

    def execute(self, scenario, prop, ctx):
        r = Run(scenario, prop, ctx)
        try:
            r.go()
        finally:
            r.cleanup()


class Run:
    def __init__(self, s, prop, ctx):
        self.s, self.prop, self.ctx, self.cfg = s, prop, ctx, s['cfg']
        self.ccfg = {k: self.cfg[k] for k in ('salt', 'rich', 'p_ocd', 'p_viol', 'p_int')}
        self.dir = seams.scratch_dir()
        self.cache = os.path.join(self.dir, 'cache')
        self.clients = {}
        self.reqs = 0
        self.http_plan = {}
        self.slept = 0.0
        self.offline = False
        self.hits = []
        self.con = None

    def cleanup(self):
        seams.ENV.net = seams.ENV.clock = seams.ENV.disk = None
        if self.con is not None:
            self.con.close()
        seams.rm_scratch(self.dir)

    # ---- the world outside
    def published(self, day):
        if day in self.cfg.get('down', {}):
            return None
        p = self.cfg['days'].get(day, 'full' if self.cfg.get('all') else None)
        if p is None:
            return None
        return list(range(1, 289)) if p == 'full' else p

    def net(self, request):
        import requests
        k = self.reqs
        self.reqs += 1
        self.ctx.sim_time += 1.0
        if self.reqs > 40000:
            raise Runaway('one operation made more than 40000 requests')
        url = request.url
        day = url.rsplit('_', 2)[-2] if url.endswith('_loaded.zip') else None
        good = day is not None and url == (
            'https://www.nemweb.com.au/Data_Archive/Wholesale_Electricity/NEMDE/%s/NEMDE_%s_%s/NEMDE_Market_Data/'
            'NEMDE_Files/NemSpdOutputs_%s_loaded.zip' % (day[:4], day[:4], day[4:6], day))
        if not good:
            self.ctx.probe('unknown-url')
            return seams.response(request, 404, b'<html>not found</html>')
        if self.prop == 'P07' and self.day_complete(day):
            self.ctx.check(False, 'refetched-complete-day', 'day %s was downloaded although all of its 288 case files '
                           'are in the cache' % day)
        if self.offline:
            raise requests.ConnectionError('offline')
        f = self.http_plan.get(k) or self.cfg.get('down', {}).get(day)
        if f is not None:
            self.hits.append(f)
            self.ctx.fault('http-' + f)
            if f == 'refused':
                raise requests.ConnectionError('connection refused (simulated)')
            if f == 'timeout':
                raise requests.Timeout('timed out (simulated)')
            if f == 'dropped':
                raise requests.exceptions.ChunkedEncodingError('connection broken (simulated)')
            if f == 'empty':
                return seams.response(request, 200, b'')
            if f == 'garbage':
                return seams.response(request, 200, b'<html>' + b'busy ' * 40)
            if f.isdigit():
                r = seams.response(request, int(f), b'<html>error</html>')
                if f in ('429', '503'):
                    r.headers['Retry-After'] = '7200'
                return r
        nums = self.published(day)
        if nums is None:
            return seams.response(request, 404, b'<html>not found</html>')
        body = casefile.archive(day, nums, self.ccfg)
        if f == 'truncated':
            body = body[:len(body) * 2 // 3]
        elif f == 'corrupt':
            # flip bytes inside the compressed data of a file in the middle of the archive
            import io
            import zipfile
            infos = zipfile.ZipFile(io.BytesIO(body)).infolist()
            zi = infos[len(infos) // 2]
            at = zi.header_offset + 30 + len(zi.filename) + zi.compress_size // 2
            b = bytearray(body)
            for i in range(4):
                b[at + i] ^= 0x5a
            body = bytes(b)
        return seams.response(request, 200, body)

    def sleep(self, seconds):
        self.ctx.sim_time += seconds
        self.slept += seconds

    def day_complete(self, day):
        files = set(os.listdir(self.cache)) if os.path.isdir(self.cache) else set()
        return all(('NEMSPDOutputs_%s%03d00.loaded' % (day, n)) in files or
                   ('NEMSPDOutputs_%s%03d00_OCD.loaded' % (day, n)) in files for n in range(1, 289))

    # ---- clients
    def new_manager(self):
        from nempy.historical_inputs import xml_cache
        self.disk.in_hook += 1
        try:
            return xml_cache.XMLCacheManager(self.cache)
        finally:
            self.disk.in_hook -= 1

    def client(self, i):
        if i not in self.clients:
            if not self.clients:
                seams.new_process()      # all clients are gone with the process they lived in
            m = self.new_manager()
            loader = None
            if self.cfg.get('loader'):
                from nempy.historical_inputs import loaders
                loader = loaders.RawInputsLoader(m, self.database())
            self.clients[i] = (m, loader)
        return self.clients[i]

    def database(self):
        from nempy.historical_inputs import mms_db
        if self.con is None:
            self.con = sqlite3.connect(':memory:')
            self.db = mms_db.DBManager(self.con)
            self.db.create_tables()
            for when in self.all_whens():
                for r, v in self.demand_rows(when).items():
                    self.con.execute('INSERT INTO DISPATCHREGIONSUM (SETTLEMENTDATE, REGIONID, TOTALDEMAND, DEMANDFORECAST,'
                                     ' INITIALSUPPLY) VALUES (?,?,?,?,?)', (when, r, v, 0.0, 0.0))
                self.con.execute('INSERT INTO DISPATCHLOAD (SETTLEMENTDATE, DUID, RAISEREGENABLEMENTMAX) VALUES (?,?,?)',
                                 (when, 'U0', self.demand_rows(when)['NSW1']))
            self.con.commit()
        return self.db

    def all_whens(self):
        out = {s['when'] for s in self.s['steps'] if s['op'] == 'load'}
        for s in self.s['steps']:
            out |= {o['when'] for o in s.get('others', [])}
        return sorted(out)

    @staticmethod
    def demand_rows(when):
        day, n = casefile.market_day_and_number(when)
        return {'NSW1': float(day) + n, 'VIC1': float(day) + n + 0.5}

    def call(self, fn):
        self.hits = []
        self.reqs = 0
        self.slept = 0.0
        self.exc = None
        before = sum(self.ctx.faults.values())
        try:
            fn()
            out = 'ok'
        except SimCrash:
            out = 'crash'
        except HarnessError:
            raise
        except Exception as e:
            if isinstance(e, (Violation, Foreign)):
                raise
            out = 'raised ' + type(e).__name__
            self.exc = e
        self.any_fault = sum(self.ctx.faults.values()) > before
        return out

    def arm(self, step):
        self.http_plan = {f['req']: f['what'] for f in step['faults'] if f['k'] == 'http'}
        self.disk.begin_op({f['ev']: f['what'] for f in step['faults'] if f['k'] == 'disk'})

    def disarm(self):
        self.http_plan = {}
        self.disk.begin_op({})
        self.disk.hook = None
        self.disk.dead = False

    # ---- driver
    def go(self):
        ctx = self.ctx
        self.disk = seams.Disk(self.dir, ctx)
        seams.ENV.net, seams.ENV.clock, seams.ENV.disk = self.net, self.sleep, self.disk
        for i, step in enumerate(self.s['steps']):
            ctx.sim_time += 1
            getattr(self, 'do_' + step['op'])(i, step)
            have = sorted(f for f in os.listdir(self.cache) if f.endswith('.loaded')) if os.path.isdir(self.cache) else []
            ctx.state(tuple(have), tuple(sorted((k, c[0].interval) for k, c in self.clients.items())))

    def do_restart(self, i, step):
        self.clients.pop(step['client'], None)
        self.ctx.ev(i, 'restart', step['client'])

    def truth(self, when):
        day, n = casefile.market_day_and_number(when)
        nums = self.published(day)
        if nums is None or n not in nums:
            return None
        return casefile.case(day, n, self.ccfg)

    def compare_all(self, m, loader, when, tag, readers=casefile.READERS):
        """every reader must state what the published file states"""
        ctx, c = self.ctx, self.truth(when)
        src = loader if loader is not None else m
        for r in readers:
            obj = src if hasattr(src, r) else m
            try:
                got = getattr(obj, r)()
            except Exception as e:
                ctx.check(False, 'reader-failed', '%s: %s failed: %s: %s' % (tag, r, type(e).__name__, e))
            bad = casefile.mismatch(got, c.expect(r))
            ctx.check(bad is None, 'wrong-interval-data', '%s: %s: %s' % (tag, r, bad))

    def db_check(self, loader, when, tag):
        df = loader.get_regional_loads()
        got = {r: float(v) for r, v in zip(df['REGIONID'], df['TOTALDEMAND'])}
        self.ctx.check(got == self.demand_rows(when), 'wrong-interval-db', '%s: regional loads %s, recorded for the selected '
                       'interval %s' % (tag, got, self.demand_rows(when)))
        df = loader.get_agc_enablement_limits()
        got = [float(v) for v in df['RAISEREGENABLEMENTMAX']]
        self.ctx.check(got == [self.demand_rows(when)['NSW1']], 'wrong-interval-db', '%s: enablement limits %s' % (tag, got))

    def do_load(self, i, step):
        ctx, when = self.ctx, step['when']
        m, loader = self.client(step['client'])
        truth = self.truth(when)
        others = {}
        for o in step['others']:
            others.setdefault(o['ev'], []).append(o)
        nested = []

        def hook(k, what):
            for o in others.get(k, []):
                self.other_process(o, nested)
        self.arm(step)
        self.disk.hook = hook if others else None
        out = self.call((lambda: loader.set_interval(when)) if loader else (lambda: m.load_interval(when)))
        n_disk, reqs, slept, hits, any_fault = self.disk.n, self.reqs, self.slept, list(self.hits), self.any_fault
        self.disarm()
        ctx.ev(i, 'load', step['client'], when, out, 'disk-events', n_disk, 'requests', reqs, 'slept', slept)
        tag = 'load of %s (%s)' % (when, out)
        disk_fault = any(f['k'] == 'disk' for f in step['faults']) and any_fault and len(hits) < sum(ctx.faults.values())
        only_http = not any(f['k'] == 'disk' for f in step['faults'])
        if out == 'crash':
            self.clients.pop(step['client'], None)
            ctx.probe('crash')
            return
        # P08: bounded effort, documented error
        if not nested:
            ctx.check(reqs <= 2, 'too-many-requests', '%s made %d requests' % (tag, reqs))
            ctx.check(slept <= 300, 'unbounded-wait', '%s waited %.0f simulated seconds' % (tag, slept))
        if out == 'ok':
            ctx.check(truth is not None, 'load-of-unpublished', '%s returned normally but the server publishes no such '
                      'interval' % tag)
            self.compare_all(m, loader, when, tag)
            if loader is not None:
                self.db_check(loader, when, tag)
                ctx.check(bool(loader.is_over_constrained_dispatch_rerun()) == truth.ocd, 'wrong-interval-data',
                          '%s: over constrained rerun flag' % tag)
            ctx.probe('load-ok')
            self.client_reads(m, loader, when, step['reads'], tag)
        else:
            if not any_fault and truth is not None:
                ctx.check(False, 'unexpected-failure', '%s failed without any fault: %s: %s' %
                          (tag, type(self.exc).__name__, self.exc))
            if only_http:
                from nempy.historical_inputs import xml_cache
                ctx.check(isinstance(self.exc, xml_cache.MissingDataError), 'undocumented-error',
                          '%s: server failures %s surfaced as %s: %s instead of MissingDataError' %
                          (tag, hits, type(self.exc).__name__, self.exc))
                if truth is not None and len(hits) == 1 and hits[0] in GARBLED and not nested:
                    ctx.check(False, 'no-retry', '%s: the answer was damaged once (%s) and the next one would have been '
                              'good, but the load failed' % (tag, hits))
                ctx.probe('missing-data')
            self.after_failure(m, loader, when, tag)

    def after_failure(self, m, loader, when, tag):
        """P06: nothing of a previously selected interval may be served now"""
        ctx, c = self.ctx, self.truth(when)
        ctx.probe('failed-load-reads')
        src = loader if loader is not None else m
        for r in casefile.READERS:
            obj = src if hasattr(src, r) else m
            try:
                got = getattr(obj, r)()
            except Exception:
                ctx.evaluations += 1
                continue
            ctx.check(c is not None, 'stale-interval-data', '%s: afterwards %s still returns data' % (tag, r))
            bad = casefile.mismatch(got, c.expect(r))
            ctx.check(bad is None, 'stale-interval-data', '%s: afterwards %s: %s' % (tag, r, bad))
        if loader is not None:
            try:
                df = loader.get_regional_loads()
            except Exception:
                return
            got = {r: float(v) for r, v in zip(df['REGIONID'], df['TOTALDEMAND'])}
            ctx.check(got in (self.demand_rows(when), {}), 'stale-interval-data', '%s: afterwards regional loads are %s, the '
                      'requested interval has %s' % (tag, got, self.demand_rows(when)))

    def client_reads(self, m, loader, when, reads, tag):
        ctx, c = self.ctx, self.truth(when)
        src = loader if loader is not None else m
        for r, spoil in reads:
            obj = src if hasattr(src, r) else m
            try:
                got = getattr(obj, r)()
            except Exception as e:
                ctx.check(False, 'reader-failed', '%s: %s failed on a later read: %s: %s' % (tag, r, type(e).__name__, e))
            bad = casefile.mismatch(got, c.expect(r))
            ctx.check(bad is None, 'wrong-interval-data', '%s: later read of %s: %s' % (tag, r, bad))
            if spoil:
                ctx.probe('caller-mutation')
                self.spoil(got)
        ctx.ev('reads', len(reads))

    @staticmethod
    def spoil(got):
        if isinstance(got, dict):
            for k in list(got):
                got[k] = -1.0
            got.pop(next(iter(got)))
        elif hasattr(got, 'columns') and len(got):
            for col in list(got.columns):
                v = got[col]
                got[col] = 'SPOILED' if v.dtype == object else -12345.0
            got.drop(got.index[:1], inplace=True)

    def other_process(self, o, nested):
        """another process works on the same cache directory in the middle of the running operation"""
        ctx, when = self.ctx, o['when']
        ctx.probe('interleaved-process')
        nested.append(when)
        with seams.other_process():
            self.in_other_process(o, when)

    def in_other_process(self, o, when):
        ctx = self.ctx
        m = self.new_manager()
        saved = (self.reqs, self.slept, self.http_plan, self.offline)
        self.http_plan = {}
        self.offline = not o['net']
        try:
            try:
                m.load_interval(when)
                out = 'ok'
            except Exception as e:
                if isinstance(e, (Violation, Foreign)):
                    raise
                out = 'raised ' + type(e).__name__
                exc = e
            ctx.ev('other process loads', when, out)
            if out == 'ok':
                ctx.check(self.truth(when) is not None, 'load-of-unpublished', 'another process loaded %s, which the server '
                          'does not publish' % when)
                self.compare_all(m, None, when, 'other process, load of %s' % when)
            elif o['net'] and self.truth(when) is not None:
                ctx.check(False, 'unexpected-failure', 'another process could not load %s although the server is '
                          'reachable: %s: %s' % (when, type(exc).__name__, exc))
        finally:
            self.reqs, self.slept, self.http_plan, self.offline = saved

    def do_settle(self, i, step):
        """faults have stopped: everything published must load and be right"""
        ctx = self.ctx
        if step['fresh']:
            self.clients = {}
        loaded = [s['when'] for s in self.s['steps'] if s['op'] == 'load']
        for when in sorted(set(loaded)):
            m, loader = self.client(0)
            out = self.call((lambda: loader.set_interval(when)) if loader else (lambda: m.load_interval(when)))
            ctx.ev(i, 'settle', when, out)
            if self.truth(when) is None:
                ctx.check(out != 'ok', 'load-of-unpublished', 'load of %s returned normally but the server publishes no such '
                          'interval' % when)
                continue
            ctx.check(out == 'ok', 'not-recovered', 'after faults stopped, loading the published interval %s fails: %s: %s' %
                      (when, type(self.exc).__name__, self.exc))
            self.compare_all(m, loader, when, 'settled load of %s' % when)
            if loader is not None:
                self.db_check(loader, when, 'settled load of %s' % when)
            f = os.path.join(self.cache, self.truth(when).file_name)
            if os.path.exists(f):
                with open(f, 'rb') as fh:
                    ctx.check(fh.read() == self.truth(when).xml(), 'damaged-cache-file', 'the cached file %s differs from the '
                              'published one' % os.path.basename(f))
        ctx.probe('settled')

    # ---- P07
    def do_lose(self, i, step):
        names = ['NEMSPDOutputs_%s%%03d00%s.loaded' % (step['day'], x) for x in ('', '_OCD')]
        n = 0
        self.disk.in_hook += 1
        try:
            for k in step['both']:
                for a, b in (names, names[::-1]):
                    a, b = os.path.join(self.cache, a % k), os.path.join(self.cache, b % k)
                    if os.path.exists(a) and not os.path.exists(b):
                        shutil.copyfile(a, b)
                        break
            for k in step['gone']:
                for a in names:
                    if os.path.exists(os.path.join(self.cache, a % k)):
                        os.remove(os.path.join(self.cache, a % k))
                        n += 1
        finally:
            self.disk.in_hook -= 1
        self.ctx.ev(i, 'lose', step['day'], step['gone'], step['both'], n)
        if n:
            self.ctx.fault('files-removed')

    def do_populate(self, i, step):
        ctx = self.ctx
        m, _ = self.client(0)
        a, b = dt(step['from'] + ' 00:00:00'), dt(step['to'] + ' 00:00:00')
        self.arm(step)
        if step['month']:
            fn = lambda: m.populate(start_year=a.year, start_month=a.month, end_year=b.year, end_month=b.month, verbose=False)
        else:
            fn = lambda: m.populate_by_day(start_year=a.year, start_month=a.month, start_day=a.day, end_year=b.year,
                                           end_month=b.month, end_day=b.day, verbose=False)
        out = self.call(fn)
        any_fault = self.any_fault
        ctx.ev(i, 'populate', step['from'], step['to'], out, 'disk-events', self.disk.n, 'requests', self.reqs)
        self.disarm()
        if out == 'crash':
            self.clients = {}
            return
        ctx.check(out == 'ok' or any_fault, 'unexpected-failure', 'populating %s to %s failed without any fault: %s: %s' %
                  (step['from'], step['to'], type(self.exc).__name__, self.exc))
        if step.get('again'):
            ctx.check(self.reqs == 0, 'refetched', 'repeating a completed population made %d requests' % self.reqs)
        if out != 'ok':
            return
        ctx.probe('populated')
        if step.get('again'):
            return
        # a fresh process without network loads every interval of the range
        m = self.new_manager()
        self.offline = True
        when = a + timedelta(minutes=5)
        end = b + timedelta(days=1)
        n = 0
        while when <= end:
            w = st(when)
            edge = (when.hour, when.minute) in ((0, 0), (0, 5), (4, 0), (4, 5), (23, 55))
            if edge or n % step.get('every', 1) == 0:
                try:
                    m.load_interval(w)
                except Exception as e:
                    ctx.check(False, 'interval-missing-offline', 'after populating %s to %s, interval %s does not load '
                              'offline: %s: %s' % (step['from'], step['to'], w, type(e).__name__, e))
                ctx.evaluations += 1
                if edge:
                    self.compare_all(m, None, w, 'offline load of ' + w)
            when += timedelta(minutes=5)
            n += 1
        self.offline = False
        self.reqs = 0

    # ---- P08 scans
    def do_scan(self, i, step):
        ctx = self.ctx
        m, _ = self.client(0)
        y, mo, limit = step['y'], step['m'], step['limit']
        start = datetime(y, mo, 1)
        end = datetime(y + mo // 12, mo % 12 + 1, 1)
        box = {}

        def fn():
            box['r'] = m.find_intervals_with_violations(limit=limit, start_year=y, start_month=mo, end_year=y, end_month=mo)
        out = self.call(fn)
        self.disarm()
        exp, missing, t = {}, 0, start
        n = 0
        while t <= end and len(exp) < limit:
            c = self.truth(st(t))
            n += 1
            if c is None:
                missing += 1
            else:
                v = sorted(k for k, x in c.violation.items() if x > 0)
                if v:
                    exp[st(t)] = v
            t += timedelta(minutes=5)
        ctx.ev(i, 'scan', y, mo, 'limit', limit, out, 'intervals', n, 'missing', missing, 'found', len(exp))
        ctx.check(out == 'ok', 'scan-failed', 'scan of %d/%02d failed: %s: %s' % (y, mo, type(self.exc).__name__, self.exc))
        got = {k: sorted(v) for k, v in box['r'].items()}
        ctx.check(got == exp, 'scan-result', 'scan of %d/%02d limit %d: reported but not published so: %s; missing from the '
                  'report: %s' % (y, mo, limit, sorted(set(got) - set(exp))[:3], sorted(set(exp) - set(got))[:3]))
        ctx.probe('scan')
        ctx.check(self.reqs <= 2 * (missing + 40), 'too-many-requests', 'scan made %d requests' % self.reqs)
