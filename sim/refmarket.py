"""A small independent model of one market dispatch: the executable reference for the market worlds.

It works on plain rows (lists of dicts), shares no code with nempy and writes its constraints from the documented meaning
of the inputs: net energy, trapeziums, ramp rates, losses interpolated between break points (segments chosen by binaries),
violation penalties.  Only the simplex / branch and bound routine (CBC) is shared.
"""
import math

from .core import HarnessError

CONTINGENCY = ('raise_5min', 'lower_5min', 'raise_60s', 'lower_60s', 'raise_6s', 'lower_6s', 'raise_1s', 'lower_1s')
FCAS_GROUPS = ('fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
               'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'joint_capacity',
               'energy_and_regulation_capacity')
LOSS_GROUPS = ('loss', 'weights', 'flow')
DEFICIT_CAP = 20000.0


def loss_at(spec, flow):
    k = spec['kind']
    if k == 'pct':
        return abs(flow) * spec['a']
    if k == 'quad':
        return spec['a'] * flow * flow + spec['b'] * flow
    if k == 'bump':      # not convex
        return spec['a'] * math.sqrt(abs(flow))
    raise HarnessError(k)


def interpolate(points, spec, flow):
    """loss between adjacent break points at this flow (points sorted)"""
    if len(points) == 1:
        return loss_at(spec, points[0])
    for a, b in zip(points, points[1:]):
        if a - 1e-6 <= flow <= b + 1e-6 and b > a:
            la, lb = loss_at(spec, a), loss_at(spec, b)
            return la + (lb - la) * (flow - a) / (b - a)
    return None


class Row:
    __slots__ = ('group', 'key', 'type', 'rhs', 'lhs', 'cost', 'dvars')

    def __init__(self, group, key, type_, rhs, lhs, cost=None):
        self.group, self.key, self.type, self.rhs, self.lhs, self.cost = group, key, type_, rhs, lhs, cost
        self.dvars = []


class Problem:
    """vars: name -> [lb, ub, cost]; rows; sets: interconnector weights (sos2) and link pairs (sos1)"""

    def __init__(self):
        self.vars = {}
        self.rows = []
        self.sos2 = []      # (inter, link, [(weight var, break point)], spec)
        self.sos1 = []      # [[flow var, ...]]
        self.total = {}     # ('unit', u, dtype, service) -> [vars]; ('flow', i, l) -> [var]; ('loss', i, l) -> [var]
        self.demand_rows = {}
        self.fcas_rows = {}     # set -> row
        self.fcas_members = {}  # (region, service) -> [set]
        self.unservable = False # a requirement nothing in the market can contribute to

    def var(self, name, lb, ub, cost=0.0):
        self.vars[name] = [lb, ub, cost]
        return name


def _hours(minutes):
    return minutes / 60


def _add(lhs, var, c):
    lhs[var] = lhs.get(var, 0.0) + c


def composite_rates(gen, load, h):
    """ramp limits of a unit that moves through zero: (up MW per h, down MW per h) over h hours, initial net output"""
    i = gen['initial_output']

    def through(start, first, second):
        # start MW towards zero at rate first, beyond zero at rate second
        if start <= 0:
            return second
        if first == 0:
            return 0.0
        t = start / first
        if t >= h:
            return first
        return (start + (h - t) * second) / h
    up = through(-i, load['ramp_down_rate'], gen['ramp_up_rate'])
    down = through(i, gen['ramp_down_rate'], load['ramp_up_rate'])
    return up, down, i


def fmin(a, b):
    if b is None:
        return a
    return min(a, b)


def build(cfg, inp):
    """cfg: {'interval', 'units': [...]}, inp: {what: {'rows': ..., 'cost': ...}}"""
    p = Problem()
    h = _hours(cfg['interval'])
    info = {(u['unit'], u['dispatch_type']): u for u in cfg['units']}
    count = {}
    for u in cfg['units']:
        count[u['unit']] = count.get(u['unit'], 0) + 1
    bdu = {u for u, n in count.items() if n == 2}
    dt_of = lambda r: r.get('dispatch_type', 'generator')
    sv_of = lambda r: r.get('service', 'energy')
    # ---- bids
    prices = {}
    for r in inp['price_bids']['rows'] if 'price_bids' in inp else []:
        for b in range(1, 11):
            if str(b) in r:
                prices[r['unit'], sv_of(r), dt_of(r), str(b)] = r[str(b)]
    bids = []
    by_unit, by_region = {}, {}
    for r in inp['volume_bids']['rows']:
        u, s, d = r['unit'], sv_of(r), dt_of(r)
        reg = info[u, d]['region']
        for b in range(1, 11):
            if str(b) not in r or r[str(b)] < 0.0001:
                continue
            c = prices.get((u, s, d, str(b)), 0.0)
            if s == 'energy':
                c = (-1.0 * c if d == 'load' else c) / info[u, d].get('loss_factor', 1.0)
            v = p.var(('bid', u, s, d, str(b)), 0.0, r[str(b)], c)
            p.total.setdefault(('unit', u, d, s), []).append(v)
            bids.append((v, u, s, d, str(b), r[str(b)], c, reg))
            by_unit.setdefault((u, s), []).append((v, d))
            by_region.setdefault((reg, s), []).append((v, d))

    def unit_lhs(lhs, u, service, c, dtypes=None, net=True):
        """c times the unit's dispatch of a service; energy of a two-sided unit is net (generation less load)"""
        for v, d in by_unit.get((u, service), []):
            if dtypes is not None and d not in dtypes:
                continue
            sign = -1.0 if (net and u in bdu and service == 'energy' and d == 'load') else 1.0
            _add(lhs, v, c * sign)
        return lhs

    rows = p.rows

    def add(group, key, type_, rhs, lhs, cost):
        if lhs:
            rows.append(Row(group, key, type_, rhs, lhs, cost))

    def each(what):
        e = inp.get(what)
        return (e['rows'], e.get('cost')) if e else ([], None)
    # ---- capacity and forecasts: per unit and direction
    t, c = each('capacity')
    for r in t:
        add('unit_bid_capacity', (r['unit'], dt_of(r)), '<=', r['capacity'],
            unit_lhs({}, r['unit'], 'energy', 1.0, [dt_of(r)], net=False), c)
    t, c = each('uigf')
    for r in t:
        add('uigf_capacity', r['unit'], '<=', r['capacity'], unit_lhs({}, r['unit'], 'energy', 1.0, ['generator'], net=False), c)
    # ---- ramp rates
    if 'ramp' in inp:
        e = inp['ramp']
        c = e.get('cost')
        scada = {r['unit']: r for r in e['scada'] or []} if e.get('scada') else {}
        prof = {r['unit']: r for r in e.get('profiles') or []}
        both = {}
        for r in e['rows']:
            u, d = r['unit'], dt_of(r)
            if u in bdu:
                both.setdefault(u, {})[d] = r
                continue
            up, dn, i = r['ramp_up_rate'], r['ramp_down_rate'], r['initial_output']
            if u in scada:
                up = fmin(up, scada[u].get('scada_ramp_up_rate'))
                dn = fmin(dn, scada[u].get('scada_ramp_down_rate'))
            q = prof.get(u)
            hi = i + up * h
            if q and e['run_type'] == 'fast_start_first_run' and q['current_mode'] in (0, 1, 2):
                continue
            if q and e['run_type'] == 'fast_start_second_run':
                if q['end_mode'] in (0, 1, 2):
                    continue
                if q['time_since_end_of_mode_two'] is not None:
                    hi = q['min_loading'] + up / 60 * q['time_since_end_of_mode_two']
            lhs = unit_lhs({}, u, 'energy', 1.0, [d])
            add('ramp_up', (u, d), '<=', hi, dict(lhs), c)
            add('ramp_down', (u, d), '>=', i - dn * h, dict(lhs), c)
        for u, sides in both.items():
            up, dn, i = composite_rates(sides['generator'], sides['load'], h)
            if u in scada:
                up = fmin(up, scada[u].get('scada_ramp_up_rate'))
                dn = fmin(dn, scada[u].get('scada_ramp_down_rate'))
            lhs = unit_lhs({}, u, 'energy', 1.0)
            add('bidirectional_ramp_up', u, '<=', i + up * h, dict(lhs), c)
            add('bidirectional_ramp_down', u, '>=', i - dn * h, dict(lhs), c)
    # ---- fast start profiles
    t, c = each('fast_start')
    for r in t:
        for (u, d) in info:
            if u != r['unit']:
                continue
            lhs = unit_lhs({}, u, 'energy', 1.0, [d])
            m = r['end_mode']
            if m in (0, 1):
                add('fast_start', (u, 'zero'), '<=', 0.0, lhs, c)
            elif m == 2:
                x = r['time_in_end_mode'] / r['mode_two_length'] * r['min_loading']
                add('fast_start', (u, 'at least'), '>=', x, dict(lhs), c)
                add('fast_start', (u, 'at most'), '<=', x, dict(lhs), c)
            elif m == 3:
                add('fast_start', (u, 'min'), '>=', r['min_loading'], lhs, c)
            elif m == 4:
                add('fast_start', (u, 'fall'), '>=',
                    r['min_loading'] * (1 - r['time_in_end_mode'] / r['mode_four_length']), lhs, c)
    # ---- fcas on units
    t, c = each('fcas_max')
    for r in t:
        add('fcas_max_availability', (r['unit'], r['service'], dt_of(r)), '<=', r['max_availability'],
            unit_lhs({}, r['unit'], r['service'], 1.0, [dt_of(r)]), c)
    if 'joint_ramp' in inp:
        e = inp['joint_ramp']
        c = e.get('cost')
        prof = {r['unit']: r for r in e.get('profiles') or []}
        for r in e['rows']:
            u = r['unit']
            q = prof.get(u)
            i, up, dn = r['initial_output'], r['scada_ramp_up_rate'], r['scada_ramp_down_rate']
            hi, lo = i + up * h, i - dn * h
            if q and e['run_type'] == 'fast_start_first_run' and q['current_mode'] in (0, 1, 2):
                continue
            if q and e['run_type'] == 'fast_start_second_run':
                if q['end_mode'] in (0, 1, 2):
                    continue
                if q['time_since_end_of_mode_two'] is not None:
                    hi = q['min_loading'] + up / 60 * q['time_since_end_of_mode_two']
            for s in ('raise_reg', 'lower_reg'):
                sides = sorted({d for _, d in by_unit.get((u, s), [])})
                if not sides:
                    continue
                if u in bdu:      # raise moves net output up whichever side provides it
                    lhs = unit_lhs({}, u, 'energy', 1.0)
                    unit_lhs(lhs, u, s, 1.0 if s == 'raise_reg' else -1.0)
                    add('joint_ramping_%s_bdu' % s, u, '<=' if s == 'raise_reg' else '>=', hi if s == 'raise_reg' else lo, lhs, c)
                    continue
                for d in sides:
                    lhs = unit_lhs({}, u, 'energy', 1.0, [d])
                    if d == 'generator':
                        up_side, rhs = (True, hi) if s == 'raise_reg' else (False, lo)
                    else:      # raising means consuming less
                        up_side, rhs = (False, i - (hi - i)) if s == 'raise_reg' else (True, i + dn * h)
                    unit_lhs(lhs, u, s, 1.0 if up_side else -1.0, [d])
                    add('joint_ramping_' + s, (u, d), '<=' if up_side else '>=', rhs, lhs, c)
    t, c = each('joint_cap')
    for r in t:
        u, s, d = r['unit'], r['service'], dt_of(r)
        us = (r['enablement_max'] - r['high_break_point']) / r['max_availability']
        ls = (r['low_break_point'] - r['enablement_min']) / r['max_availability']
        up_reg, dn_reg = ('raise_reg', 'lower_reg') if d == 'generator' else ('lower_reg', 'raise_reg')
        sides = None if u in bdu else [d]
        lhs = unit_lhs({}, u, 'energy', 1.0, sides)
        unit_lhs(lhs, u, s, us, [d])
        unit_lhs(lhs, u, up_reg, 1.0, sides)
        add('joint_capacity', (u, s, d, 'upper'), '<=', r['enablement_max'], lhs, c)
        lhs = unit_lhs({}, u, 'energy', 1.0, sides)
        unit_lhs(lhs, u, s, -ls, [d])
        unit_lhs(lhs, u, dn_reg, -1.0, sides)
        add('joint_capacity', (u, s, d, 'lower'), '>=', r['enablement_min'], lhs, c)
    t, c = each('enreg')
    for r in t:
        u, s, d = r['unit'], r['service'], dt_of(r)
        us = (r['enablement_max'] - r['high_break_point']) / r['max_availability']
        ls = (r['low_break_point'] - r['enablement_min']) / r['max_availability']
        lhs = unit_lhs({}, u, 'energy', 1.0, [d])
        unit_lhs(lhs, u, s, us, [d])
        add('energy_and_regulation_capacity', (u, s, d, 'upper'), '<=', r['enablement_max'], lhs, c)
        lhs = unit_lhs({}, u, 'energy', 1.0, [d])
        unit_lhs(lhs, u, s, -ls, [d])
        add('energy_and_regulation_capacity', (u, s, d, 'lower'), '>=', r['enablement_min'], lhs, c)
    # ---- interconnectors
    flows = {}
    pairs = {}
    for r in inp['interconnectors']['rows'] if 'interconnectors' in inp else []:
        i, l = r['interconnector'], r.get('link', r['interconnector'])
        v = p.var(('flow', i, l), r['min'], r['max'])
        p.total['flow', i, l] = [v]
        flows[i, l] = (v, r)
        if i != l:
            pairs.setdefault(i, []).append(v)
    p.sos1 = list(pairs.values())
    losses = {}
    if 'losses' in inp:
        e = inp['losses']
        for r in e['rows']:
            i, l = r['interconnector'], r.get('link', r['interconnector'])
            v, d = flows[i, l]
            m = max(abs(d['min']), abs(d['max']))
            lv = p.var(('loss', i, l), -m, m)
            p.total['loss', i, l] = [lv]
            losses[i, l] = (lv, r['from_region_loss_share'])
            pts = sorted((q['loss_segment'], q['break_point']) for q in e['points']
                         if (q['interconnector'], q.get('link', q['interconnector'])) == (i, l))
            ws = []
            for k, b in pts:
                ws.append((p.var(('w', i, l, k), 0.0, 1.0), b))
            rows.append(Row('weights', (i, l), '=', 1.0, {w: 1.0 for w, _ in ws}))
            lhs = {w: b for w, b in ws}
            lhs[v] = lhs.get(v, 0.0) - 1.0
            rows.append(Row('flow', (i, l), '=', 0.0, lhs))
            lhs = {w: loss_at(r['loss_function'], b) for w, b in ws}
            lhs[lv] = -1.0
            rows.append(Row('loss', (i, l), '=', 0.0, lhs))
            p.sos2.append((i, l, ws, r['loss_function']))
    # ---- balances
    t, c = each('demand')
    for r in t:
        g = r['region']
        lhs = {}
        for v, d in by_region.get((g, 'energy'), []):
            _add(lhs, v, -1.0 if d == 'load' else 1.0)
        for (i, l), (v, d) in flows.items():
            if d['to_region'] == g:
                _add(lhs, v, d.get('to_region_loss_factor', 1.0))
            if d['from_region'] == g:
                _add(lhs, v, -d.get('from_region_loss_factor', 1.0))
        for (i, l), (lv, share) in losses.items():
            d = flows[i, l][1]
            if d['from_region'] == g:
                _add(lhs, lv, -share)
            if d['to_region'] == g:
                _add(lhs, lv, -(1 - share))
        add('demand', g, '=', r['demand'], lhs, c)
        if lhs:
            p.demand_rows[g] = rows[-1]
        else:
            p.unservable = True

    def set_cost(c, name):
        if isinstance(c, dict):
            return c.get(name)
        return c
    sets = {}
    t, c = each('fcas')
    for r in t:
        s = sets.get(r['set'])
        if s is None:
            s = sets[r['set']] = Row('fcas', r['set'], r.get('type', '='), r['volume'], {}, set_cost(c, r['set']))
        for v, d in by_region.get((r['region'], r['service']), []):
            _add(s.lhs, v, 1.0)
        p.fcas_members.setdefault((r['region'], r['service']), []).append(r['set'])
    t, c = each('generic')
    for r in t:
        sets[r['set']] = Row('generic', r['set'], r['type'], r['rhs'], {}, set_cost(c, r['set']))
    for r in each('link_units')[0]:
        s = sets.get(r['set'])
        if s is not None:
            unit_lhs(s.lhs, r['unit'], r['service'], r['coefficient'])
    for r in each('link_regions')[0]:
        s = sets.get(r['set'])
        if s is not None:
            for v, d in by_region.get((r['region'], r['service']), []):
                _add(s.lhs, v, r['coefficient'])
    for r in each('link_inters')[0]:
        s = sets.get(r['set'])
        if s is not None:
            for (i, l), (v, d) in flows.items():
                if i == r['interconnector']:
                    _add(s.lhs, v, r['coefficient'] * d.get('generic_constraint_factor', 1))
    for s in sets.values():
        if s.group == 'fcas' and not s.lhs and s.cost is None:
            p.unservable = True
        if s.lhs or s.cost is not None:
            rows.append(s)
            if s.group == 'fcas':
                p.fcas_rows[s.key] = s
    # ---- tie breaks
    if 'tie_break' in inp:
        e = [b for b in bids if b[2] == 'energy' and (b[1], b[2], b[3], b[4]) in prices]
        for x in range(len(e)):
            for y in range(x + 1, len(e)):
                a, b = e[x], e[y]
                if a[1] != b[1] and a[3] == b[3] and a[6] == b[6] and a[7] == b[7]:
                    rows.append(Row('tie_break', (a[0], b[0]), '=', 0.0, {a[0]: 1 / a[5], b[0]: -1 / b[5]},
                                    inp['tie_break']['cost']))
    for k, r in enumerate(rows):
        if r.cost is not None:
            if r.type in ('>=', '='):
                r.dvars.append((p.var(('short', k), 0.0, DEFICIT_CAP, r.cost), 1.0))
            if r.type in ('<=', '='):
                r.dvars.append((p.var(('over', k), 0.0, DEFICIT_CAP, r.cost), -1.0))
    return p


class Sol:
    def __init__(self, value, x):
        self.value, self.x = value, x


class Undecided(Exception):
    """the solver library gave no trustworthy answer to a reference problem in any configuration"""


def _run(m, checks):
    """optimise m, and believe the answer only if it meets m's own constraints (this CBC build sometimes maps the solution
    of its preprocessed problem back wrongly, or takes a feasible problem for infeasible).  True: solved, False: infeasible"""
    import mip
    S = mip.OptimizationStatus
    infeasible = 0
    for preprocess, cuts, method in ((-1, -1, mip.LP_Method.DUAL), (0, 0, mip.LP_Method.DUAL), (0, 0, mip.LP_Method.PRIMAL)):
        m.preprocess, m.cuts, m.lp_method = preprocess, cuts, method
        st = m.optimize()
        if st == S.OPTIMAL:
            ok = all(v.lb - 1e-5 <= v.x <= v.ub + 1e-5 for v in m.vars)
            for e, t, rhs in checks:
                if not ok:
                    break
                x = e.x
                tol = 1e-5 * (1 + abs(rhs) / 100)
                ok = (t == '>=' or x <= rhs + tol) and (t == '<=' or x >= rhs - tol)
            if ok:
                return True
        elif st in (S.INFEASIBLE, S.INT_INFEASIBLE):
            infeasible += 1
            if infeasible == 2:
                return False
    raise Undecided('status %s' % st)


def solve(p, integer=True, fixed=None, near=None, prices=None, box=5.0, slack=False, tol=1e-4):
    """least cost.  integer: adjacent break points and one link per pair by binaries; fixed: {(i, l): segment} restricts
    the weights to one segment and ('off', var) link flows to zero; near: totals the solution must match to within tol;
    prices: (energy {region: p}, fcas {(region, service): p}, box): allow buying up to `box` MW of each requirement at
    these prices; slack: minimise the violation of hard rows instead.  None: infeasible."""
    import mip
    m = mip.Model(solver_name=mip.CBC)
    m.verbose = 0
    m.lp_method = mip.LP_Method.DUAL
    m.solver.set_mip_gap_abs(1e-10)
    m.solver.set_mip_gap(1e-20)
    m.max_mip_gap, m.max_mip_gap_abs = 1e-12, 1e-9
    V = {}
    checks = []

    def need(e, t, rhs):
        checks.append((e, t, rhs))
        m.add_constr(e <= rhs if t == '<=' else (e >= rhs if t == '>=' else e == rhs))
    off = set()
    obj = []
    if fixed:
        for i, l, ws, _ in p.sos2:
            if (i, l) in fixed:
                k = fixed[i, l]
                off |= {w for n, (w, _) in enumerate(ws) if n not in (k, k + 1)}
        off |= fixed.get('off', set())
    for name, (lb, ub, c) in p.vars.items():
        if name in off:
            lb = ub = 0.0
        V[name] = m.add_var(lb=lb, ub=ub)
        if c and not slack:
            obj.append(c * V[name])
    extra = {}
    if prices:
        energy, fcas, box = prices
        for g, row in p.demand_rows.items():
            s = m.add_var(lb=-box, ub=box)
            extra.setdefault(id(row), []).append(s)
            obj.append(float(energy[g]) * s)
        for rs, members in p.fcas_members.items():
            s = m.add_var(lb=-box, ub=box)
            used = False
            for n in members:
                if n in p.fcas_rows:
                    extra.setdefault(id(p.fcas_rows[n]), []).append(s)
                    used = True
            if used:
                obj.append(float(fcas[rs]) * s)
    slacks = []
    for k, r in enumerate(p.rows):
        terms = [c * V[v] for v, c in r.lhs.items()] + [c * V[v] for v, c in r.dvars] + extra.get(id(r), [])
        if slack and r.cost is None:
            if r.type in ('>=', '='):
                s = m.add_var(lb=0.0)
                terms.append(s)
                slacks.append((r, s))
                obj.append(1.0 * s)
            if r.type in ('<=', '='):
                s = m.add_var(lb=0.0)
                terms.append(-1.0 * s)
                slacks.append((r, s))
                obj.append(1.0 * s)
        if not terms:
            continue
        e = mip.xsum(terms)
        need(e, r.type, r.rhs)
    if near is not None:
        for key, val in near.items():
            e = mip.xsum([1.0 * V[v] for v in p.total[key]])
            if slack:
                s, t = m.add_var(lb=0.0), m.add_var(lb=0.0)
                slacks.append((('bounds', key), s))
                slacks.append((('bounds', key), t))
                obj += [1.0 * s, 1.0 * t]
                need(e + s, '>=', val - tol)
                need(e - t, '<=', val + tol)
            else:
                need(e, '>=', val - tol)
                need(e, '<=', val + tol)
    if integer and not fixed:
        for i, l, ws, _ in p.sos2:
            if len(ws) <= 2:
                continue
            z = [m.add_var(var_type=mip.BINARY) for _ in range(len(ws) - 1)]
            need(mip.xsum(z), '=', 1)
            for n, (w, _) in enumerate(ws):
                need(V[w] - mip.xsum([z[q] for q in (n - 1, n) if 0 <= q < len(z)]), '<=', 0)
        for group in p.sos1:
            z = [m.add_var(var_type=mip.BINARY) for _ in group]
            need(mip.xsum(z), '<=', 1)
            for v, b in zip(group, z):
                lb, ub, _ = p.vars[v]
                need(V[v] - ub * b, '<=', 0)
                need(V[v] - min(lb, 0.0) * b, '>=', 0)
    m.objective = mip.minimize(mip.xsum(obj))
    if not _run(m, checks):
        return None
    s = Sol(m.objective.x or 0.0, {n: v.x for n, v in V.items()})
    if slack:
        s.slacks = [(r, v.x) for r, v in slacks if v.x > 1e-5]
    return s


def row_terms(p, r):
    """coefficients of a row over whole bids (totals), or None where the row uses something else"""
    inv = {}
    for key, vs in p.total.items():
        for v in vs:
            inv[v] = key
    groups = {}
    for v, c in r.lhs.items():
        k = inv.get(v)
        if k is None or groups.setdefault(k, c) != c:
            return None
    return groups


def row_value(p, r, totals):
    t = row_terms(p, r)
    return None if t is None else sum(c * totals[k] for k, c in t.items())


def row_violation(p, r, totals):
    """violation of a row by reported totals (rows over whole bids only)"""
    val = row_value(p, r, totals)
    if val is None:
        return None
    if r.type == '<=':
        return max(0.0, val - r.rhs)
    if r.type == '>=':
        return max(0.0, r.rhs - val)
    return abs(val - r.rhs)
