"""property id -> (world factory, quick/thorough budgets)"""


def _lazy(modname, clsname):
    def make():
        import importlib
        return getattr(importlib.import_module('sim.worlds.' + modname), clsname)()
    make.world = modname
    return make


MMS = _lazy('mms', 'MMSWorld')
XML = _lazy('xml', 'XMLWorld')
RHS = _lazy('rhs', 'RHSWorld')
MARKET = _lazy('market', 'MarketWorld')
SEQ = _lazy('seq', 'SeqWorld')
PREP = _lazy('prep', 'PrepWorld')

# prop: (world, quick runs, quick wall seconds, thorough runs, thorough wall seconds)
PROPS = {
    'P01': (MMS, 4000, 110, 200000, 3000),
    'P02': (MMS, 600, 110, 40000, 3000),
    'P03': (MMS, 3000, 110, 120000, 3000),
    'P04': (MMS, 3000, 110, 120000, 3000),
    'P05': (XML, 2000, 110, 100000, 3000),
    'P06': (XML, 2000, 110, 100000, 3000),
    'P07': (XML, 200, 110, 10000, 3000),
    'P08': (XML, 600, 110, 100000, 3000),
    'P09': (XML, 1500, 110, 80000, 3000),
    'P10': (PREP, 800, 110, 40000, 3000),
    'P11': (MARKET, 600, 110, 20000, 3000),
    'P12': (MARKET, 600, 110, 20000, 3000),
    'P13': (MARKET, 600, 110, 20000, 3000),
    'P14': (MARKET, 600, 110, 20000, 3000),
    'P15': (MARKET, 600, 110, 20000, 3000),
    'P16': (MARKET, 400, 110, 20000, 3000),
    'P17': (MARKET, 600, 110, 20000, 3000),
    'P18': (MARKET, 600, 110, 20000, 3000),
    'P19': (MARKET, 600, 110, 20000, 3000),
    'P20': (SEQ, 240, 110, 20000, 3000),
    'P21': (RHS, 6000, 110, 300000, 3000),
    'P22': (RHS, 6000, 110, 300000, 3000),
    'P23': (MARKET, 600, 110, 20000, 3000),
    'P26': (PREP, 800, 110, 40000, 3000),
    'P25': (MARKET, 600, 110, 20000, 3000),
    'P24': (MARKET, 600, 110, 20000, 3000),
}
WORLD_OF = {k: v[0].world for k, v in PROPS.items()}
