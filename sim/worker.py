"""One simulator process: executes seeds start, start+stride, ... and reports one JSON line per run on fd 3-like pipe."""
import json
import os
import sys
import time as _t

_monotonic = _t.monotonic


def main():
    prop, seed, tier, start, stride, count, wall = sys.argv[1:8]
    seed, start, stride, count, wall = int(seed), int(start), int(stride), int(count), float(wall)
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('SIM_DEBUG'):
        os.dup2(devnull, 2)
    import warnings
    warnings.filterwarnings('ignore')
    from sim import seams, core, registry
    seams.install()
    world = registry.PROPS[prop][0]()
    t0 = _monotonic()

    def emit(obj):
        out.write(json.dumps(obj) + '\n')
        out.flush()
    emit({'ready': True})
    for i in range(start, count, stride):
        if _monotonic() - t0 > wall:
            break
        try:
            rng = core.rng_for(seed, prop, i)
            sc = world.generate(rng, prop, tier)
            sc.update({'prop': prop, 'seed': seed, 'index': i})
            v, ctx = core.run_scenario(world, sc, prop)
        except BaseException as e:  # noqa
            import traceback
            emit({'i': i, 'error': traceback.format_exc()[-3000:]})
            if isinstance(e, KeyboardInterrupt):
                raise
            continue
        rec = {'i': i, 'digest': ctx.digest(), 'faults': ctx.faults, 'probes': ctx.probes, 'n_ev': len(ctx.log),
               'states': sorted(ctx.states), 'sim_time': ctx.sim_time, 'evals': ctx.evaluations,
               'nontrivial': world.nontrivial(ctx) if hasattr(world, 'nontrivial') else bool(ctx.faults or ctx.probes)}
        if i < 3:
            rec['sample'] = {'index': i, 'scenario': sc, 'log_tail': ctx.log[-12:]}
        if v is not None:
            rec['violation'] = {'cls': v.cls, 'msg': v.msg, 'scenario': sc}
        emit(rec)
    emit({'done': True})


if __name__ == '__main__':
    main()
