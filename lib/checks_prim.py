"""Checks of the data structures, utilities and the storage layer: in-process monitors (src/primdrv.c, src/stordrv.c)"""
import json, os, subprocess
import vf


def run_native(exe, args, cpu=120, wall=300):
    """run a driver whose monitors are in its own process; -> vf.Run with its events"""
    return vf.run_driver(exe, [''], cpu=cpu, wall=wall, args=[str(a) for a in args])


def unit_native(exe, name, seed, rounds, extra=()):
    """one process of @rounds rounds"""
    res = vf.Result()
    args = [name, seed % (1 << 40), rounds] + list(extra)
    r = run_native(exe, args)
    replay = {'argv': [os.path.basename(exe)] + [str(a) for a in args]}
    for ev in r.events:
        if 'viol' in ev:
            res.violation(ev['viol'], ev['msg'], dict(replay, round_seed=ev.get('round_seed')))
            return res
        if 'evals' in ev:
            res.evals += ev['evals']
            res.tally.add('rounds_' + name, ev['rounds'])
            for s in ev['sigs']:
                res.sig(name, s)
            for k, v in ev.get('tally', {}).items():
                res.tally.add(k, v)
            if not res.samples and ev['sigs']:
                res.samples.append('%s seed %s: %d rounds, %d comparisons, %d distinct states' % (name, args[1], ev['rounds'], ev['evals'], len(ev['sigs'])))
    if vf.died(r):
        res.violation('%s-crash' % name, vf.crash_summary(r) + ' | ' + r.stderr[-600:], replay)
    return res
