"""
Check driver:  python3-vt -m sx.run <PROPERTY> [--tier quick|thorough] [--only SUBSTR]
Exit 0: held on everything explored; 1: VIOLATION (replayed on the real code);
2: inconclusive / machinery error.
"""
import argparse
import gc
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY_REAL = os.environ.get('CURVEPY_PYTHON', '/opt/venv/bin/python')
KNOWN = os.path.join(ROOT, 'known-findings.json')


# ------------------------------------------------------------------ worker

class _Path:
    __slots__ = ('status', 'label', 'ctx', 'detail')

    def __init__(self, status, label=None, ctx=None, detail=None):
        self.status, self.label, self.ctx, self.detail = status, label, ctx, detail


def _frac_str(v):
    return '%d/%d' % (v.numerator, v.denominator) if v.denominator != 1 else str(v.numerator)


class Runner:
    def __init__(self, inst, n_samples=4):
        from . import engine as E
        self.E = E
        self.inst = inst
        self.n_samples = n_samples
        self.samples = []
        self.cex = []
        self.covered = 0       # paths that decided at least one assertion
        self.witness = False

    # --- models
    def _inputs(self, model, eng):
        out = {}
        for name, i in eng.inputs.items():
            v = model.atom(i)
            if v is None:
                return None
            out[name] = _frac_str(v)
        return out

    def model_for(self, eng, extra=None, ms=3000):
        """Models of the current path (plus extra), preferring small dyadic inputs."""
        import z3
        E = self.E
        outs = []
        base = list(eng.solver.assertions()) + ([extra] if extra is not None else [])
        for q in (1, 4, 16, None):
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*base)
            if q is not None:
                for name, i in eng.inputs.items():
                    if not eng.atom_int[i]:
                        k = z3.Int('nice_%d' % i)
                        s.add(eng.atoms[i] * q == z3.ToReal(k))
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                old = E._E
                E._E = eng
                try:
                    inp = self._inputs(E.Model(s.model()), eng)
                finally:
                    E._E = old
                if inp is not None:
                    outs.append(inp)
                    if len(outs) >= 2:
                        break
        if not outs and extra is None and eng.model is not None:
            inp = self._inputs(eng.model, eng)
            if inp is not None:
                outs.append(inp)
        return outs

    # --- one path
    def run(self, eng):
        from .harness import make_sym_ctx
        E = self.E
        ctx = make_sym_ctx(eng)
        signal.setitimer(signal.ITIMER_REAL, self.inst.path_s)
        try:
            try:
                self.inst(ctx)
                st = _Path('done', ctx=ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except E.PathInfeasible:
            eng.stats.aborted += 1
            return _Path('infeasible')
        except E.PathTimeout:
            st = _Path('hang', 'termination', ctx, 'path time-out')
        except E.Inconclusive as e:
            if 'decision bound' in str(e):
                st = _Path('hang', 'termination', ctx, str(e))
            else:
                raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
            st = _Path('exception', 'exception ' + type(e).__name__, ctx, '%s @ %s' % (str(e)[:200], where))
        self.finish(eng, st)
        return st

    def finish(self, eng, st):
        import z3
        E = self.E
        stats = eng.stats
        stats.paths += 1
        if st.status in ('exception', 'hang'):
            # the path condition is satisfiable: any model is a candidate
            for inp in self.model_for(eng):
                self.cex.append(dict(label=st.label, detail=st.detail, inputs=inp))
            if not self.cex:
                raise E.Inconclusive('%s on a path without a model: %s' % (st.label, st.detail))
            return
        zs, lab = [], []
        for label, cond, a, b in st.ctx.asserts:
            if isinstance(cond, tuple):
                _, x, y = cond
                d = E.p_sub(x.p, y.p)
                r = eng.clear(d)
                if r is None:
                    r = d
                if not r:
                    stats.identities += 1
                    continue
                eng.activate(E.p_atoms(r))
                zs.append(eng.zbool(E.SymBool(('cmp', '==', E.p_key(r)), r)))
            elif isinstance(cond, E.SymBool):
                eng.activate(cond.atoms())
                zs.append(eng.zbool(cond))
            elif cond:
                continue
            else:
                zs.append(z3.BoolVal(False))
            lab.append((label, a, b))
        stats.asserts += st.ctx.checks
        if st.ctx.checks:
            self.covered += 1
        if zs:
            stats.assert_queries += 1
            neg = z3.Not(z3.And(zs)) if len(zs) > 1 else z3.Not(zs[0])
            bad, m = eng._check(neg)
            if bad:
                self._collect(eng, st, zs, lab, m)
                return
        if st.ctx.checks and len(self.samples) < self.n_samples and (stats.paths & (stats.paths - 1)) == 0:
            ms = self.model_for(eng, ms=1000)
            if ms:
                inp = ms[0]
                obs = self._obs(eng, st.ctx, inp)
                self.samples.append(dict(inputs=inp, obs=obs, checks=st.ctx.checks))

    def _obs(self, eng, ctx, inp):
        """Evaluate observed values under the input model (through div/floor/... atoms)."""
        import z3
        E = self.E
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*eng.solver.assertions())
        s.add(*eng.pending_defs())
        for n, i in eng.inputs.items():
            v = Fraction(inp[n])
            s.add(eng.atoms[i] == (z3.IntVal(v.numerator) if eng.atom_int[i] else z3.RealVal(v)))
        if s.check() != z3.sat:
            return None
        old = E._E
        E._E = eng
        try:
            m = E.Model(s.model())
            from .harness import _plain

            def ev(v):
                if isinstance(v, E.Sym):
                    r = m.poly(v.p)
                    if r is None:
                        raise ValueError
                    return float(r)
                if isinstance(v, (list, tuple)):
                    return [ev(x) for x in v]
                if isinstance(v, dict):
                    return {str(k): ev(x) for k, x in v.items()}
                if hasattr(v, 'start_open') and hasattr(v, 'start'):
                    if v.is_empty:
                        return 'empty'
                    return [ev(v.start), ev(v.end), bool(v.start_open), bool(v.end_open)]
                return _plain(v)
            try:
                return [ev(v) for v in ctx.obs]
            except ValueError:
                return None
        finally:
            E._E = old

    def _collect(self, eng, st, zs, lab, m):
        import z3
        E = self.E
        # which assertion fails; prefer a visible margin
        for (label, a, b), z in list(zip(lab, zs)):
            neg = z3.Not(z)
            try:
                bad, m1 = eng._check(neg)
            except E.Inconclusive:
                continue
            if not bad:
                continue
            outs = []
            if isinstance(a, E.Sym) or isinstance(b, E.Sym):
                try:
                    d = eng.zpoly(E.as_sym(a).p) - eng.zpoly(E.as_sym(b).p)
                    outs = self.model_for(eng, z3.And(neg, z3.Or(d > z3.RealVal('1/100'), d < z3.RealVal('-1/100'))))
                except (TypeError, ValueError):
                    outs = []
            outs += self.model_for(eng, neg)
            if not outs:
                inp = self._inputs(m1, eng)
                if inp:
                    outs = [inp]
            for inp in outs:
                self.cex.append(dict(label=label, detail='', inputs=inp))
            if len(self.cex) > 12:
                break
        if not self.cex:
            raise E.Inconclusive('assertion refuted but no rational model')


def _alarm(*a):
    from . import engine as E
    raise E.PathTimeout()


_seen_funcs = set()


def _start_monitor():
    from . import shims
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'sx')
    except ValueError:
        return
    prefix = os.path.join(shims.REPO, 'curvepy') + os.sep
    dis = mon.DISABLE

    def cb(code, off):
        if code.co_filename.startswith(prefix):
            _seen_funcs.add(code.co_filename[len(prefix):-3].replace(os.sep, '.') + '.' + code.co_qualname)
        return dis
    mon.register_callback(tool, mon.events.PY_START, cb)
    mon.set_events(tool, mon.events.PY_START)


def work(job):
    module, index, tier, deadline = job
    t0 = time.time()
    from . import engine as E
    mod = importlib.import_module('props.' + module)
    inst = mod.instances(tier)[index]
    gc.disable()
    signal.signal(signal.SIGALRM, _alarm)
    _seen_funcs.clear()
    sys.set_int_max_str_digits(0)
    sys.monitoring.restart_events()
    dl = deadline
    if inst.time_s:
        dl = min(dl, t0 + inst.time_s)
    eng = E.Engine(max_paths=inst.max_paths, max_decisions=inst.max_decisions, query_ms=inst.query_ms,
                   path_s=inst.path_s, deadline=dl)
    r = Runner(inst)
    why = None
    n = 0
    try:
        for st in eng.explore(r.run):
            n += 1
            if n % 200 == 0:
                gc.collect()
            if r.cex:
                break
    except E.EngineStop as e:
        why = '%s: %s' % (type(e).__name__, e)
    except RecursionError as e:
        why = 'RecursionError in engine'
    s = eng.stats
    return dict(index=index, name=inst.name, fn=inst.fn.__name__, args=inst.args, bounds=inst.bounds,
                paths=s.paths, aborted=s.aborted, decisions=s.decisions, pruned=s.pruned_sides,
                queries=s.queries, sat=s.sat, unsat=s.unsat, fallbacks=s.fallbacks,
                solver_s=round(s.solver_s, 3), asserts=s.asserts, assert_queries=s.assert_queries, identities=s.identities,
                covered=r.covered, cex=r.cex, why=why, samples=r.samples, funcs=sorted(_seen_funcs),
                wall=round(time.time() - t0, 2))


def _init():
    from . import shims
    shims.load()
    _start_monitor()


# ------------------------------------------------------------------ driver

def replay_batch(jobs, timeout=600):
    if not jobs:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    p = subprocess.run([PY_REAL, os.path.join(ROOT, 'sx', 'replay.py'), '--batch'], input=json.dumps(jobs),
                       capture_output=True, text=True, env=env, timeout=timeout, cwd=ROOT)
    if p.returncode != 0:
        raise RuntimeError('replay failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return a == b


def load_known(prop):
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == prop]


def is_known(f, res, label):
    return f.get('harness') == res['fn'] and f.get('label') == label and \
        all(res['args'].get(k) == v for k, v in f.get('args', {}).items())


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--time', type=float, default=0)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep-going', action='store_true', help='do not stop at the first confirmed violation')
    a = ap.parse_args(argv)
    t0 = time.time()
    os.environ.setdefault('TZ', 'UTC')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    prop = a.property
    module = 'p' + prop[1:]
    limit = a.time or (780 if a.tier == 'quick' else 6000)
    deadline = t0 + limit
    from . import shims
    shims.load()
    mod = importlib.import_module('props.' + module)
    insts = mod.instances(a.tier)
    order = [i for i in range(len(insts)) if not a.only or a.only in insts[i].name]
    order.sort(key=lambda i: -insts[i].cost)
    nproc = a.jobs or min(8, os.cpu_count() or 4, max(1, len(order)))
    results = []
    error = None
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, initializer=_init) as pool:
        it = pool.imap_unordered(work, [(module, i, a.tier, deadline) for i in order], chunksize=1)
        pending = len(order)
        while pending:
            try:
                r = it.next(timeout=max(1, deadline + 60 - time.time()))
            except mp.TimeoutError:
                error = 'a worker did not finish in time'
                break
            except StopIteration:
                break
            except Exception as e:
                traceback.print_exc()
                error = 'worker error: %r' % (e,)
                pending -= 1
                continue
            pending -= 1
            results.append(r)
            if a.v:
                print('%-60s paths %-6d (+%d) dec %-6d q %-6d solver %.1fs wall %.1fs cov %d %s%s' % (
                    r['name'], r['paths'], r['aborted'], r['decisions'], r['queries'], r['solver_s'], r['wall'],
                    r['covered'], r['why'] or '', ' CEX ' + str(r['cex'][:2]) if r['cex'] else ''), flush=True)
            if r['cex']:
                jobs = [dict(module=module, fn=r['fn'], args=r['args'], inputs=c['inputs'], property=prop)
                        for c in r['cex']]
                outs = replay_batch(jobs)
                r['replayed'] = outs
                known = load_known(prop)
                for j, o, c in zip(jobs, outs, r['cex']):
                    if o['status'] == 'violated':
                        if any(is_known(f, r, d[0]) for f in known for d in o['detail'][:1]):
                            continue
                        r['confirmed'] = (j, o, c)
                        break
                if r.get('confirmed') and a.keep_going:
                    print('CONFIRMED', r['name'], r['confirmed'][1]['detail'][:2], r['confirmed'][2]['inputs'])
                elif r.get('confirmed'):
                    pool.terminate()
                    break
    results.sort(key=lambda r: r['index'])

    status = 0
    lines = []
    late = []
    confirmed = next((r for r in results if r.get('confirmed')), None)
    if confirmed:
        j, o, c = confirmed['confirmed']
        d = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % prop)
        json.dump(dict(j, label=c['label'], solver_detail=c['detail'], result=o['detail']), open(path, 'w'), indent=1)
        lines.append('%s violated in harness %s: %s  inputs %s' % (
            prop, confirmed['name'], o['detail'][:2], json.dumps(c['inputs'])))
        lines.append('replay: %s %s %s' % (PY_REAL, os.path.join(ROOT, 'sx', 'replay.py'), path))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        status = 1
    else:
        for r in results:
            if r['cex'] and not r.get('confirmed'):
                outs = r.get('replayed', [])
                if any(o['status'] == 'violated' for o in outs):
                    for f in load_known(prop):
                        if f.get('harness') == r['fn']:
                            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
                    continue
                status = 2
                lines.append('INCONCLUSIVE %s: counterexample did not reproduce on the real code: %s -> %s' % (
                    r['name'], r['cex'][0], outs[:1]))
            elif r['why'] and r['why'].endswith('instance time limit') and not r['cex']:
                late.append(r['name'])
            elif r['why']:
                status = 2
                lines.append('INCONCLUSIVE %s: %s' % (r['name'], r['why']))
            elif not r['covered']:
                status = 2
                lines.append('VACUOUS %s: no path reached an assertion' % r['name'])
        if late:
            # held on everything explored; what was not is said here and in the evidence
            lines.append('INCOMPLETE %d of %d harnesses were not finished in the time given: %s' % (len(late), len(order), ', '.join(late[:20])))
            if len(late) * 2 > len(order):
                status = 2
        if error:
            status = 2
            lines.append('ERROR ' + error)
        if len(results) != len(order):
            status = status or 2
            lines.append('ERROR only %d of %d harnesses finished' % (len(results), len(order)))

    # translator validation: path models on the unpatched code
    validated = mismatched = 0
    mism = []
    if status == 0:
        jobs, exp = [], []
        for r in results:
            for s in r['samples']:
                jobs.append(dict(module=module, fn=r['fn'], args=r['args'], inputs=s['inputs'], property=prop))
                exp.append((r, s))
        try:
            outs = replay_batch(jobs)
        except Exception as e:
            outs = []
            status = 2
            lines.append('ERROR validation replay: %s' % e)
        for (r, s), o in zip(exp, outs):
            if o['status'] == 'violated':
                status = 2
                lines.append('MISMATCH %s: the solver proved this path but the real code fails on %s: %s' % (
                    r['name'], s['inputs'], o['detail'][:1]))
            elif o['status'] == 'ok' and s['obs'] is not None and close(s['obs'], o['obs']):
                validated += 1
            elif o['status'] == 'ok' and s['obs'] is None and o['checks'] == s['checks']:
                validated += 1
            elif o['status'] != 'ok':
                pass
            else:
                mismatched += 1
                mism.append(dict(harness=r['name'], inputs=s['inputs'], solver=s['obs'], real=o['obs']))
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted({f for r in results for f in r['funcs']})
    wall = time.time() - t0
    import z3
    samples = []
    for r in results[:40]:
        for s in r['samples'][:1]:
            samples.append('%s %s' % (r['name'], json.dumps(s['inputs'])))
    ev = dict(
        property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
        wall_s=round(wall, 2),
        coverage=dict(
            states=max(1, tot('paths')), transitions=max(1, tot('decisions')),
            traces_validated_against_impl=validated, samples=samples[:20] or ['none'],
            states_are='completed symbolic paths', transitions_are='branch decisions put to the solver',
            paths_cut_by_assumptions=tot('aborted'),
            branch_outcomes_refuted=tot('pruned'), solver='z3 %s' % z3.get_version_string(),
            solver_queries=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), tactic_fallbacks=tot('fallbacks'),
            solver_s=round(tot('solver_s'), 2), assertions=tot('asserts'), assertion_queries=tot('assert_queries'),
            assertions_closed_by_polynomial_identity=tot('identities'),
            validation_mismatches=mismatched, validation_mismatch_details=mism[:5],
            functions_encoded=funcs, harnesses_not_finished_in_time=late,
            harnesses=[dict(name=r['name'], bounds=r['bounds'], paths=r['paths'], asserting_paths=r['covered'],
                            queries=r['queries'], solver_s=r['solver_s'], wall_s=r['wall'],
                            status='counterexample' if r['cex'] else (r['why'] or 'all paths decided'))
                       for r in results],
        ),
        bounds=getattr(mod, 'BOUNDS', ''), assumptions=[x.strip() for x in getattr(mod, 'ASSUMES', '').split(';')],
        violations=1 if status == 1 else 0,
        result='held on what was finished in time' if status == 0 and late else {0: 'held', 1: 'violated', 2: 'inconclusive'}[status],
    )
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d decisions, %d assertions in %d queries (total %d queries, %.1fs solver), '
          '%d traces validated (%d differ), %.1fs' % (
              prop, a.tier, len(results), tot('paths'), tot('decisions'), tot('asserts'), tot('assert_queries'),
              tot('queries'), tot('solver_s'), validated, mismatched, wall))
    for m in mism[:3] if a.v else []:
        print('  differs:', m)
    for l in lines:
        print(l)
    return status


if __name__ == '__main__':
    sys.exit(main())
