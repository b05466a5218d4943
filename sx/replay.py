"""
Concrete replay on the unpatched code (run with the repository's interpreter).

  replay.py FILE            replay one counterexample; exit 1 if the property is violated
  replay.py --batch         JSON list of jobs on stdin -> JSON results on stdout
"""
import gc
import importlib
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('CURVEPY_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_job(job, limit=20):
    from sx.harness import ConcCtx, Discard
    mod = importlib.import_module('props.' + job['module'])
    fn = getattr(mod, job['fn'])
    c = ConcCtx(job['inputs'])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(c, **job['args'])
        status = 'violated' if c.fails else 'ok'
        detail = c.fails[:5]
    except Discard:
        # assertions passed or failed before a violated assumption still do not count
        status, detail = 'discard', []
    except Timeout:
        status, detail = 'violated', [['termination', 'no result within %d s' % limit]]
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name)
        status, detail = 'violated', [['exception ' + type(e).__name__, '%s (%s)' % (str(e)[:300], where)]]
        if c.fails:
            detail = c.fails[:3] + detail
    finally:
        signal.alarm(0)
    return {'status': status, 'detail': detail, 'obs': c.obs, 'checks': c.checks}


def main():
    gc.disable()
    os.environ.setdefault('TZ', 'UTC')
    if sys.argv[1] == '--batch':
        jobs = json.load(sys.stdin)
        real_out = os.dup(1)
        os.dup2(2, 1)
        out = []
        for j in jobs:
            out.append(run_job(j))
            gc.collect()
        os.write(real_out, json.dumps(out).encode())
        return 0
    job = json.load(open(sys.argv[1]))
    r = run_job(job)
    print('property %s, harness %s, inputs %s' % (job.get('property'), job['fn'], json.dumps(job['inputs'])))
    print('result: %s %s' % (r['status'], r['detail']))
    return 1 if r['status'] == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
