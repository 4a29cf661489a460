"""Worker processes: `prove` (instrumented code) and `search` (pristine code)."""
import sys, os, json, time, random, importlib, resource, signal, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


class Hang(BaseException):
    pass


def main():
    mode, modname, cname, tier, seed, extra = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from vc import instrument
    sys.stdout.flush()
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)            # code under test may print
    os.dup2(null, 2)
    out = os.fdopen(real, 'w')
    try:
        res = prove(modname, cname, tier, instrument) if mode == 'prove' else search(modname, cname, tier, int(seed), json.loads(extra), instrument)
    except BaseException as e:
        res = {'name': cname, 'status': 'error', 'error': 'worker: ' + ''.join(traceback.format_exception(e)[-4:]),
               'obs': {}, 'n_obligations': 0, 'n_discharged': 0, 'fails': [], 'paths': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0}
    out.write(json.dumps(res, default=repr))
    out.flush()
    os._exit(0)


def find(modname, cname):
    m = importlib.import_module('contracts.' + modname)
    for c in list(getattr(m, 'contracts', [])) + list(getattr(m, 'probes', [])):
        if c.name == cname:
            return c
    raise KeyError(cname)


def preload():
    import logging
    logging.disable(logging.CRITICAL)
    for n in ('pdfmajor', 'pdfmajor.interpreter', 'pdfmajor.converters', 'pdfmajor.parser.PDFDocument'):
        importlib.import_module(n)


def prove(modname, cname, tier, instrument):
    instrument.install()
    try:
        preload()
    except Exception:
        pass
    c = find(modname, cname)
    k = 4 if tier == 'thorough' else 1
    return c.prove(timeout_ms=c.timeout_ms * k, budget_s=c.budget_s * k)


def search(modname, cname, tier, seed, extra, instrument):
    from vc.contract import dec, enc
    instrument.install_pristine()
    try:
        preload()
    except Exception:
        pass
    c = find(modname, cname)
    t0 = time.time()
    budget = extra.get('budget', 20)
    n_max = extra.get('n', c.search_n)
    res = {'name': cname, 'tried': 0, 'distinct': 0, 'found': None, 'harness_errors': 0, 'samples': [], 'last_error': ''}

    def on_alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    seen = set()

    def inputs():
        for x in extra.get('inputs', []):
            try:
                yield dec(x)
            except ValueError:
                pass
        if extra.get('corpus', True):
            for x in c.corpus():
                yield x
        rng = random.Random(seed)
        k = 0
        while k < n_max:
            k += 1
            x = c.gen(rng)
            if x is None:
                return
            yield x
    for x in inputs():
        if time.time() - t0 > budget:
            break
        if not isinstance(x, dict):
            continue
        res['tried'] += 1
        try:
            h = hash(repr(x))
            if h not in seen:
                seen.add(h)
                res['distinct'] += 1
                if len(res['samples']) < 2 and res['tried'] % 7 == 1:
                    res['samples'].append(repr(x)[:300])
        except Exception:
            pass
        signal.setitimer(signal.ITIMER_REAL, c.hang_s if hasattr(c, 'hang_s') else 10)
        try:
            msg = c.check_concrete(x)
        except Hang:
            msg = 'does not terminate within 10 s'
        except MemoryError:
            msg = None
            res['harness_errors'] += 1
        except Exception as e:
            res['harness_errors'] += 1
            res['last_error'] = ''.join(traceback.format_exception(e)[-3:])[-800:]
            msg = None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if msg:
            try:
                x2, msg = shrink(c, x, msg, t0 + budget)
            except BaseException:
                x2 = x
            res['found'] = {'input': enc(x2), 'input_repr': repr(x2)[:4000], 'msg': msg[:2000]}
            break
    res['accepted'] = getattr(c, 'accepted', 0)
    res['pre_errors'] = getattr(c, 'pre_errors', 0)
    res['pre_error'] = getattr(c, 'pre_error', '')
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def shrink(c, x, msg, deadline):
    """greedy: shorten bytes/str/list arguments while the violation persists"""
    def bad(y):
        signal.setitimer(signal.ITIMER_REAL, 3)
        try:
            return c.check_concrete(y)
        except BaseException:
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if not getattr(c, 'shrinkable', True):
        return x, msg
    changed = True
    n = 0
    while changed and n < 400 and time.time() < deadline:
        changed = False
        for k, v in list(x.items()):
            if isinstance(v, (bytes, str, list)) and len(v) > 0:
                step = max(1, len(v) // 2)
                while step >= 1:
                    i = 0
                    while i < len(v) and n < 400:
                        w = v[:i] + v[i + step:]
                        y = dict(x)
                        y[k] = w
                        n += 1
                        m = bad(y)
                        if m:
                            x, v, msg = y, w, m
                            changed = True
                        else:
                            i += step
                    step //= 2
    return x, msg


if __name__ == '__main__':
    main()
