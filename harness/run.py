#!/usr/bin/env python3
"""Decides one property:  run.py PROPERTY        (VERIF_TIER, VERIF_SEED)
                          run.py --replay FILE   validates a recorded violation again

A check has two halves, both decided by TLC:
  models   small-constant instances of the specification, explored exhaustively,
           with the invariants that say the specification is right;
  traces   histories of the real code, recorded by a driver that runs under the
           interpreter the library runs on and makes no judgement, each step of
           which has to be a step of the specification (Trace_*.tla prints BAD
           with the clauses that a step breaks).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)          # where evidence and replays go
PYPY = os.environ.get('VERIF_PY', '/opt/venv-pypy/bin/python')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8

sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS


class Machinery(Exception):
    pass


def tlc_cmd(tla, cfg, meta, workers, c2, heap='3g', extra=()):
    jit = ['-XX:+UseSerialGC'] + ([] if c2 else ['-XX:TieredStopAtLevel=1'])
    if workers > 1:
        jit = ['-XX:+UseParallelGC']
    return (['java'] + jit + ['-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
            '-config', cfg, '-metadir', meta, '-nowarning', '-noGenerateSpecTE'] + list(extra) + [tla])


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.check = CHECKS[prop]
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.t0 = time.time()
        self.n = 0
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.bad = []
        self.stat = {}
        self.procs = set()
        self.lock = threading.Lock()

    # ------------------------------------------------------------- processes
    def meta(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, 'm%d' % self.n)
        os.mkdir(d)
        return d

    def popen(self, cmd, log, env=None, cwd=SPEC):
        e = dict(os.environ)
        e.update(env or {})
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['PYTHONHASHSEED'] = str(self.seed)
        f = open(log, 'w')
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd, stdin=subprocess.DEVNULL)
        f.close()
        self.procs.add(p)
        return p

    # ---------------------------------------------------------------- models
    def run_models(self, workers):
        if os.environ.get('VERIF_NOMODELS'):              # they do not depend on the code
            return
        for m in self.check.get('models', []):
            if m.get('tier', self.tier) != self.tier:
                continue
            meta = self.meta()
            log = meta + '.log'
            p = self.popen(tlc_cmd(m['tla'], m['cfg'], meta, workers, self.tier == 'thorough', heap='6g',
                                   extra=m.get('extra', ())), log)
            p.wait()
            out = open(log, errors='replace').read()
            found = STATES.findall(out)
            if p.returncode != 0 or not found:
                raise Machinery('model %s: TLC exit %s\n%s' % (m['cfg'], p.returncode, out[-3000:]))
            g, d = int(found[-1][0]), int(found[-1][1])
            if d < m.get('min', 2):
                raise Machinery('model %s explored only %d states' % (m['cfg'], d))
            with self.lock:
                self.states += d
                self.transitions += g
                self.models.append({'model': m['cfg'], 'what': m['what'], 'distinct_states': d, 'states_generated': g})

    # ---------------------------------------------------------------- traces
    def export_table(self):
        out = os.path.join(self.work, 'enc.json')
        log = os.path.join(self.work, 'export.log')
        p = self.popen(tlc_cmd('Export.tla', 'Export.cfg', self.meta(), 1, False), log, {'OUT': out})
        p.wait()
        if not os.path.exists(out):
            raise Machinery('export of the encoding table: ' + open(log).read()[-2000:])

    def validate(self, path, spec, log):
        return self.popen(tlc_cmd(spec + '.tla', spec + '.cfg', self.meta(), 1, self.tier == 'thorough'), log,
                          {'TRACE': path})

    def verdict(self, path, spec, log, rc):
        """reads what TLC said about one trace file"""
        out = open(log, errors='replace').read()
        chunks = [json.loads(l) for l in open(path)]
        want = sum(len(c) + 1 for c in chunks)
        bad = parse_bad(out)
        found = STATES.findall(out)
        if rc != 0:
            at = re.findall(r'/\\ vChunk = (\d+)', out), re.findall(r'/\\ vPos = (\d+)', out)
            if rc in (-9, 137) or 'OutOfMemory' in out or not at[0] or 'evaluating' not in out:
                raise Machinery('%s on %s: TLC exit %s\n%s' % (spec, os.path.basename(path), rc, out[-3000:]))
            bad.append((int(at[0][-1]), int(at[1][-1]) + 1, ['unexplained']))
        elif not found or int(found[-1][1]) != want:
            raise Machinery('%s on %s: %s states, expected %d\n%s' % (spec, os.path.basename(path), found, want, out[-2000:]))
        with self.lock:
            self.traces += len(chunks)
            self.events += want - len(chunks)
            if found:
                self.states += int(found[-1][1])
                self.transitions += int(found[-1][0]) - len(chunks)
            if len(self.samples) < 3 and chunks:
                c = chunks[len(chunks) // 2]
                self.samples.append({'trace': os.path.basename(path), 'chunk': len(chunks) // 2 + 1,
                                     'events': len(c), 'first_events': [shorten(e) for e in c[:3]]})
            for c, p, cl in bad:
                self.bad.append((spec, path, c, p, cl, chunks[c - 1]))

    def run_traces(self):
        for t in self.check.get('traces', []):
            self.run_trace(t)

    def run_trace(self, t):
        drv = os.path.join(HERE, 'drv', t['driver'] + '.py')
        tag = t['driver']
        out = [os.path.join(self.work, '%s-%d' % (tag, i)) for i in range(NPROC)]
        env = {'PYTHONPATH': os.path.join(HERE, 'drv'), 'VERIF_REPO': REPO}
        drivers = []
        for i in range(NPROC):
            drivers.append((i, self.popen([PYPY, '-B', drv, self.prop, self.tier, str(self.seed), str(i), str(NPROC),
                                           out[i]], out[i] + '.log', env, cwd=self.work)))
        started = set()
        running = []
        while True:
            live = [d for d in drivers if d[1].poll() is None]
            files = sorted(glob.glob(os.path.join(self.work, tag + '-*.ndjson')))
            for f in files:
                if f not in started and len(running) + len(live) < NPROC + (2 if live else 0):
                    started.add(f)
                    log = f + '.tlc'
                    running.append((f, log, self.validate(f, t['spec'], log)))
            still = []
            for f, log, p in running:
                if p.poll() is None:
                    still.append((f, log, p))
                else:
                    self.verdict(f, t['spec'], log, p.returncode)
                    os.remove(f)
                    if self.tier == 'thorough' and len(self.bad) > 2000:
                        raise StopIteration
            running = still
            if not live and not running and not (set(files) - started):
                break
            time.sleep(0.05)
        for i, d in drivers:
            st = out[i] + '.stat'
            if d.returncode != 0 or not os.path.exists(st):
                text = open(out[i] + '.log', errors='replace').read()
                if os.path.join(REPO, 'cmdis') in text or "'cmdis" in text:
                    # the library did not survive being used the way the property describes
                    self.bad.append((t['spec'], st, 0, 0, ['driver'], [text[-3000:]]))
                else:
                    raise Machinery('driver %s shard %d: exit %s\n%s' % (t['driver'], i, d.returncode, text[-3000:]))
            else:
                for k, v in json.load(open(st)).items():
                    merge(self.stat, k, v)

    # ------------------------------------------------------------------- end
    def cleanup(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.work, ignore_errors=True)

    def report(self):
        keep = self.check.get('clauses')
        known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
        viol, quiet, seen = [], {}, {}
        for spec, path, c, p, clauses, chunk in self.bad:
            cl = [x for x in clauses if keep is None or x in ('unexplained', 'driver')
                  or any(x == k or (k.endswith('*') and x.startswith(k[:-1])) for k in keep)]
            if not cl:
                continue
            ev = chunk[p - 1] if 0 < p <= len(chunk) else chunk[-1]
            sig = signature(ev, cl)
            k = [f for f in known if f['property'] == self.prop and f['signature'] == sig and f['status'] == 'open']
            if k:
                quiet[sig] = k[0]['what']
                continue
            seen[sig] = seen.get(sig, 0) + 1
            if seen[sig] == 1:
                viol.append((spec, chunk[:p] if p else chunk, p, cl, sig))
        for sig, what in sorted(quiet.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if viol:
            d = os.path.join(OUT, 'replays')
            os.makedirs(d, exist_ok=True)
            for i, (spec, events, p, cl, sig) in enumerate(viol[:8]):
                f = os.path.join(d, '%s-%d.json' % (self.prop, i + 1))
                with open(f, 'w') as o:
                    json.dump({'property': self.prop, 'spec': spec, 'clauses': cl, 'signature': sig,
                               'position': p, 'occurrences': seen[sig], 'seed': self.seed, 'tier': self.tier,
                               'events': events}, o, indent=1)
                print('  %s: %s  (x%d)' % (','.join(cl)[:200], sig[:300], seen[sig]))
                print('VIOLATION property=%s replay=%s' % (self.prop, f))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'events_validated': self.events, 'models': self.models,
                           'driver': self.stat, 'samples': self.samples},
              'assumptions': ASSUMPTIONS + self.check.get('assumptions', []),
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
        print('%s %s seed=%d: %d model states, %d traces, %d events, %d violations, %.1f s' % (
            self.prop, self.tier, self.seed, sum(m['distinct_states'] for m in self.models), self.traces,
            self.events, len(viol), time.time() - self.t0))
        return 1 if viol else 0

    def go(self):
        try:
            if self.check.get('table', False):
                self.export_table()
            err = []

            def models():
                try:
                    self.run_models(2 if self.tier == 'quick' else 4)
                except BaseException as e:
                    err.append(e)
            th = threading.Thread(target=models)
            th.start()
            try:
                self.run_traces()
            except StopIteration:
                pass
            th.join()
            if err:
                raise err[0]
            if not self.bad and self.events < self.check.get('min_events', 1000):
                raise Machinery('only %d events validated' % self.events)
            return self.report()
        except Machinery as e:
            print('ERROR: %s' % e)
            return 2
        except Exception:
            traceback.print_exc(file=sys.stdout)
            return 2
        finally:
            self.cleanup()


def merge(d, k, v):
    if isinstance(v, dict):
        x = d.setdefault(k, {})
        for a, b in v.items():
            merge(x, a, b)
    elif isinstance(v, (int, float)):
        d[k] = d.get(k, 0) + v
    else:
        d[k] = v


def shorten(x, n=24):
    s = json.dumps(x)
    return x if len(s) < 600 else s[:600] + '...'


def parse_bad(out):
    """<<"BAD", chunk, pos, {clauses}>>, possibly wrapped over lines"""
    res = []
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>(?=\s|$)', out, re.S):
        cl = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3))
        res.append((int(m.group(1)), int(m.group(2)), cl))
    return res


def signature(ev, clauses):
    """what failed: kind of event and its inputs, without what was observed"""
    if not isinstance(ev, list):
        return str(ev)[:200]
    k = ev[0]
    if k in ('X', 'D', 'T', 'A') and len(ev) > 2 and isinstance(ev[1], int) and isinstance(ev[2], int):
        return '%s %04x %04x %s' % (k, ev[1], ev[2], ','.join(sorted(c.split(':')[0] for c in clauses)))
    return (json.dumps(ev[:4], separators=(',', ':')) + ' ' + ','.join(sorted(c.split(':')[0] for c in clauses)))[:240]


def replay(path):
    r = json.load(open(path))
    run = Run(r['property'], 'quick', r.get('seed', 1))
    try:
        t = os.path.join(run.work, 'replay.ndjson')
        with open(t, 'w') as f:
            f.write(json.dumps(r['events']) + '\n')
        log = t + '.tlc'
        run.validate(t, r['spec'], log).wait()
        out = open(log).read()
        print(json.dumps(r['events'][-1]))
        for b in parse_bad(out):
            print('BAD at event %d: %s' % (b[1], b[2]))
        return 1 if parse_bad(out) else 0
    finally:
        run.cleanup()


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    return Run(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))).go()


if __name__ == '__main__':
    sys.exit(main())
