"""What every check shares: running programs, validating the recordings,
reporting, and the evidence."""
import json, os, random, shutil, sys, time
import build, engine
from engine import Scratch, ModelError
from cprog import NoLibrary

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, 'known-findings.txt')


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.bic = build.build()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = self.events = 0
        self.runs = 0
        self.undef = {}
        self.kinds = {}             # of the events, and of the nodes of the programs
        self.constructs = {}
        self.undecided = []
        self.samples = []
        self.cfg = engine.CFG
        self.extra = {}
        self.assumptions = []
        self.rdir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.listed = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith('known: property=%s ' % prop):
                    _, _, key, what = l.split(' ', 3)
                    self.listed[key.split('=', 1)[1]] = what

    # ------------------------------------------------------------- reporting
    def violation(self, key, files, what):
        """files: {name: text}; what: a sentence."""
        if key in self.listed:
            if key not in self.known:
                self.known.append(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.listed[key]))
            return
        d = os.path.join(self.rdir, str(key))
        os.makedirs(d, exist_ok=True)
        for n, t in files.items():
            with open(os.path.join(d, n), 'w', encoding='utf-8', errors='replace') as f:
                f.write(t)
        with open(os.path.join(d, 'what.txt'), 'w') as f:
            f.write(what + '\n')
        self.violations.append((key, what))
        if len(self.violations) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
            print('  ' + what[:600])
            sys.stdout.flush()

    def count(self, t):
        for e in t['trace']:
            self.kinds[e[0]] = self.kinds.get(e[0], 0) + 1
        for n in t.get('nodes', ()):
            if 'k' in n:
                self.constructs[n['k']] = self.constructs.get(n['k'], 0) + 1

    def enough(self):
        return len(self.violations) >= 5

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'events_checked': self.events,
               'implementation_runs': self.runs,
               'kinds_of_events': self.kinds, 'constructs_in_programs': self.constructs,
               'not_decided': self.undef,
               'undecided_cases': self.undecided[:40],
               'samples': self.samples[:4]}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d recordings validated (%d events), %d states, %d not decided, %d violations, %.1f s' % (
            self.prop, self.tier, self.traces, self.events, self.states, sum(self.undef.values()),
            len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    # -------------------------------------------------------------- programs
    def execute(self, progs, args=(), env=None, timeout=10, argf=None, unbuffered=False):
        """Run the programs with bic; [(program, result)]."""
        hung = [0]
        res = []
        with Scratch() as sc:
            def one(p):
                if hung[0] >= 8:
                    return None
                try:
                    if hasattr(p, 'run'):       # a session
                        r = p.run(self.bic, sc, env=env, timeout=timeout, unbuffered=unbuffered)
                    else:
                        r = engine.run_script(self.bic, p, sc, str(p.id), args=list(args) + (argf(p) if argf else []),
                                              env=env, timeout=timeout, unbuffered=unbuffered)
                except NoLibrary as e:          # gcc doesn't compile it: the generator's fault
                    self.undef['library'] = self.undef.get('library', 0) + 1
                    self.undecided.append('%s: %s' % (p.id, str(e)[:300]))
                    return None
                if r.rc == 2000:
                    hung[0] += 1
                return p, r
            for i in range(0, len(progs), 256):
                res += [x for x in engine.parallel(one, progs[i:i + 256]) if x]
        self.runs += len(res)
        return res

    def check(self, progs, args=(), env=None, note='', argf=None):
        """Run the programs and validate the recordings against CMachine."""
        res = self.execute(progs, args, env, argf=argf)
        self.validate([(p, r, None) for p, r in res],
                      # (a crash loses what has been buffered: run it again without buffering)
                      lambda p: self.execute([p], args, env, timeout=60, argf=argf, unbuffered=True)[0][1], note)
        return res

    def validate(self, runs, again, note='', record=engine.record, **model):
        """runs: [(program, result, table or None)]"""
        if not runs:
            return
        rec = lambda p, r: p.record(r) if hasattr(p, 'record') else record(r)
        tables = [t or p.table(rec(p, r)) for p, r, t in runs]
        model.setdefault('cfg', self.cfg)
        v, st = engine.validate(tables, short=self.quick, **model)
        self.states += st[1]
        self.transitions += st[0]
        bad = []
        for (p, r, _), t in zip(runs, tables):
            x = v[p.id]
            if x[0] == 'accept':
                self.traces += 1
                self.events += len(t['trace'])
                self.count(t)
            elif x[0] == 'undef':
                self.undecided.append('%s: event %s: %s' % (p.id, x[1], x[3]))
                why = str(x[3])
                self.undef[why] = self.undef.get(why, 0) + 1
                self.events += x[1] - 1
            else:
                bad.append((p, r))
            if len(self.samples) < 3 and x[0] == 'accept' and len(p.text()) < 3000:
                self.samples.append({'program': p.text(), 'recorded': t['trace'][:20], 'verdict': list(x[:3])})
        for p, r in bad[:8]:
            if self.enough():
                break
            r2 = again(p)
            t2 = p.table(rec(p, r2))
            x = engine.validate([t2], **model)[0][p.id]
            if x[0] != 'reject':
                continue            # the machine was busy
            got = t2['trace'][x[1] - 1] if x[1] <= len(t2['trace']) else 'nothing'
            self.violation(p.id, {'program.c': p.text(), 'stdout.txt': r2.out, 'stderr.txt': r2.err,
                                  'table.json': json.dumps(t2), 'verdict.json': json.dumps(x)},
                           '%s%s: event %d: bic: %s; the specification: %s (exit status %d) %s' % (
                               note, p.id, x[1], got, x[3], r2.rc, r2.err.strip()[:200]))


def main(argv):
    import importlib
    prop, tier = argv[1], argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, os.path.join(VERIF, 'lib', 'props'))
    mod = importlib.import_module(prop.lower())
    try:
        c = Check(prop, tier, seed)
        mod.run(c)
        rc = c.finish()
    except build.BuildError as e:
        print('cannot build bic: %s' % e)
        return 2
    except ModelError as e:
        print('error: %s' % e)
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv))
