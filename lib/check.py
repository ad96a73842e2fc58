"""Common frame of the checks: sharded workloads, what the monitors observed, violations, known findings, evidence."""
import collections, gc, hashlib, json, multiprocessing, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, drv

VERIF = build.VERIF
FINDINGS = VERIF + '/known_findings.txt'
NPROC = min(8, os.cpu_count() or 8)


def h64(x):
    if not isinstance(x, (bytes, str)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Obs:
    """What one shard observed."""
    def __init__(self, seed=0):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.stats = collections.Counter()
        self.peaks = {}
        self.viol = []
        self.errors = []
        self.rng = random.Random(seed)

    def case(self, key=None, n=1):
        """n executions evaluated by the oracle; key identifies a non-trivial case"""
        self.evals += n
        if key is not None:
            self.distinct.add(h64(key))

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def stat(self, name, n=1):
        self.stats[name] += n

    def peak(self, name, v):
        self.peaks[name] = max(v, self.peaks.get(name, v))

    def violation(self, key, msg, replay=None):
        """key: stable identification of what fails; replay: JSON-able witness"""
        if len(self.viol) < 200:
            self.viol.append((key, msg, replay))
        self.stats['violating observations'] += 1

    def run(self, cmds, variant='plain', prop_crash=True, **kw):
        """driver run in which a crash or hang is itself a violation; None in that case"""
        try:
            return drv.run(cmds, variant, **kw)
        except drv.Crash as x:
            self.violation('crash:' + drv.san_key(x.report), 'the library died (rc %s) in: %s\n%s' % (x.rc, x.cmd[:400], tail(x.report)),
                           {'commands': context(cmds, x.index), 'variant': variant, 'report': x.report[-6000:]})
        except drv.Hang as x:
            self.violation('hang:' + x.cmd.split('\t')[0], 'no answer within the watchdog time (twice) in: ' + x.cmd[:400],
                           {'commands': context(cmds, x.index), 'variant': variant})
        return None

    def merge(self, o):
        self.evals += o.evals
        self.distinct |= o.distinct
        for s in o.samples:
            self.sample(s)
        self.stats.update(o.stats)
        for k, v in o.peaks.items():
            self.peak(k, v)
        self.viol += o.viol
        self.errors += o.errors


def tail(report):
    m = re.search(r'(ERROR: |runtime error|Assertion|terminate called|WARNING: ThreadSan).*', report)
    return report[m.start():m.start() + 700] if m else report[-700:]


def context(cmds, i):
    """the setup commands and the last few before the failing one"""
    setup = [c for c in cmds[:i] if c.split('\t')[0] in ('init', 'bo', 'io', 'term', 'oinit', 'obo', 'oio', 'oterm')][-40:]
    return setup + ['# ...'] + cmds[max(0, i - 5):i + 1]


def _shard(a):
    fn, seed, idx, args = a
    o = Obs('%s/%s' % (seed, idx))
    try:
        fn(o, idx, *args)
    except Exception:
        o.errors.append(traceback.format_exc())
    return o


class Check:
    def __init__(self, pid, rule, level='exploration', assumptions=()):
        self.pid, self.rule, self.level, self.assumptions = pid, rule, level, list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.obs = Obs(self.seed)
        self.extra = {}
        self.t0 = time.time()
        self.need = 0

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 10)

    def shards(self, fn, count, *args, procs=None):
        """fn(obs, index, *args) in parallel processes; each index has its own random stream"""
        jobs = [(fn, '%s/%s/%s' % (self.pid, self.seed, fn.__name__), i, args) for i in range(count)]
        if 'gen' in sys.modules:
            sys.modules['gen'].lexicon().tagged()
        gc.freeze()
        with multiprocessing.get_context('fork').Pool(procs or NPROC, maxtasksperchild=8) as p:
            for o in p.imap_unordered(_shard, jobs):
                self.obs.merge(o)

    def known(self):
        out = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS, encoding='utf-8'):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        o = self.obs
        rdir = VERIF + '/evidence/replay'
        os.makedirs(rdir, exist_ok=True)
        known = dict(self.known())
        groups = collections.OrderedDict()
        for key, msg, replay in o.viol:
            groups.setdefault(re.sub(r'\s+', '_', key)[:200], []).append((msg, replay))
        bad = 0
        for key, lst in groups.items():
            if key in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[key]))
                continue
            bad += 1
            if bad > 20:
                continue
            path = '%s/%s-%016x.json' % (rdir, self.pid, h64(key))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': self.pid, 'key': key, 'seed': self.seed, 'tier': self.tier, 'message': lst[0][0],
                           'occurrences': len(lst), 'witness': lst[0][1]}, f, ensure_ascii=True, indent=1, default=str)
            print('%s: %s (%d times)' % (self.pid, lst[0][0][:1500], len(lst)))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': {'evaluations': o.evals, 'distinct_nontrivial': len(o.distinct), 'rule': self.rule,
                           'samples': o.samples[:6] or ['(none)'],
                           'observed': dict(sorted(o.stats.items())), **({'peaks': dict(sorted(o.peaks.items()))} if o.peaks else {}), **self.extra},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': bad}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = '%s/evidence/%s.json.tmp%d' % (VERIF, self.pid, os.getpid())
        with open(tmp, 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1, default=str)
        os.replace(tmp, '%s/evidence/%s.json' % (VERIF, self.pid))
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.0f s' %
              (self.pid, self.tier, self.seed, o.evals, len(o.distinct), bad, time.time() - self.t0))
        for k, v in sorted(o.stats.items()):
            print('   %-50s %d' % (k, v))
        for k, v in sorted(o.peaks.items()):
            print('   %-50s %s' % (k, v))
        sys.stdout.flush()
        if bad:
            os._exit(1)
        if o.errors:
            sys.stderr.write('errors in the check itself:\n' + o.errors[0] + '\n(%d)\n' % len(o.errors))
            os._exit(3)
        if len(o.distinct) < max(2, self.need):
            sys.stderr.write('inconclusive: only %d non-trivial cases observed (need %d)\n' % (len(o.distinct), self.need))
            os._exit(4)
        os._exit(0)


def main(pid, rule, body, **kw):
    c = Check(pid, rule, **kw)
    try:
        body(c)
        c.finish()
    except build.BuildError as x:
        sys.stderr.write('build of the tree under test failed: %s\n' % x)
        os._exit(3)
    except Exception:
        traceback.print_exc()
        os._exit(3)
