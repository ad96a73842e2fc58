"""C04: handles are isolated from each other and may be used from different threads."""
import os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, work
from drv import U, C, OPT

RULE = ('2 to 8 threads each run a seeded stream of commands on handles of their own (same or different dictionaries; option changes, all '
        'queries, listing of dictionaries, repeated initialisation and termination), with random pauses; the answers must equal those of the '
        'same stream run alone in a process of its own, and ThreadSanitizer must stay silent on the instrumented build. A second workload '
        'interleaves the streams of several handles in one thread. A case is one command executed while others were in flight; '
        'distinct by (stream, position)')


def stream(r, n, h0=0):
    which = r.choice(('full', 'full', 'full', 'full', 'svfst', r.choice(work.MORE)))
    cmds = [work.init(h0, which)]
    for _ in range(n):
        k = r.random()
        if k < 0.1:
            cmds.append(work.option(r, h0))
        elif k < 0.13:
            cmds.append(work.misc(r, h0))
        elif k < 0.16:
            cmds += ['rel\t%d' % h0, 'term\t%d' % h0, work.init(h0, which)]
        elif k < 0.17:
            cmds += ['init\t%d\t%s\t%s' % (h0 + 1, OPT('xx'), OPT(build.dict_full()))]
        else:
            cmds.append(work.query(r, h0))
    return cmds + ['rel\t%d' % h0, 'term\t%d' % h0]


def threads(o, i, variant, n):
    r = o.rng
    k = r.choice((2, 3, 4, 8)) if variant == 'plain' else r.choice((2, 4))
    if i % 3 == 0:   # all threads do the very same work
        s = stream(r, n)
        ss = [s] * k
    else:
        ss = [stream(r, n) for _ in range(k)]
    tmp = tempfile.mkdtemp(prefix='c04')
    try:
        files = []
        for j, s in enumerate(ss):
            files.append('%s/%d' % (tmp, j))
            with open(files[-1], 'w') as f:
                f.write('\n'.join(s) + '\n')
        env = dict(os.environ, LC_ALL='C.UTF-8', HOME='/nonexistent',
                   TSAN_OPTIONS='halt_on_error=0:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:log_path=' + tmp + '/tsan')
        try:
            p = subprocess.run([build.harness(variant, 'drv'), '--mt', str(r.randrange(0, 1000) * r.randrange(2))] + files, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=env, timeout=300)
        except subprocess.TimeoutExpired:
            o.violation('hang', 'threads with separate handles did not finish', {'streams': ss})
            return
        rep = ''
        for f in sorted(os.listdir(tmp)):
            if f.startswith('tsan'):
                rep += open(tmp + '/' + f, errors='replace').read()
        w = {'variant': variant, 'streams': [s[:200] for s in ss], 'report': rep[:6000]}
        races = re.findall(r'WARNING: ThreadSanitizer: (.+?) \(pid=\d+\)\n(.*?)\n==================', rep, re.S)
        for kind, text in races:
            fr = re.findall(r'#\d+ (.+?) (?:/\S+/)?([\w.]+\.(?:cpp|hpp|h)):\d+', text)
            fr = [re.sub(r'\(.*', '', a).split('::')[-1] + '@' + b for a, b in fr if b != 'drv.cpp' and '/usr/' not in b]
            o.violation('race:%s|%s' % (kind.replace(' ', '-'), '<'.join(fr[:1])), 'ThreadSanitizer: %s\n%s' % (kind, text[:1500]), w)
        if p.returncode not in (0, 66):
            o.violation('crash', 'process with %d threads on separate handles died: rc %s %s' % (k, p.returncode, p.stderr.decode('utf-8', 'replace')[-800:]), w)
            return
        m = re.search(rb'overlapped (\d+)', p.stdout)
        ov = int(m.group(1)) if m else 0
        o.stat('%s commands in flight together' % variant, ov)
        o.stat('%s runs' % variant)
        outs = [open(f + '.out').read().split('\n')[:-1] for f in files]
        # alone, in a process of its own
        seen = {}
        for j, s in enumerate(ss):
            key = '\n'.join(s)
            if key not in seen:
                seen[key] = o.run(s, 'plain')
            alone = seen[key]
            if alone is None:
                return
            for q, (c, a, b) in enumerate(zip(s, outs[j], alone)):
                o.case((check.h64(key), q, j, variant))
                if a != b and not c.startswith('#'):
                    o.violation('answers-differ:' + c.split('\t')[0], '%s: %s with %d threads, %s alone' % (c[:300], a[:300], k, b[:300]),
                                {'stream': s[:q + 1], 'others': [x[:100] for x in ss], 'threaded': a, 'alone': b})
                    break
        o.sample({'threads': k, 'commands each': n, 'overlapped': ov, 'last answers': outs[0][-4:-2]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def interleave(o, i, n):
    """several handles in one thread: each must answer as if alone"""
    r = o.rng
    ss = [stream(r, n, h0=10 * k) for k in range(r.choice((2, 3, 5)))]
    pos = [0] * len(ss)
    mixed, where = [], []
    live = [k for k in range(len(ss))]
    while live:
        k = r.choice(live)
        for _ in range(r.choice((1, 1, 3, 10))):
            if pos[k] < len(ss[k]):
                where.append((k, pos[k]))
                mixed.append(ss[k][pos[k]])
                pos[k] += 1
        if pos[k] >= len(ss[k]):
            live.remove(k)
    # held results are one list per process: leave them out here
    keep = [q for q, c in enumerate(mixed) if c.split('\t')[0] not in ('hsg', 'hsc', 'hhy', 'han', 'hgr', 'rel')]
    mixed = [mixed[q] for q in keep]
    where = [where[q] for q in keep]
    res = o.run(mixed, 'plain')
    if res is None:
        return
    for k, s in enumerate(ss):
        s = [c for c in s if c.split('\t')[0] not in ('hsg', 'hsc', 'hhy', 'han', 'hgr', 'rel')]
        alone = o.run(s, 'plain')
        if alone is None:
            return
        got = [a for a, wq in zip(res, where) if wq[0] == k]
        for q, (c, a, b) in enumerate(zip(s, got, alone)):
            o.case(('il', check.h64('\n'.join(s)), q))
            o.stat('interleaved commands')
            if a != b:
                o.violation('interleaved-differ:' + c.split('\t')[0], '%s: %s beside other handles, %s alone' % (c[:300], a[:300], b[:300]),
                            {'mixed': mixed[:4000], 'stream': s[:q + 1], 'beside': a, 'alone': b})
                break


def body(c):
    for v in ('plain', 'tsan'):
        build.harness(v, 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(threads, c.n(64, 1500), 'plain', 150, procs=4)
    c.shards(threads, c.n(48, 600), 'tsan', 120, procs=4)
    c.shards(interleave, c.n(48, 2000), 100)
    if not c.obs.stats['tsan commands in flight together'] or not c.obs.stats['plain commands in flight together']:
        if not c.obs.viol:
            raise Exception('nothing ran concurrently')
    c.need = 1000


check.main('C04', RULE, body, assumptions=['each handle is used by one thread at a time, as documented; the deprecated handle-number interface is documented as not thread safe and left out'])
