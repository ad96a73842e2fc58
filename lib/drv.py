"""Runs command streams through the C API driver and decodes its answers."""
import os, re, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import build

ASAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:'
                    'strict_string_checks=1:detect_odr_violation=0:symbolize=1:max_allocation_size_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
}


def U(s):
    """wide argument"""
    return s.encode('utf-32-be', 'surrogatepass').hex()


def cps(seq):
    """wide argument from raw 32-bit values"""
    return ''.join('%08x' % (c & 0xffffffff) for c in seq)


def C(s):
    """UTF-8 argument (str or bytes)"""
    return (s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass')).hex()


def OPT(s):
    return '-' if s is None else C(s)


def unU(h):
    if h == '_':
        return ''
    out = []
    for i in range(0, len(h), 8):
        v = int(h[i:i + 8], 16)
        out.append(chr(v) if v < 0x110000 else '\\x{%x}' % v)
    return ''.join(out)


def unC(h):
    if h == '_':
        return ''
    return bytes.fromhex(h).decode('utf-8', 'backslashreplace')


def dec_list(r, wide):
    """suggestion list or None"""
    if r == 'N':
        return None
    return [(unU if wide else unC)(x) for x in r.split(' ')[1:]]


def dec_pattern(r):
    return None if r == 'N' else bytes.fromhex(r[1:]).decode('latin-1')


def dec_str(r):
    return None if r == 'N' else unC(r[1:])


def dec_pairs(r):
    """tokens / sentences: list of (type, len)"""
    return [tuple(map(int, x.split(':'))) for x in r.split(' ')[1:]]


def dec_pair(r):
    return tuple(map(int, r.split(':')))


def dec_analyses(r, wide):
    if r == 'N':
        return None
    res = []
    for a in r.split(' ')[1:]:
        d = {}
        if a != '_':
            for kv in a.split(';'):
                k, _, v = kv.partition('=')
                if k in d:
                    d.setdefault('!dup', []).append(k)
                d[k] = None if v == '!' else (unU if wide else unC)(v)
        res.append(d)
    return res


def dec_error(x):
    p = x.split(':')
    sug = None if p[3] == 'N' else [unC(s) for s in p[3].split(',')[1:]]
    e = (int(p[0]), int(p[1]), int(p[2]), sug)
    return e + ((unC(p[4]) if p[4] != 'N' else None),) if len(p) > 4 else e


def dec_errors(r):
    return [dec_error(x) for x in r.split(' ')[1:]]


class Crash(Exception):
    """the driver died; index = the command it died in"""
    def __init__(self, index, cmd, report, rc):
        Exception.__init__(self, 'driver died (rc %s) in command %d: %s' % (rc, index, cmd[:300]))
        self.index, self.cmd, self.report, self.rc = index, cmd, report, rc


class Hang(Exception):
    def __init__(self, index, cmd):
        Exception.__init__(self, 'watchdog in command %d: %s' % (index, cmd[:300]))
        self.index, self.cmd = index, cmd


class HarnessError(Exception):
    pass


def run(cmds, variant='plain', timeout=600, env=None, binary=None, prefix=(), cwd=None):
    """Runs the commands in one fresh process; returns the response lines. Raises Crash or Hang."""
    if os.environ.get('VERIF_COV'):
        variant = 'cov'     # tools/coverage.sh
    exe = binary or build.harness(variant, 'drv')
    e = dict(os.environ, LC_ALL='C.UTF-8', HOME='/nonexistent')
    for k in ('VOIKKO_DICTIONARY_PATH', 'VOIKKO_DICTIONARY', 'DRV_HOME'):
        e.pop(k, None)
    e.update(ASAN_ENV)
    e.update(env or {})
    data = ('\n'.join(cmds) + '\n').encode('latin-1')
    try:
        p = subprocess.run(list(prefix) + [exe], cwd=cwd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        # find where it hangs, with flushed answers
        try:
            p = subprocess.run(list(prefix) + [exe], cwd=cwd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(e, DRV_FLUSH='1'), timeout=timeout * 2)
        except subprocess.TimeoutExpired as x:
            n = (x.stdout or b'').count(b'\n')
            raise Hang(n, cmds[n] if n < len(cmds) else '')
    lines = p.stdout.decode('latin-1').split('\n')[:-1]
    if p.returncode != 0 or len(lines) != len(cmds):
        # once more, flushing every answer, to learn the exact command
        q = subprocess.run(list(prefix) + [exe], cwd=cwd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(e, DRV_FLUSH='1'), timeout=timeout * 3)
        n = q.stdout.count(b'\n')
        if q.returncode == 0 and n == len(cmds):
            raise HarnessError('driver died with %s once and not again: %s' %
                               (p.returncode, p.stderr.decode('utf-8', 'replace')[-2000:]))
        raise Crash(n, cmds[n] if n < len(cmds) else '(at exit)', q.stderr.decode('utf-8', 'replace'), q.returncode)
    return lines


def run_many(batches, variant='plain', workers=None, **kw):
    """Several command streams in parallel; each result is the list of lines, or the Crash/Hang raised."""
    build.harness(variant, 'drv')

    def one(b):
        try:
            return run(b, variant, **kw)
        except (Crash, Hang) as x:
            return x
    with ThreadPoolExecutor(workers or os.cpu_count() or 8) as ex:
        return list(ex.map(one, batches))


FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (?:/\S+/)?([\w.]+\.(?:cpp|hpp|h)):(\d+)')


def san_key(report):
    """A stable key for a sanitizer report: kind plus the first frames in the code under test."""
    kind = 'crash'
    m = re.search(r'ERROR: (?:Address|Leak|Thread)Sanitizer: (\S+)', report)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r'runtime error: ([^\n]*)', report)
        if m:
            kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:60].replace(' ', '_')
        else:
            m = re.search(r"Assertion '([^']*)' failed", report)
            if m:
                kind = 'assert:' + m.group(1)[:60].replace(' ', '_')
            else:
                m = re.search(r"terminate called after throwing an instance of '([^']*)'", report)
                if m:
                    kind = 'throw:' + m.group(1)
    frames = []
    for fn, f, _ in FRAME.findall(report):
        if f in ('drv.cpp',) or 'interceptor' in fn:
            continue
        fn = re.sub(r'\(.*', '', fn)
        frames.append(fn.split('::')[-1] + '@' + f)
        if len(frames) == 2:
            break
    return kind + '|' + '<'.join(frames)
