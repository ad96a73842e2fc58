"""Running the command-line tools and the meaning of their input lines."""
import os, subprocess
import build

LOC = {'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8'}
MAXW = 255


def tool(variant, name, args, data, env=None, timeout=600):
    e = {k: v for k, v in os.environ.items() if not k.startswith('VOIKKO')}
    e.update(LOC)
    e.update(env or {})
    return subprocess.run([build.tool(variant, name)] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)


def encode(w):
    return ''.join(c for c in w if not 0xd800 <= ord(c) < 0xe000 and c != '\n').encode('utf-8')


def spoil(r, b):
    """a line that no UTF-8 locale takes for text"""
    k = r.randrange(len(b) + 1)
    while k < len(b) and b[k] & 0xc0 == 0x80:
        k += 1
    x = r.choice((b'\xff', b'\x80', b'\xfe', b'\xc3(', b'\xe2\x82'))
    return b[:k] + x if x == b'\xe2\x82' else b[:k] + x + b[k:]


def valid(b):
    try:
        b.split(b'\0')[0].decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def decode(b, limit=MAXW):
    """the text a line means, or None when it is skipped"""
    if not b or not valid(b):
        return None
    w = b.split(b'\0')[0].decode('utf-8')
    return None if len(w) > limit else w


def toolong(data, limit=MAXW):
    return sum(1 for b in data if b and valid(b) and decode(b, limit) is None)


def first_diff(a, b):
    x, y = a.split(b'\n'), b.split(b'\n')
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return 'line %d: %r, expected %r' % (i + 1, p[:200], q[:200])
    return '%d lines, expected %d' % (len(x), len(y))
