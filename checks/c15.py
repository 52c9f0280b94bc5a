"""C15: included and multiple files assemble as one concatenated program."""
import os
import random
import re

from lib import build, core, formats, gen, scale
from lib.core import Case
from checks.c09 import drive

RULE = ('Random programs are taken apart: balanced runs of lines move to included files (nested, shared, in subdirectories, with odd '
        'names, empty, without a final newline, with CR LF, ending in END and rubbish after it) and to several source files, bytes to '
        'binary files of 0 to 65536 bytes. The pieces must assemble to the same image, EXEC address and symbols as the '
        'program in one piece, sections being followed by the generator. Sources that are missing, directories, loops or unopenable must '
        'fail, naming the file. Non-trivial: a distinct program of at least two files.')

OPEN = re.compile(r'^\S*\s+(if|macro)\b', re.I)
CLOSE = re.compile(r'^\S*\s+(endif|endm)\b', re.I)
MID = re.compile(r'^\S*\s+(else|elsif)\b', re.I)


def balanced(lines):
    """List of (start, end) of single lines or whole blocks, nested ones as lists."""
    depth = 0
    out = []
    start = None
    for i, l in enumerate(lines):
        if OPEN.match(l):
            if depth == 0:
                start = i
            depth += 1
        elif CLOSE.match(l):
            depth -= 1
            if depth < 0:
                return None
            if depth == 0:
                out.append((start, i + 1))
        elif depth == 0:
            if MID.match(l):
                return None
            out.append((i, i + 1))
    return out if depth == 0 else None


class Split:
    def __init__(self, r):
        self.r = r
        self.files = {}
        self.n = 0

    def name(self):
        r = self.r
        self.n += 1
        n = self.n
        return r.choice(['f%d.s', 'f%d', 'd/f%d.s', './f%d.inc', 'd/../g%d.s', 'A file %d.s', 'f%d-é.s', 'd/e/f%d', '%d', 'f%d;x.s', "it's %d",
                         'f%d.' + 'x' * 100]) % n

    def put(self, name, data):
        if name.startswith('d/..'):
            self.files['d/keep'] = b''
        self.files[os.path.normpath(name)] = data

    def directive(self, name):
        r = self.r
        d = '/' if '/' not in name and r.random() < 0.3 else '"'
        return '%s%s%s%s%s%s' % (r.choice([' ', '\t', '   ']), r.choice(['include', 'include', 'INCLUDE', 'Include', 'lib']), r.choice([' ', '\t\t']), d, name.encode().decode('latin-1'), d)

    def store(self, lines):
        r = self.r
        name = self.name()
        k = r.random()
        eol = '\r\n' if k < 0.1 else '\n'
        text = eol.join(lines)
        if lines and (r.random() < 0.7 or not lines[-1]):
            text += eol
        if r.random() < 0.15 and not any(l.lower().strip().startswith('end ') for l in lines):
            if text and not text.endswith('\n'):
                text += eol
            text += ' %s%s' % (r.choice(['end', 'END', 'End']), eol) + \
                r.choice(['', ' lda nowhere\n', ' fcb 1,2,3\n', ')))\n', ' if 1\n', 'm macro\n', '\x01\xff\n', ' end 5\n'])
        self.put(name, text.encode('latin-1'))
        return name

    def split(self, lines, depth=0):
        """Same lines with some runs of them in files."""
        r = self.r
        b = balanced(lines)
        if b is None or depth > 5:
            return lines
        out = []
        i = 0
        p = 0.15 if depth else 0.25
        while i < len(b):
            if r.random() < p:
                n = min(len(b) - i, r.choice([0, 1, 1, 2, 4, 8, 20]))
                seg = lines[b[i][0]:b[i + n - 1][1]] if n else []
                if seg and r.random() < 0.6:
                    seg = self.split(seg, depth + 1)
                elif seg and r.random() < 0.2:
                    seg = [self.directive(self.store(self.split(seg, depth + 2)))]
                out.append(self.directive(self.store(seg)))
                i += n
                if n == 0:
                    out += lines[b[i][0]:b[i][1]]
                    i += 1
            else:
                s, e = b[i]
                blk = lines[s:e]
                # inside the branches of a condition
                if len(blk) > 2 and re.match(r'^\S*\s+if\b', blk[0], re.I) and r.random() < 0.7:
                    blk = [blk[0]] + self.branches(blk[1:-1], depth) + [blk[-1]]
                out += blk
                i += 1
        return out

    def branches(self, lines, depth):
        out = []
        cur = []
        d = 0
        for l in lines:
            if OPEN.match(l):
                d += 1
            elif CLOSE.match(l):
                d -= 1
            if d == 0 and MID.match(l):
                out += self.split(cur, depth + 1) + [l]
                cur = []
            else:
                cur.append(l)
        return out + self.split(cur, depth + 1)


def text(lines):
    return ('\n'.join(lines) + '\n').encode('latin-1')


def make_random(seed):
    r = random.Random(seed)
    isa = r.random() < 0.3
    g = gen.Gen(r, isa, size=r.choice([5, 10, 20, 40]), weights={'include': 0, 'includebin': 0, 'section': 0, 'if': 6, 'local': 8},
                nonascii=r.random() < 0.2)
    lines = g.program()['main.s'].decode('latin-1').split('\n')
    lines = [l.rstrip('\r') for l in lines]
    for i, l in enumerate(lines):
        if re.match(r'^\S*\s+end\b', l, re.I):
            del lines[i:]
            break
    flat = Case(files={'main.s': text(lines)}, isa6309=isa)
    sp = Split(r)
    mains = []
    b = balanced(lines)
    if b and r.random() < 0.4:
        n = r.choice([2, 2, 3, 6])
        cuts = sorted(r.choice(b)[0] for _ in range(n - 1))
        parts = [lines[x:y] for x, y in zip([0] + cuts, cuts + [len(lines)])]
    else:
        parts = [lines]
    for i, p in enumerate(parts):
        p = sp.split(p)
        n = 'main.s' if len(parts) == 1 else 'part%d.s' % i
        mains.append(n)
        sp.files[n] = text(p) if p else b''
    return flat, Case(files=sp.files, mains=mains, isa6309=isa), []


def make_sections(seed):
    """Files that change section, and come back."""
    r = random.Random(seed)
    sp = Split(r)
    flat = []
    secs = ['CODE', 'DATA', 'BSS', 'two', 'a b', 'RAM', 'AUTO']
    base = {}
    nl = [0]

    def enter(s):
        if s.upper() in ('CODE', 'DATA', 'BSS', 'RAM', 'AUTO') and r.random() < 0.6:
            return ' ' + s.lower() if s != 'CODE' or True else ''
        return ' section "%s"' % s

    def block(depth, sec):
        """Lines of one file; flat gets the same, with the section put back."""
        out = []
        for _ in range(r.choice([1, 2, 4, 7])):
            k = r.random()
            if k < 0.35:
                nl[0] += 1
                l = 'l%d fcb %s' % (nl[0], ','.join(str(r.randrange(256)) for _ in range(r.randrange(1, 5))))
                out.append(l)
                flat.append(l)
            elif k < 0.45:
                l = r.choice(['1 nop', '2 nop', ' fdb <1' if False else ' nop'])
                out.append(l)
                flat.append(l)
            elif k < 0.65:
                s = r.choice(secs)
                sec = s
                # by name, so that case matters the same way in both
                e = ' section "%s"' % s
                out.append(e)
                flat.append(e)
                if s not in base:
                    base[s] = 0x1000 * (len(base) + 1)
                    o = ' org $%x' % base[s]
                    out.append(o)
                    flat.append(o)
            elif depth < 6:
                inner = block(depth + 1, sec)[0]
                out.append(sp.directive(sp.store(inner)))
                flat.append(' section "%s"' % sec)
            else:
                out.append(' fcb 1')
                flat.append(' fcb 1')
        return out, sec
    base['CODE'] = 0x1000
    flat += [' section "CODE"', ' org $1000']
    mains = []
    sec = 'CODE'
    first = [' section "CODE"', ' org $1000']
    for i in range(r.choice([1, 1, 2, 4])):
        if i:
            # the section carries on from one source to the next
            pass
        lines, sec = block(0, sec)
        n = 'part%d.s' % i
        mains.append(n)
        sp.files[n] = text((first if i == 0 else []) + lines)
    return Case(files={'main.s': text(flat)}), Case(files=sp.files, mains=mains), []


def make_binary(seed):
    """INCLUDEBIN against FCB."""
    r = random.Random(seed)
    flat, lines, files = [], [], {}
    total = 0
    org = r.choice([0, 0x1000, 0x4000, 0])
    for l in (flat, lines):
        l.append(' org $%x' % org)
    n = r.choice([1, 1, 2, 4])
    for i in range(n):
        size = r.choice([0, 1, 2, 31, 32, 33, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768,
                         65534, 65535, 65536, 65537, r.randrange(70000)] if n == 1 else [0, 1, 5, 127, 128, 129, 256, 1000, 4096, 5000])
        k = r.randrange(6)
        if k == 0:
            data = bytes(i % 256 for i in range(size))
        elif k == 1:
            data = bytes([r.choice([0, 255, 10, 13, 26, 4])]) * size
        elif k == 2:
            data = (b'\r\n' * size)[:size]
        else:
            data = r.randbytes(size)
        name = r.choice(['b%d.bin', 'd/b%d', 'b%d x']) % i
        files[name] = data
        k = r.random()
        lab = 'l%d' % i if r.random() < 0.7 else ''
        lines.append('%s %s "%s"' % (lab, r.choice(['includebin', 'INCLUDEBIN', 'IncludeBin']), name))
        if lab:
            flat.append(lab)
        for j in range(0, size, 512):
            flat.append(' fcb ' + ','.join(str(b) for b in data[j:j + 512]))
        total += size
        if r.random() < 0.5:
            for l in (flat, lines):
                l.append('after%d fdb after%d,*' % (i, i))
            total += 4
    files['main.s'] = text(lines)
    return Case(files={'main.s': text(flat)}), Case(files=files), [org + total > 0x10000]


def make_end(seed):
    """END in files: stops only the file, and gives EXEC."""
    r = random.Random(seed)
    sp = Split(r)
    flat, lines = [' org $2000'], [' org $2000']
    nfiles = r.choice([1, 2, 3])
    who = r.randrange(nfiles)
    depth = r.randrange(4)
    rub = [' lda nowhere', ' fcb 1', '!!!', ' endif', ' if 1', ' end 7', 'm macro', ' include "none"']
    endaddr = r.choice(['$1234', 'go', '*', '5+5', 'late', '65535', '0'])

    def file(i, d):
        out = []
        out.append('a%d_%d fcb %d' % (i, d, r.randrange(256)))
        flat.append(out[-1])
        if i == who and d < depth:
            out.append(sp.directive(sp.store2(file(i, d + 1))))
        elif i == who and d == depth:
            out.append(' end ' + endaddr)
            if endaddr == '*':
                flat.append('here')
            out += [r.choice(rub) for _ in range(r.randrange(3))]
            return out
        l = ' fcb %d' % r.randrange(256)
        flat.append(l)
        out.append(l)
        if r.random() < 0.5:
            out.append(r.choice([' end', ' END ; text']))
            out += [r.choice(rub) for _ in range(r.randrange(3))]
        return out

    def store2(ls):
        n = sp.name()
        sp.put(n, text(ls))
        return n
    sp.store2 = store2
    mains = []
    sp.files['consts.s'] = b'go equ $4321\n'
    for i in range(nfiles):
        n = 'part%d.s' % i
        mains.append(n)
        sp.files[n] = text(([' org $2000', ' include "consts.s"'] if i == 0 else []) + file(i, 0))
    sp.files['last.s'] = b'late equ $7000\n'
    mains.append('last.s')
    flat += ['go equ $4321', 'late equ $7000', ' end ' + endaddr.replace('*', 'here')]
    return Case(files={'main.s': text(flat)}), Case(files=sp.files, mains=mains), ['here']


MAKERS = [make_random, make_random, make_sections, make_sections, make_binary, make_end]


def job(exe):
    def f(seed):
        kind = random.Random(seed + 'k').choice(MAKERS)
        flat, case, info = kind(seed)
        fmt = random.Random(seed + 'f').choice(['srec', 'coco', 'hex'])
        flat.fmt = case.fmt = fmt
        big = kind is make_binary
        res = core.compare(exe, case, ('status', 'image', 'exec', 'symbols') + (() if big else ('listing',)))
        if res.get('kind') == 'crash':
            return core.trim(res)
        out = core.trim(res)
        run = core.run_tool(exe, case.files, case.args(('out', 'sym')), ('out', 'sym'))
        ref = core.run_tool(exe, flat.files, flat.args(('out', 'sym')), ('out', 'sym'))
        tag = kind.__name__[5:]
        if res['verdict'] == 'undecided':
            out = {'verdict': 'ok', 'digest': case.digest()}

        def bad(k, why):
            out.update(verdict='bad', kind=tag + '-' + k, why=why, case=case)
            return out
        if run.rc != ref.rc:
            return bad('status', '%s in files, %s in one piece: %s / %s' % (run.status(), ref.status(), run.err[:300], ref.err[:300]))
        if info and info[0] is True and run.rc == 0:
            return bad('toolong', 'more than 64K of data accepted')
        # a CoCo segment holds up to 65535 bytes
        if info and info[0] is False and run.rc != 0 and not (fmt == 'coco' and any(len(d) > 65535 for n, d in case.files.items() if n != 'main.s')):
            return bad('rejected', 'rejected: %s' % run.err[:300])
        if ref.rc != 0:
            out['extra'] = {tag + ': both rejected': 1}
            return out
        if run.files['out'] != ref.files['out']:
            d = formats.DECODE[fmt]
            a, b = d(run.files['out']), d(ref.files['out'])
            return bad('image', 'output differs from that of the program in one piece: %s EXEC %r, %r' % (core.diff_mem(a[0], b[0]), a[1], b[1]))
        sa, sb = core.parse_symbols(run.files['sym'])[0], core.parse_symbols(ref.files['sym'])[0]
        if 'here' in info:
            sb.pop('here', None)
        if sa != sb:
            return bad('symbols', 'symbols differ from those of the program in one piece: %r' % sorted(set(sa.items()) ^ set(sb.items()))[:4])
        out['extra'] = {tag + ': equal to the program in one piece': 1, 'files assembled': len(case.files), 'bytes': len(formats.DECODE[fmt](ref.files['out'])[0])}
        return out
    return f


# (main, how to make the file, its name, must the run fail)
def faults():
    def nothing(d):
        pass

    def directory(d):
        os.mkdir(d + '/x.s')

    def loop(d):
        os.symlink('x.s', d + '/x.s')

    def dangling(d):
        os.symlink('nothing', d + '/x.s')

    def good(d):
        open(d + '/x.s', 'wb').write(b' nop\n')

    def link(d):
        open(d + '/y.s', 'wb').write(b' nop\n')
        os.symlink('y.s', d + '/x.s')
    long = 'n' * 300
    out = []
    for how, mk, fails in (('missing', nothing, True), ('directory', directory, True), ('loop', loop, True), ('dangling', dangling, True),
                           ('good', good, False), ('link', link, False)):
        for op in ('include', 'INCLUDE', 'lib', 'includebin'):
            pre = ' nop\n'
            out.append((how, mk, {'main.s': (pre + ' %s "x.s"\n rts\n' % op).encode()}, ['main.s'], 'x.s', fails))
            out.append((how, mk, {'main.s': (' if 0\n %s "x.s"\n endif\n rts\n' % op).encode()}, ['main.s'], 'x.s', False))
            out.append((how, mk, {'main.s': ('m macro\n %s "x.s"\n endm\n rts\n' % op).encode()}, ['main.s'], 'x.s', False))
            out.append((how, mk, {'main.s': ('m macro\n %s "x.s"\n endm\n m\n rts\n' % op).encode()}, ['main.s'], 'x.s', fails))
            out.append((how, mk, {'main.s': ('m macro\n %s \\1\n endm\n m "x.s"\n rts\n' % op).encode()}, ['main.s'], 'x.s', fails))
            out.append((how, mk, {'main.s': b' include "i.s"\n', 'i.s': (' %s "x.s"' % op).encode()}, ['main.s'], 'x.s', fails))
            out.append((how, mk, {'main.s': (' if later\n %s "x.s"\n endif\nlater equ 0\n' % op).encode()}, ['main.s'], 'x.s', False))
            out.append((how, mk, {'main.s': ('f equ "x.s"\n %s f\n' % op).encode()}, ['main.s'], 'x.s', fails))
        out.append((how, mk, {'main.s': b' nop\n'}, ['main.s', 'x.s'], 'x.s', fails))
        out.append((how, mk, {'main.s': b' nop\n'}, ['x.s', 'main.s'], 'x.s', fails))
        out.append((how, mk, {'main.s': b' nop\n end\n'}, ['main.s', 'x.s'], 'x.s', fails))
    for op in ('include', 'includebin'):
        out.append(('long', nothing, {'main.s': (' %s "%s"\n' % (op, long)).encode()}, ['main.s'], long, True))
        out.append(('through', nothing, {'main.s': (' %s "main.s/x"\n' % op).encode()}, ['main.s'], 'main.s/x', True))
        out.append(('empty name', nothing, {'main.s': (' %s\n' % op).encode()}, ['main.s'], '', True))
        out.append(('number', nothing, {'main.s': (' %s 5\n' % op).encode()}, ['main.s'], '', True))
        out.append(('two', good, {'main.s': (' %s "x.s","x.s"\n' % op).encode()}, ['main.s'], '', op == 'includebin'))
        out.append(('undefined', good, {'main.s': (' %s x.s\n' % op).encode()}, ['main.s'], '', True))
        out.append(('case', good, {'main.s': (' %s "X.S"\n' % op).encode()}, ['main.s'], 'X.S', True))
        out.append(('space', good, {'main.s': (' %s "x.s "\n' % op).encode()}, ['main.s'], 'x.s', True))
    return out


def fault(exe):
    todo = faults()

    def f(i):
        how, mk, files, mains, name, fails = todo[i]
        case = Case(files=files, mains=mains, note=how)
        run = core.run_tool(exe, files, case.args(), ('out', 'lst', 'sym'), pre=mk)
        out = {'verdict': 'ok', 'digest': case.digest() + how, 'extra': {'file faults: ' + how: 1}}
        why = None
        if not run.clean:
            why = 'ended with ' + run.status()
        elif fails and run.rc == 0:
            why = 'a source that is %s is accepted' % how
        elif not fails and run.rc != 0:
            why = 'rejected: %s' % run.err[:200]
        elif fails and name and name.encode() not in run.err:
            why = 'the message does not name the file: %s' % run.err[:200]
        elif fails and any(run.files[o] is not None for o in run.files):
            why = 'files written although the run failed'
        if why:
            out.update(verdict='bad', kind=how, why='%s (%s)' % (why, how), case=case)
        return out
    return f, range(len(todo))


SMALL = [
    # files, mains
    ({'main.s': b' nop'}, ['main.s']), ({'main.s': b''}, ['main.s']), ({'main.s': b'\n'}, ['main.s']), ({'a.s': b' nop', 'b.s': b' rts'}, ['a.s', 'b.s']),
    ({'a.s': b'l1', 'b.s': b' fdb l1'}, ['a.s', 'b.s']), ({'a.s': b' fdb l1', 'b.s': b' nop\nl1'}, ['a.s', 'b.s']), ({'a.s': b' nop\n'}, ['a.s', 'a.s', 'a.s']),
    ({'a.s': b'l nop\n'}, ['a.s', 'a.s']), ({'a.s': b'1 bra 1b\n bra 1f\n'}, ['a.s', 'a.s']), ({'a.s': b' if 1\n nop\n', 'b.s': b' endif\n'}, ['a.s', 'b.s']),
    ({'a.s': b' if 0\n nop\n', 'b.s': b' rts\n'}, ['a.s', 'b.s']), ({'a.s': b'm macro\n nop\n', 'b.s': b' endm\n m\n'}, ['a.s', 'b.s']), ({'main.s': b' include "i.s"\n endm\n m\n', 'i.s': b'm macro\n nop\n'}, ['main.s']),
    ({'main.s': b' if 0\n include "i.s"\n rts\n', 'i.s': b' endif\n'}, ['main.s']), ({'main.s': b' include "i.s"\n nop\n endif\n', 'i.s': b' if 0\n'}, ['main.s']),
    ({'main.s': b' include "i.s"\n m\n', 'i.s': b'm macro\n rts\n endm'}, ['main.s']), ({'main.s': b' include "i.s"\n include "i.s"\n', 'i.s': b' fdb *,1f\n1 bra 1b'}, ['main.s']),
    ({'main.s': b' setdp 5\n include "i.s"\n lda $0612\n', 'i.s': b' lda $512\n setdp 6\n'}, ['main.s']), ({'main.s': b' org $1000\n include "i.s"\n fdb *\n', 'i.s': b' org $2000\n fdb *\n'}, ['main.s']),
    ({'main.s': b' data\n org 5\n include "i.s"\n fdb *\n', 'i.s': b' code\n org $2000\n fdb *\n'}, ['main.s']), ({'main.s': b' include "i.s"\n end\n', 'i.s': b' end 5\n'}, ['main.s']),
    ({'main.s': b' include "i.s"\n end 7\n', 'i.s': b' nop\n end 5\n'}, ['main.s']), ({'a.s': b' nop\n end 5\n', 'b.s': b' nop\n end 5\n'}, ['a.s', 'b.s']), ({'main.s': b' if 0\n end 5\n endif\n nop\n'}, ['main.s']),
    ({'main.s': b'x end 5\n nop\n'}, ['main.s']), ({'main.s': b'x end\n nop\n bad bad\n'}, ['main.s']), ({'main.s': b' END ; done\n nop\n bad bad\n'}, ['main.s']), ({'main.s': b'end nop\n rts\n'}, ['main.s']), ({'main.s': b'; end\n* end\n rts\n'}, ['main.s']),
    ({'main.s': b'm macro\n end\n nop\n endm\n m\n'}, ['main.s']), ({'main.s': b'm macro\n \\1\n nop\n endm\n m "end"\n rts\n'}, ['main.s']), ({'main.s': b' nop\x00\n rts\n'}, ['main.s']), ({'main.s': b' fcc "a\x00b"\n rts\n'}, ['main.s']),
    ({'main.s': b'l includebin "b"\n fdb l,*\n', 'b': bytes(range(256))}, ['main.s']), ({'main.s': b' includebin "b"\n includebin "b"\n', 'b': b'\0\0\n\r'}, ['main.s']), ({'main.s': b' includebin "b"\n', 'b': b''}, ['main.s']),
    ({'main.s': b' nop\n\x1a\n rts\n'}, ['main.s']), ({'main.s': b'\xef\xbb\xbf nop\n'}, ['main.s']), ({'main.s': b' nop\n\x80\n rts\n'}, ['main.s']), ({'main.s': b' nop ; \xff\n rts\n'}, ['main.s']),
    ({'main.s': b' include "i.s"\n rts\n', 'i.s': b''}, ['main.s']), ({'main.s': b' include "i.s" ; text\n rts\n', 'i.s': b' nop'}, ['main.s']), ({'main.s': b'l include "i.s"\n fdb l\n', 'i.s': b' nop'}, ['main.s']),
]


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for mk in (make_random, make_sections, make_end):
        c = mk(base + '0')[1]
        ctx.sample({'mains': c.mains, 'files': {k: v.decode('latin-1')[:160] for k, v in list(c.files.items())[:6]}})
    drive(ctx, job(exe), [base + str(i) for i in range(ctx.n(2000, 40000))], 'split')
    f, items = fault(exe)
    drive(ctx, f, items, 'fault')
    core.campaign(ctx, exe, [Case(files=f, mains=m, fmt=x) for f, m in SMALL for x in ('srec', 'coco')], core.FACETS, 'small')
    # the same program in ever smaller pieces
    r = ctx.rng
    lines = ['l%d fdb l%d,%d' % (i, (i * 7) % 200, i) for i in range(200)]
    cases = []
    for n in (1, 2, 3, 10, 50, 200):
        step = 200 // n
        fs = {'p%d.s' % i: text(lines[i * step:(i + 1) * step]) for i in range(n)}
        left = lines[n * step:]
        fs['q.s'] = text(left)
        ms = ['p%d.s' % i for i in range(n)] + ['q.s']
        cases.append(Case(files=fs, mains=ms))
        fs2 = dict(fs)
        fs2['main.s'] = text([' include "%s"' % m for m in ms])
        cases.append(Case(files=fs2))
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols', 'listing'), 'pieces')
    core.campaign(ctx, exe, scale.depths('i') + scale.filenames(), ('status', 'image', 'symbols', 'listing'), 'depths and names')
    core.campaign(ctx, exe, scale.files(40) + scale.files(ctx.n(300, 1000)) + scale.binaries(), ('status', 'image', 'symbols'), 'large')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(500, 10000), weights={'include': 20, 'includebin': 10, 'section': 6}),
                  ('status', 'image', 'exec', 'symbols'), 'random')
