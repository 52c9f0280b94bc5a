"""C01: any input is handled without memory errors or crashes."""
import glob
import os
import random
import re
import shutil
import struct
import subprocess

from lib import build, core, formats, isa, isacases, soup
from lib.core import Case
from checks import c02, c06, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c20, c22
from checks.c09 import drive

RULE = ('The assembler built with AddressSanitizer and UndefinedBehaviorSanitizer, with MemorySanitizer and plainly is run on correct '
        'programs using every feature, the systematic instruction tables with right and wrong operands, token soup, programs damaged by '
        'tokens, bytes, repetition and splicing, random bytes, oversized tokens and nesting, hostile numbers, '
        'damaged included and binary files, random option lists, failing reads and writes, and (thorough) inputs evolved by coverage-guided fuzzing. '
        'A report by a sanitizer, a signal or an exit status other than 0 and 1 is a violation. '
        'Non-trivial: a distinct input and option list, run under at least one sanitizer.')

OUTS = ('out', 'lst', 'sym', 'exp')
FMT = ['-B', '-D', '-C', '-S', '-H']


def options(r):
    a = [r.choice(FMT)] + (['-3'] if r.random() < 0.5 else [])
    if r.random() < 0.15:
        a += ['-P', r.choice(['2', '3', '255', '5'])]
    if r.random() < 0.15:
        a += ['-d', r.choice(['a1', 'L1=5', 'x=1', 'K2=$ffffffff', '=5', 'a b=1', '\xff=2', '1=1', '=', 'L3=9223372036854775807', '.exec=7', 'a' * 300])]
    if r.random() < 0.1:
        a += ['-e', r.choice(['L1', '5', '$ffff', 'nosuch', 'K3', '.exec', '', '99999999999999999999', '-1'])]
    if r.random() < 0.1:
        a += ['--setdp', r.choice(['0', '255', '-1', '99999999999999999999', '$12'])]
    if r.random() < 0.2:
        a.append(r.choice(['-q', '-v']))
    return a


def mutate_bytes(r, d, other=b''):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        k = r.random()
        i = r.randrange(len(d) + 1)
        j = min(len(d), i + r.choice([1, 1, 2, 5, 20, 200]))
        if k < 0.2:
            d[i:j] = b''
        elif k < 0.4:
            d[i:i] = bytes(r.choice([r.randrange(256), r.choice(b'\\&{}[]()"/\'!%#*+-<>=,;:?\r\n\t .@$0x')]) for _ in range(r.choice([1, 1, 2, 4])))
        elif k < 0.55 and d:
            d[min(i, len(d) - 1)] ^= 1 << r.randrange(8)
        elif k < 0.65:
            d[i:i] = d[i:j] * r.choice([1, 2, 3, 50])
        elif k < 0.72 and other:
            p = r.randrange(len(other))
            d[i:j] = other[p:p + r.randrange(1, 60)]
        elif k < 0.8:
            d[i:i] = r.choice(soup.TOK).encode('latin-1') * r.choice([1, 2, 3, 10, 100])
        elif k < 0.85:
            del d[i:]
        elif k < 0.9:
            d[i:i] = ('\n' + soup.line(r) + '\n').encode('latin-1')
        elif k < 0.93 and d:
            x = bytes(d[i:j])
            d = bytearray(bytes(d).replace(x, r.choice([b'', b'"', b',', b'\n', x + x]), r.randrange(1, 10)) if x else d)
        else:
            d[i:j] = r.choice([b'99999999999999999999', b'-9223372036854775808', b'9223372036854775807', b'1e400', b'$8000000000000000', b'\\{99999999999}', b'&{0}', b'\\0', b'4294967296b', b'4294967295f', b'.', b'1/0', b'0.', b'1%0'])
    return bytes(d[:200000])


def make_damaged(seed):
    """A correct program, damaged at the level of bytes."""
    r = random.Random(seed)
    c = core.make_random(seed, {'sizes': (3, 6, 10, 20), 'weights': {'include': 3, 'includebin': 3, 'export': 3, 'macrouse': 6, 'macrodef': 4, 'section': 4}, 'nonascii': True})
    other = soup.make_soup(seed + 'o').files['main.s']
    for f in r.sample(sorted(c.files), r.randrange(1, len(c.files) + 1)):
        c.files[f] = mutate_bytes(r, c.files[f], other)
    return c.files, options(r) + ['main.s']


def make_garbage(seed):
    r = random.Random(seed)
    n = r.choice([0, 1, 2, 3, 10, 100, 1000, 20000])
    k = r.random()
    if k < 0.2:
        d = r.randbytes(n)
    elif k < 0.4:
        d = bytes(r.randrange(1, 256) for _ in range(n))
    elif k < 0.6:
        al = bytes(r.choice(range(1, 256)) for _ in range(r.choice([2, 5, 10]))) + b' \n\t'
        d = bytes(r.choice(al) for _ in range(n))
    elif k < 0.8:
        d = ''.join(r.choice(soup.TOK + [' ', '\n', '\n ', '\t']) for _ in range(n)).encode('latin-1')
    else:
        d = ''.join(r.choice([' ', '\n ', '\n', '', ' ']) + r.choice(soup.TOK + soup.OPS + soup.OPS) for _ in range(n // 4)).encode('latin-1')
    return {'main.s': d, 'x': r.randbytes(r.choice([0, 3, 300])), 'f': d[:50]}, options(r) + ['main.s']


def make_shape(seed):
    """Too much of something."""
    r = random.Random(seed)
    k = r.choice([1, 10, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 9999, 10001, 20000])
    t = r.choice(['(', '-', '~', '!', '+', '[', '#', ',', '1+', '"a"+', 'a1,', '((((1)))),', '1?', '1?2:', '?', ':', '<', '>', '<<', '\\1', '&{1}', '\\{%d}' % k, '"', "'", '$', '%', '@', '0x', '.', '1.', '*', '*-', '/', '{', '}', '\\', '&', '&&',
                  'a', 'Z_', '9', '0', '1b,', '0b1', ' ', '\t', ';', '\r', 'x,', '++', '--', '!=', '1 ', 'a ', ')', ']'])
    if len(t) < 5 and r.random() < 0.08:
        k = r.choice([40000, 70000, 150000, 300000])
    if k > 20000:
        # parts of strings and names are kept in lists that take quadratic time
        k = 20000 if '\\' in t or '&' in t else k
    s = t * k
    pre = r.choice(['', ' fcb ', ' fdb 1,', ' lda ', ' lda [', ' m1 ', 'a1 equ ', ' if ', ' pshs ', ' fcc "', ' include "', ' section "', ' tfr ', ' opt ', ' end ', ' ', '1 ', ' ld', ' fcb "&1', ' lda #', ' org ', ' leax '])
    post = r.choice(['', '1', ')' * k, ']', '"', '1' + ')' * k, ':1' * k, ' ;x', ',x', '"\n', ',y]'])
    ls = [pre + s + post]
    if r.random() < 0.3:
        ls = ['m1 macro'] + ls + [' endm', ' m1 1,"b"', ' m1']
    elif r.random() < 0.2:
        ls = [' m1 ' + s + post, 'm1 macro', ' fcb \\1', ' endm']
    elif r.random() < 0.2:
        ls = ls * 20
    text = '\n'.join(['a1 equ 5', 'm1 macro', ' fcb \\1', ' endm'] * (r.random() < 0.5) + ls + [''] * (r.random() < 0.7))
    return {'main.s': text.encode('latin-1')}, options(r) + ['main.s']


def make_values(seed):
    """Extreme values in every place that takes one."""
    r = random.Random(seed)
    V = ['$7fffffffffffffff', '-$7fffffffffffffff-1', '$ffffffffffffffff', '99999999999999999999999', '-1', '0', '1', '65535', '65536', '1<<31', '1<<32', '1<<62', '1<<63', '1<<64', '1<<-1', '1>>-1', '1>>64', '-1>>63',
         '1.5', '-1.5', '1e9', '1e400', '1./0', '-1./0', '0./0', '1/3', '1/0', '9223372036854775807.', '9223372036854775808.', '-9223372036854775809.', '.0000000000000000000001', '5%0', '5%-1', '(-$7fffffffffffffff-1)%-1', '5.5%0.1', '$7fffffffffffffff*2',
         '-$7fffffffffffffff*9', '$7fffffffffffffff+1', '-(-$7fffffffffffffff-1)', '~0', '!0', '""', '"A"', '"ABCD"', '"ABCDEFGHIJ"', '"\xff\xff\xff\xff"', '/x/', 'und', 'a1', 'fl', 'st', 'rg', '*', '1b', '1f', '99999999999b', 'x', 'pcr', '1?2', '1?2:3', 'fl?1:2', 'st==st', 'st+1', 'rg+1',
         '"a"<"b"', 'fl<<3', '3<<fl', 'fl&1', '-st', '!st', '!fl', '~fl', '~(1/0.)', '(1./0)&1', '(1/0)|1', '(0./0)%3', '(1/0)<<1', '[1,2]', '#1', '<1', '>1', '<<1', ',', '', '&{1}', '\\1', "'", "'\xff", '0x', '$', '(', 'late', 'late*late', 'late/0']
    ops = list(isa.OPS_6309) + ['equ', 'set', 'org', 'put', 'rmb', 'align', 'section', 'setdp', 'if', 'elsif', 'else', 'endif', 'macro', 'endm', 'include', 'includebin', 'export', 'end', 'fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'fill', 'rzb', 'zmb', 'bsz', 'fzb',
                                'm1', 'page', 'opt', 'fcb', 'fill', 'align', 'rzb', 'org', 'rmb']
    ls = ['a1 equ 5', 'fl equ 2.5', 'st equ "str"', 'rg equ x', 'm1 macro', ' fcb \\1', ' fcc "&1&2"', ' lda \\1,x', ' endm', '1 nop']
    for _ in range(r.choice([1, 2, 3, 8])):
        op = r.choice(ops)
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 4])
        args = []
        for _ in range(n):
            v = r.choice(V)
            if r.random() < 0.3:
                v = r.choice(['#', '<', '>', '<<', '[', '(', '-', '~', '!']) + v
            if r.random() < 0.2:
                v = v + r.choice(['+', '-', '*', '/', '%', '<<', '>>', '==', '&', '|', '&&', '||', '<', '?1:']) + r.choice(V)
            if r.random() < 0.15:
                v += r.choice([')', ']', ',x', ',pcr', ',y]', '+', '++'])
            args.append(v)
        ls.append(r.choice(['', '', 'k%d' % len(ls), '2', 'a1', '\\1']) + ' ' + op + ' ' + ','.join(args))
    ls += ['1 nop', 'late equ 7']
    if r.random() < 0.2:
        ls += [' export %s' % r.choice(['a1', 'm1', 'fl', 'st', 'rg', 'und', 'k10', '5', 'k11'])]
    return {'main.s': ('\n'.join(ls) + '\n').encode('latin-1')}, options(r) + ['main.s']


def make_good(seed):
    r = random.Random(seed)
    c = core.make_random(seed, {'sizes': (10, 20, 40, 80), 'opts': True, 'nonascii': True, 'weights': {'include': 3, 'export': 3, 'macrouse': 6, 'macrodef': 4, 'section': 5, 'put': 3}, 'fmts': tuple(formats.OPTION), 'errors': r.choice([0, 0, 0.02])})
    return c.files, c.args(()) [:-len(c.mains)] + c.mains


def from_case(c):
    for x in c if isinstance(c, tuple) else ():
        if isinstance(x, Case):
            return x.files, x.args(())
    if isinstance(c, tuple):        # c16: blocks, lines, files, ...
        return dict(c[2], **{'main.s': ('\n'.join(c[1]) + '\n').encode('latin-1')}), [FMT[len(c[1]) % 5]] + (['-e', c[4]] if c[4] else []) + ['main.s']
    return c.files, c.args(())


SHARED = [c02.make_feedback, c02.make_nest, c02.make_endless, soup.make_soup, soup.make_mutant]


def make_shared(seed):
    r = random.Random(seed)
    return from_case(r.choice(SHARED)(seed))


def make_options(seed):
    """Any options at all."""
    r = random.Random(seed)
    f = {'main.s': b'k1 equ 5\n nop\n fcb k1\n', 'b.s': b' fcb 2\n'}
    ws = ['-B', '-D', '-C', '-S', '-H', '-3', '-8', '-9', '-q', '-v', '-d', '-e', '-P', '-o', '-l', '-E', '-s', '--setdp', '--exec', '--define', '--help', '--version', '--', '-', '-Z', '--x', 'main.s', 'main.s', 'b.s', 'nosuch', '', 'k1', 'k1=', '=', '=1', 'k1=5', '5', '$', '%1', '@', '0x',
          '-1', '99999999999999999999', '\xff', 'a' * 5000, 'out', '.', '/dev/null', '%s%n', '-dX=1', '-e5', '-P300', '--exec=', '--define==', '--setdp=', '--max-passes=', '-qvSBH3', '-ofoo', '--out', '--output=x/y']
    return f, [r.choice(ws) for _ in range(r.choice([1, 2, 3, 5, 10, 30]))]


def make_macros(seed):
    """Positional variables of any number in every place, with any number of arguments."""
    r = random.Random(seed)
    nargs = r.choice([0, 1, 2, 3, 8, 9, 10, 11, 12])

    def ix():
        return r.choice([0, 0, 1, 1, 2, nargs, nargs, nargs + 1, max(0, nargs - 1), 9, 10, 65536, 4294967295, 4294967296, 4294967297, 2147483647, 2147483648, 9223372036854775808, 99999999999999999999999])

    def ref():
        i = ix()
        k = r.random()
        if k < 0.3 and i < 10:
            return r.choice(['\\%d', '\\%d', '&%d']) % i
        return r.choice(['\\{%d}', '&{%d}', '\\{0%d}', '\\{%d}\\{1}', 'a\\{%d}', '\\{%d}b', '&{%d}+1', '\\{-%d}', '\\{ %d}', '\\{}%d']) % i

    def text():
        return '"%s%s%s"' % (r.choice(['', 'x', '&']), r.choice(['&%d' % (ix() % 10), '&{%d}' % ix(), '\\%d' % (ix() % 10), '\\{%d}' % ix()]), r.choice(['', '&', 'y', '&1', '\\']))

    def use(f):
        return ' ' + f % tuple((ref() if r.random() < 0.75 else text()) for _ in range(f.count('%s')))
    FS = ['fcb %s', 'fcb %s,%s', 'fdb %s', 'fcc %s', 'fcn %s', 'fcs %s', 'fqb %s', 'fcv %s', 'fci %s', 'lda %s', 'lda #%s', 'lda %s,x', 'lda %s,%s', 'lda [%s,%s]', 'lda ,%s', 'lda ,%s++', 'lda ,-%s', 'tfr %s,%s', 'pshs %s,%s', 'puls %s', 'if %s', 'elsif %s',
          'org %s', 'put %s', 'rmb %s', 'fill %s,%s', 'align %s,%s', 'section %s', 'setdp %s', 'include %s', 'includebin %s', 'export %s', 'end %s', 'm2 %s', 'm2 %s,%s', 'm1 %s', '%s', '%s %s', 'ld%s #%s', '%s%s', 'bra %s', 'rzb %s', 'm%s %s', 'page %s', 'opt %s', 'tfm %s+,%s+', 'band %s,1,2,%s', 'oim #%s,%s', 'fcb (%s)', 'fcb -%s', 'fcb !%s', 'fcb %s?%s', 'fcb %s?%s:%s']
    LB = ['', '', '', '\\1', '\\{%d}' % ix(), 'L\\1', '&{1}', '1', '!', 'v equ \\1', '\\2 equ \\1', 'w set &{%d}' % ix(), '\\1 macro', 'q\\1 macro']
    VS = ['5', '"s"', '"L1"', 'x', 'a', '-x', 'x++', 'd', '2.5', 'K', 'K+1', '[1,2]', '[K,x]', '', '', '"fcb"', '"5"', 'und', '1b', '1f', '*', '""', '/q/', 'late', "'A", '\\1', '&{1}', '"&1"', '[,x]', '[]', '$ffffffff', 'pcr', '#5', '<5', '>K', '"a b"', '"1+2"', 'm1', 'rg', 'rg2', 'ar']

    def args():
        n = nargs if r.random() < 0.6 else r.choice([0, 1, 2, 3, 9, 10, 20])
        return ','.join(r.choice(VS) for _ in range(n))
    m1 = ['m1 macro'] + [(r.choice(LB) if r.random() < 0.4 else '') + use(r.choice(FS)) for _ in range(r.choice([1, 1, 2, 4]))] + [' endm'] * r.choice([1, 1, 1, 1, 2])
    m2 = ['m2 macro'] + [(r.choice(LB) if r.random() < 0.2 else '') + use(r.choice(FS[:20])) for _ in range(r.choice([1, 1, 2]))] + [' endm']
    tail = [(r.choice(LB) if r.random() < 0.1 else '') + ' m1 ' + args() for _ in range(r.choice([1, 1, 2, 3]))]
    ls = ['K equ 7', 'rg equ x', 'rg2 equ -x', 'ar equ 1,2'] + m2 + m1
    if r.random() < 0.2:
        ls.append(use(r.choice(FS)))
    if r.random() < 0.2:
        ls.insert(3, tail.pop())
    ls += tail + ['1 nop', 'late equ 9']
    if r.random() < 0.15:
        ls = ls[:4] + [' if %d' % r.randrange(2)] + ls[4:] + [' endif'] * r.randrange(2)
    if r.random() < 0.15:
        ls.append(' export m1,m2')
    return {'main.s': ('\n'.join(ls) + '\n').encode('latin-1'), 's': b' fcb 1\n', '5': b' fcb 2\n'}, options(r) + ['main.s']


KINDS = {'macros': make_macros, 'good': make_good, 'damaged': make_damaged, 'garbage': make_garbage, 'shape': make_shape, 'values': make_values, 'shared': make_shared, 'options': make_options}


def verdict(run):
    """What is wrong with a run, or None."""
    rep = core.sanitizer_report(run)
    if rep:
        return 'sanitizer', rep
    if run.timeout:
        return None
    if run.sig:
        return 'signal', 'ended by signal %d: %s' % (run.sig, run.err[-600:].decode(errors='replace'))
    if run.rc not in (0, 1):
        return 'status', 'exit status %d: %s' % (run.rc, run.err[-600:].decode(errors='replace'))
    return None


def bug_key(kind, why):
    m = re.search(r'(AddressSanitizer|MemorySanitizer): ([\w-]+)', why) or re.search(r'(runtime error): ([^\n]{0,50})', why)
    fn = re.search(r'#\d+ \S+ in (\w+) [^\n]*/src/(?:\w+)\.[cly]', why)
    return re.sub(r'[^A-Za-z0-9]+', '-', '%s-%s-%s' % (kind, m.group(2) if m else '', fn.group(1) if fn else ''))[:60]


def runs(exes, files, args, ex, outs=True, stack=True):
    full = (['-o', 'out', '-l', 'lst', '-s', 'sym', '-E', 'exp'] if outs else []) + args
    files = {k: v for k, v in files.items()}
    for name, exe in exes:
        run = core.run_tool(exe, files, full, (), cpu=40, wall=200, mem=3 << 30, retry=False)
        ex['runs: ' + name] = ex.get('runs: ' + name, 0) + 1
        if run.timeout:
            ex['no answer'] = ex.get('no answer', 0) + 1
        else:
            ex['exit %s' % run.rc] = ex.get('exit %s' % run.rc, 0) + 1
        v = verdict(run)
        if v:
            c = Case(files=files, mains=[], extra=full, fmt=None)
            return dict(verdict='bad', kind=bug_key(*v), why='%s build: %s' % (name, v[1]), case=c)
    return None


def job(exes, kind):
    def f(seed):
        files, args = KINDS[kind](seed)
        ex = {kind: 1}
        h = Case(files=files, mains=args, fmt=None)
        out = {'verdict': 'ok', 'digest': h.digest(), 'extra': ex}
        # exports may not exist, which hides the rest: sometimes don't ask
        r = random.Random(seed + 'o')
        if kind != 'options':
            if r.random() < 0.7:
                args = ['-o', 'out', '-l', 'lst', '-s', 'sym'] + (['-E', 'exp'] if r.random() < 0.6 else []) + args
        bad = runs(exes, files, args, ex, outs=False)
        if bad:
            out.update(bad)
        return out
    return f


def job_cases(exes, cases, what):
    def f(i):
        c = cases[i][0](*cases[i][1:]) if isinstance(cases[i], tuple) else cases[i]
        ex = {what: 1}
        out = {'verdict': 'ok', 'digest': c.digest(), 'extra': ex}
        bad = runs(exes, c.files, c.args(()), ex)
        if bad:
            out.update(bad)
        return out
    return f


def job_faults(exe, shim):
    """Failing and short reads and writes."""
    def f(seed):
        r = random.Random(seed)
        files, args = make_good(seed)
        ex = {'failing reads and writes': 1}
        out = {'verdict': 'ok', 'digest': seed, 'extra': ex}
        full = ['-o', 'out', '-l', 'lst', '-s', 'sym', '-E', 'exp'] + args
        env = {'LD_PRELOAD': shim, 'IOF_AT': str(r.randrange(60)), 'IOF_ERRNO': str(r.choice([5, 28, 12])), 'ASAN_OPTIONS': core.SAN_ENV['ASAN_OPTIONS'] + ':verify_asan_link_order=0'}
        if r.random() < 0.5:
            env['IOF_STICKY'] = '1'
        if r.random() < 0.3:
            env['IOF_SHORT'] = '7'
        run = core.run_tool(exe, files, full, (), env=env, cpu=40, retry=False)
        v = verdict(run)
        if v:
            out.update(verdict='bad', kind=bug_key(*v), why='%s with %s' % (v[1], env), case=Case(files=files, mains=[], extra=full, fmt=None))
        return out
    return f


def reach(ctx, seeds):
    """How much of the code the inputs reach."""
    exe = build.build('cov')
    d = os.path.dirname(exe)

    def f(item):
        kind, seed = item
        files, args = KINDS[kind](seed)
        core.run_tool(exe, files, ['-o', 'out', '-l', 'lst', '-s', 'sym'] + args, (), cpu=60, retry=False)
        core.run_tool(exe, files, ['-E', 'exp'] + args, (), cpu=60, retry=False)
        return {'verdict': 'ok'}
    for _ in core.pmap(f, seeds):
        pass
    tot = hit = 0
    for c in sorted(glob.glob(d + '/*.gcda')):
        p = subprocess.run(['gcov', '-n', '-o', d, c], cwd=d, capture_output=True, text=True)
        for m in re.finditer(r"File '([^']*)'\nLines executed:([\d.]+)% of (\d+)", p.stdout):
            if os.path.basename(m.group(1)) in ('grammar.c', 'lex.c') or '/src/' in m.group(1) and m.group(1).endswith(('.c', '.y', '.l')):
                tot += int(m.group(3))
                hit += round(float(m.group(2)) * int(m.group(3)) / 100)
                ctx.counts['lines reached in ' + os.path.basename(m.group(1))] = '%s%% of %s' % (m.group(2), m.group(3))
    if tot:
        ctx.counts['lines reached'] = '%.1f%% of %d' % (100.0 * hit / tot, tot)


def fuzz(ctx, asan, execs):
    """Coverage-guided fuzzing with AFL++."""
    try:
        exe = build.build('afl')
    except build.BuildError:
        ctx.assumptions.append('no AFL++ build: coverage-guided fuzzing was skipped')
        return
    top = os.path.join(build.scratch(), 'afl')
    os.makedirs(top + '/in')
    tok = os.path.join(top, 'dict')
    words = sorted(set(soup.TOK + soup.OPS + [' ' + x.strip() for x in soup.LINE] + list(isa.OPS_6309)))
    with open(tok, 'w') as f:
        for w in words:
            w = w.encode('latin-1')
            f.write('"%s"\n' % ''.join('\\x%02x' % b for b in w))
    n = 0
    for kind in ('good', 'damaged', 'shared', 'values'):
        for i in range(40):
            files, args = KINDS[kind]('%s/%d/afl%d' % (ctx.prop, ctx.seed, i))
            d = files.get('main.s', b'')
            if 0 < len(d) < 1500:
                with open('%s/in/%d' % (top, n), 'wb') as f:
                    f.write(d)
                n += 1
    env = dict(os.environ, AFL_SKIP_CPUFREQ='1', AFL_I_DONT_CARE_ABOUT_MISSING_CRASHES='1', AFL_NO_UI='1', AFL_NO_AFFINITY='1', AFL_SKIP_BIN_CHECK='1', AFL_FORKSRV_INIT_TMOUT='20000', AFL_NO_CRASH_README='1')
    env.pop('LD_PRELOAD', None)
    env.update({'ASAN_OPTIONS': 'abort_on_error=1:symbolize=0:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'abort_on_error=1:halt_on_error=1:symbolize=0'})
    ps = []
    for i in range(core.NPROC):
        w = os.path.join(top, 'w%d' % i)
        os.makedirs(w)
        shutil.copy(os.path.join(top, 'in', '0'), os.path.join(w, 'f'))
        args = [[r] for r in FMT][i % 5] + (['-3'] if i % 2 else []) + ['-o', 'out', '-l', 'lst', '-s', 'sym'] + (['-E', 'exp'] if i % 3 == 2 else [])
        cmd = ['afl-fuzz', '-i', top + '/in', '-o', '%s/out%d' % (top, i), '-x', tok, '-s', str(ctx.seed * 100 + i), '-E', str(execs), '-V', '360', '-t', '2000', '-m', 'none', '--', exe] + args + ['@@']
        ps.append((i, args, subprocess.Popen(cmd, cwd=w, env=dict(env, AFL_TMPDIR=w), stdin=subprocess.DEVNULL, stdout=open(os.path.join(top, 'log%d' % i), 'w'), stderr=subprocess.STDOUT, start_new_session=True)))
    for i, args, p in ps:
        try:
            p.wait(420)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        st = {}
        for fn in glob.glob('%s/out%d/default/fuzzer_stats' % (top, i)):
            for ln in open(fn):
                k, _, v = ln.partition(':')
                st[k.strip()] = v.strip()
        if not st:
            ctx.assumptions.append('AFL++ instance %d did not run: %s' % (i, open(os.path.join(top, 'log%d' % i)).read()[-300:]))
            continue
        ctx.count('fuzzing: executions', int(st.get('execs_done', 0)))
        ctx.count('fuzzing: inputs kept', int(st.get('corpus_count', 0)))
        ctx.counts['fuzzing: edges reached (best)'] = max(ctx.counts.get('fuzzing: edges reached (best)', 0), int(st.get('edges_found', 0)))
        ctx.evaluations += int(st.get('execs_done', 0))
        for q in glob.glob('%s/out%d/default/queue/id*' % (top, i)):
            ctx.distinct.add('afl%d%s' % (i, os.path.basename(q)))
        for q in sorted(glob.glob('%s/out%d/default/crashes/id*' % (top, i))):
            with open(q, 'rb') as f:
                d = f.read()
            ctx.count('fuzzing: crashes seen')
            # only what happens again counts
            files = {'main.s': d}
            ex = {}
            bad = runs([('asan', asan)], files, args + ['main.s'], ex, outs=False)
            if bad:
                ctx.violate('fuzz-' + bad['kind'], bad['why'], bad['case'], bad['case'].extra)
    shutil.rmtree(top, ignore_errors=True)


def run(ctx):
    ctx.rule = RULE
    asan, msan, plain = build.build('asan'), build.build('msan'), build.build('plain')
    shim = build.shim('io', os.path.join(core.VERIF, 'shim', 'io.c'))
    both = [('asan', asan), ('msan', msan)]
    allx = both + [('plain', plain)]
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for kind, n in (('good', 250), ('damaged', 900), ('macros', 900), ('garbage', 300), ('shape', 350), ('values', 1200), ('shared', 500), ('options', 250)):
        fn = KINDS[kind]
        files, args = fn('%s%s0' % (base, kind))
        ctx.sample({'kind': kind, 'args': ' '.join(args)[:200], 'main': files['main.s'][:300].decode('latin-1')})
        drive(ctx, job(allx if kind in ('shape', 'values', 'options') else both, kind), ['%s%s%d' % (base, kind, i) for i in range(ctx.n(n, n * 8))], kind)
    # depth and length far beyond any stack
    deep = [[' fcb ' + '1,' * 20000 + '1'], [' fcc "' + 'a&1' * 15000 + '"'], [' if 1'] * 150000 + [' endif'] * 150000, ['m macro'] * 150000 + [' endm'] * 150000]
    for n in (200000, 1000000):
        deep += [[' fcb ' + '1+' * n + '1'], [' lda #' + '-' * n + '1'], [' fcb ' + '(' * n + '1' + ')' * n], [' fdb ' + '1?' * n + '2' + ':3' * n], [' lda ' + '[' * n + '1' + ']' * n],
                 [' fcb ' + '"a"&' * n + '1'], ['a1 equ ' + '1-' * n + 'late', 'late equ 5'], ['a' * n + ' nop'], [' if ' + '!' * n + '1', ' endif'],
                 [' fcb ' + '1<' * n + '1'], ['m macro', ' fcb ' + '\\1*' * n + '1', ' endm', ' m 1']]
    cases = [Case(d) for d in deep]
    drive(ctx, job_cases(allx, cases, 'extreme depth'), range(len(cases)), 'deep')
    r = ctx.rng
    cases = []
    for is6309 in (False, True):
        ops = isa.OPS_6309 if is6309 else isa.OPS_6809
        cases += isacases.programs(r, isacases.positives(r, ops, sorted(ops), is6309, ctx.n(0.2, 1.0)), is6309, chunk=80)
        neg = isacases.negatives(r, ops, sorted(ops), is6309)
        cases += neg if not ctx.quick else r.sample(neg, min(len(neg), 300))
    drive(ctx, job_cases(both, cases, 'instruction tables'), range(len(cases)), 'tables')
    hc = c02.hostile_cases()
    hc = hc if not ctx.quick else r.sample(hc, 250)
    drive(ctx, job_cases(both, hc, 'hostile sizes'), range(len(hc)), 'hostile')
    for mod, name in ((c06, 'direct page'), (c08, 'expressions'), (c10, 'local labels'), (c11, 'data'), (c12, 'placement'), (c13, 'conditions'), (c16, 'formats'), (c09.make_net, 'symbols'), (c09.make_set, 'variables'), (c14, 'expansion'), (c15.make_random, 'inclusion'), (c15.make_sections, 'included sections'), (c15.make_binary, 'binary files'),
                      (c15.make_end, 'end'), (c17, 'listing'), (c18.make_symbols, 'symbol files'), (c20, 'files'), (c22, 'options and names')):
        made = []
        for i in range(ctx.n(25, 400)):
            made.append(from_case(getattr(mod, 'make', mod)('%s%s%d' % (base, name, i))))
        cs = [Case(files=f, mains=[], extra=a, fmt=None) for f, a in made]

        def one(i, cs=cs, name=name):
            ex = {name: 1}
            out = {'verdict': 'ok', 'digest': cs[i].digest(), 'extra': ex}
            bad = runs(both, cs[i].files, cs[i].extra, ex)
            if bad:
                out.update(bad)
            return out
        drive(ctx, one, range(len(cs)), name)
    drive(ctx, job_faults(asan, shim), ['%sio%d' % (base, i) for i in range(ctx.n(150, 4000))], 'faults')
    reach(ctx, [(k, '%s%s%d' % (base, k, i)) for k in KINDS for i in range(ctx.n(50, 300))])
    if not ctx.quick:
        fuzz(ctx, asan, 300000)
    ctx.evaluations += sum(v for k, v in ctx.counts.items() if k.startswith('runs: '))
