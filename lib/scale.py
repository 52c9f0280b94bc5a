"""Programs made large in one dimension each, around the sizes at which a
counter, a buffer or a table would give out."""
from lib.core import Case

EDGES = (127, 128, 129, 255, 256, 257, 300)


def arguments(big=1000):
    """Data directives with many arguments, and with long strings."""
    out = []
    for n in EDGES + (511, 512, 513, big):
        for d in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb'):
            out.append(Case([' %s %s' % (d, ','.join(str((i * 7) % 256) for i in range(n))), ' fcb $ee']))
        out.append(Case([' fcb %s' % ','.join('"%c"' % (97 + i % 26) if i % 3 else '' for i in range(n)), 'ee equ *']))
        out.append(Case([' fdb %s' % ','.join('late+%d' % i for i in range(n)), 'late nop']))
    for n in EDGES + (511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 30000):
        t = ''.join(chr(97 + i * i % 26) for i in range(n))
        for d in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'):
            if n < 1000 or d in ('fcc', 'fcs'):
                out.append(Case([' %s "%s"' % (d, t), ' fcb $ee']))
        out.append(Case(['st equ "%s"' % t, ' fcc st', ' fcb st=="%s"' % t, ' fcb st=="%s"' % (t[:-1] + '.')]))
        out.append(Case(['st equ "%s"' % t, ' fqb st']))
    return out


def macros(big=300):
    out = []
    for n in EDGES + (big, 1000):
        # a macro given many arguments, each used
        args = ','.join(str(i % 256) for i in range(1, n + 1))
        out.append(Case(['m macro'] + [' fcb \\{%d}' % i for i in range(1, n + 1)] + [' endm', ' m ' + args]))
        out.append(Case(['m macro', ' fcb &{%d},\\{%d}' % (n, n - 1), ' fcc "&{%d}"' % n, 'p\\{%d} nop' % n, ' endm', ' m ' + args]))
        out.append(Case(['m macro', ' fcb &{%d}' % (n + 1), ' endm', ' m ' + args]))
        # many macros, by number and by length of their names
        src = []
        for i in range(n):
            src += ['mac%d macro' % i, ' fcb %d,\\1' % (i % 256), ' endm']
        out.append(Case(src + [' mac%d %d' % (i, i & 7) for i in (0, 1, n // 2, n - 2, n - 1)]))
        out.append(Case(src + ['mac0 macro', ' endm']))
        a, b = 'x' * n + 'a', 'x' * n + 'b'
        out.append(Case([a + ' macro', ' fcb 1', ' endm', b + ' macro', ' fcb 2', ' endm', ' ' + b, ' ' + a]))
        # definitions within definitions
        out.append(Case(['m%d macro' % i for i in range(n)] + [' fcb 7'] + [' endm'] * n + [' m0', ' m1', ' m2']))
        # the same lines in many macros
        src = ['def macro', '\\1 macro', ' fcb &{2}', ' endm', ' fcb 1', ' endm']
        src = ['def macro', '\\1\\2 macro', ' fcb 1', '; text', ' endm', ' endm']
        out.append(Case(src + [' def "z",%d' % i for i in range(n)] + [' z0', ' z%d' % (n - 1)], extra=['-E', 'exp']))
        # a long body; many uses
        out.append(Case(['m macro'] + ['l%d\\1 fcb %d' % (i, i % 256) for i in range(n)] + [' endm', ' m 1', ' m 2', ' fdb l%d2' % (n - 1)]))
        out.append(Case(['m macro', '1 fcb \\1', ' fdb 1b', ' endm'] + [' m %d' % (i % 256) for i in range(n)]))
        # texts pasted together
        out.append(Case(['m macro', 'v\\1 equ 5', ' fcb v\\1', ' fcc "&1&1"', ' endm', ' m "%s"' % ('y' * n)]))
        out.append(Case(['m macro', ' fcc "%s"' % ('&1' * n), ' fcc "%s"' % ('\\{2}' * n), ' endm', ' m 12,"ab"']))
    return out


def names(sizes=EDGES + (31, 32, 33, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 4096, 8192, 20000)):
    """Names that only differ at their end, or in case."""
    out = []
    for n in sizes:
        p = ('Name.of_' * (n // 8 + 1))[:n]
        a, b, c = p + 'a', p + 'b', p + 'B'
        out.append(Case([' fdb %s,%s,%s' % (a, b, c), a + ' equ 1', b + ' nop', c + ' set 3', ' fdb %s,%s,%s' % (a, b, c), ' fdb ' + p, p + ' equ $55']))
        out.append(Case([a + ' nop', a + ' nop']))
        out.append(Case([a + ' nop', ' fdb ' + b]))
        out.append(Case([' section "%s"' % a, ' org $1000', ' fcb 1', ' section "%s"' % b, ' org $2000', ' fcb 2', ' section "%s"' % a, ' fcb 3', ' section "%s"' % c, ' fcb 4']))
    return out


def symbols(n):
    """Many symbols of every kind."""
    src = [' fdb s%d' % (n - 1 - (n % 5 == 0))]
    for i in range(n):
        src.append('s%d %s' % (i, ('equ %d' % i, 'nop', 'set %d' % (i * 3), 'equ s%d' % (i - 1), 'equ "t%d"' % i)[i % 5 if i else 0]))
    src += [' fdb s%d' % i for i in range(0, n, 7) if i % 5 != 4]
    return Case(src)


def shared(n):
    """Many symbols, macro arguments and operands with one value between them."""
    return [Case(['v%d equ "text"' % i if i == 0 else 'v%d equ v0' % i for i in range(n)] + [' fcc v%d' % (n - 1)]),
            Case(['r equ x'] + ['v%d set r' % i for i in range(n)] + [' lda ,v%d' % (n - 1), ' fcb 1']),
            Case(['k equ 300', ' org 0'] + [' if k', ' endif'] * (n // 2) + [' fdb k'] * (n // 3))]


def exports(n):
    c = symbols(n)
    lines = c.files['main.s'].decode().split('\n')[:-1]
    return Case(lines + [' export s%d' % i for i in range(n) if i % 3], extra=['-E', 'exp'])


def expressions(sizes=EDGES + (1000, 2000, 4000)):
    out = []
    for n in sizes:
        out.append(Case([' fqb ' + '+'.join(str(i) for i in range(n))]))
        out.append(Case([' fqb ' + '-'.join('sy' if i % 2 else '%d' % i for i in range(n)), 'sy equ 3']))
        out.append(Case([' fqb ' + '|'.join('%d<<%d' % (i % 3, i % 30) for i in range(n))]))
        if n < 2000:
            out.append(Case([' fqb ' + '(' * n + '7' + ')+1' * n]))
            out.append(Case([' fqb ' + '1?' * n + '5' + ':6' * n]))
            out.append(Case([' fqb ' + '~' * n + '7']))
    return out


def files(n):
    """Many included files, each used twice, and as many on the command line."""
    fs = {'f%d.s' % i: (' fcb %d\n fdb late\n' % (i & 255)).encode() for i in range(n)}
    a = dict(fs)
    a['main.s'] = ('\n'.join([' include "f%d.s"' % (i % n) for i in range(2 * n)] + ['late nop']) + '\n').encode()
    b = dict(fs)
    b['main.s'] = b' nop\nlate nop\n'
    return [Case(files=a), Case(files=b, mains=['f%d.s' % i for i in range(n)] + ['main.s'] + ['f%d.s' % i for i in range(0, n, 3)])]


def binaries():
    out = []
    for n in EDGES + (511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537):
        d = bytes((i * 31 + (i >> 8)) & 255 for i in range(n))
        out.append(Case(files={'main.s': b' includebin "d.bin"\nafter equ *\n', 'd.bin': d}))
        out.append(Case(files={'main.s': b' fcb 1\nxx includebin "d.bin"\nafter fcb 2\n', 'd.bin': d}, fmt='coco'))
    return out


def sections(sizes=EDGES + (1000, 1025, 2049)):
    out = []
    for n in sizes:
        src = []
        for i in range(n):
            src += [' section "s%d"' % i, ' org %d' % (i * 9), 'l%d fcb %d' % (i, i & 255), '1 fdb 1b']
        out.append(Case(src))
        if n < 200:
            # each follows the one before, which takes another pass to settle
            out += [Case([l for l in src if 'org' not in l], max_passes=p) for p in (n - 1, n, n + 1, n + 2)]
        out.append(Case(src + [' section "s%d"' % (n - 1), ' fdb 1b,l0,l%d' % (n - 2), ' fcb 9']))
        src = []
        for i in range(n):
            src += [' section "s%d"' % i, ' org %d' % (i * 20)] + ([' setdp %d' % (i & 255)] if i % 3 else []) + [' fcb 1', '2 nop']
        for i in range(n):
            src += [' section "s%d"' % (i * 7 % n), ' fcb 2', ' fdb 2b', ' lda %d' % ((i * 7 % n & 255) * 256 + 5)] if n % 7 else []
        out.append(Case(src))
        out.append(Case([l for i in range(n) for l in (' org %d' % (i * 60 % 65000), ' fcb 1')] + [' fdb *']))
    return out


def lines(sizes=EDGES + (1023, 1024, 1025, 4096, 8191, 8192, 8193, 16384, 20000)):
    """Long lines, and many."""
    out = []
    for n in sizes:
        out.append(Case([' nop ; ' + 'x' * n, 'aa nop', ' fcb ' + ' ' * n + '5', ' ' * n + 'nop', '\t' * 9 + 'nop', '; ' + 'y\t' * (n // 2), 'bb fdb aa']))
        out.append(Case([' fcb ' + ','.join('1' for _ in range(n // 2)), ' rzb %d' % n, ' fcc "%s"' % ('z' * n), 'ee nop', ' fill 3,%d' % n, ' fdb ee']))
    return out


def changing():
    """Symbols whose value changes, though little, once what follows is known."""
    pairs = [('"a"', '"A"'), ('"Ab"', '"AB"'), ('"a"', '"ab"'), ('"a "', '"a"'), ('"x"', '"\\n"'), ('"1"', '1'), ('1', '"1"'),
             ('1', '1.0'), ('1.0', '1'), ('0.1', '0.10000000000000001+1/4503599627370496'), ('1', '1+1<<32'), ('1', '1|1<<63'), ('-1', '$ffffffff'), ('255', '-1'), ('0', '1<<16'),
             ('x', 'y'), ('x', 'x+'), ('x+', 'x++'), ('-x', 'x-'), ('x', '"x"'), ('a', 'b'), ('[5]', '[6]'), ('[5]', '5'), ('[5,x]', '[5,y]'), ('[,x++]', '[,x]'), ('[1,2]', '[1]'),
             ('["a"]', '["A"]'), ('[1.5]', '[1.25]'), ('5', 'x'), ('1.5', '1.5000000001'), ('100000000.25', '100000000.5'), ('0', '0.0'), ('0.0', '-0.0'), ('"aa"', '"b"')]
    out = []
    for a, b in pairs:
        for op in ('equ', 'set'):
            t = ['if later', 'v %s %s' % (op, b), ' else', 'v %s %s' % (op, a), ' endif']
            t = [(' ' + l if l[0] == 'i' else l) for l in t]
            for use in ([' fcc v', ' fqb v'] if op == 'equ' else []), [' fcc v'], [' lda v,x', ' fcb v>0'], [' lda ,v'], [' lda v'], ['w equ v'], [' fcb v==v'], [' fdb v>>32,v*65536']:
                if use:
                    out.append(Case(use + t + (use if use[0][0] == ' ' else []) + ['later equ 1']))
    return out


def depths(kinds='mif'):
    """Lines of every kind at each depth of macros (m), files (i) and conditions (f)."""
    bodies = {
        'local': ['1 nop', ' bne 1b', ' beq 1f', '1 fdb 1b', '! nop', ' bra <', ' bra >', '! fcb 1'],
        'cond': [' if nosuch', ' fcb 9', ' elsif 1', ' fcb 1', ' else', ' fcb 2', ' endif', ' if late', ' fcb 3', ' endif', ' if 0', ' bogus', ' endif'],
        'undef': [' if nosuch', ' endif', ' fdb nosuch'],
        'undef2': [' if 0', ' elsif nosuch', ' endif', ' lda nosuch'],
        'bad': [' fcb 1', ' bogus'], 'bad2': [' nop', ' lda #', ' fcb 5'], 'range': [' fcb 1', ' bra *+500'], 'warn': [' tfr a,x', ' lbra *'],
        'noif': [' endif'], 'noendif': [' if 1'], 'noelse': [' else'], 'endm': [' endm'], 'args': [' fcb \\1', ' fcb \\2'], 'redef': ['here nop', 'here nop'],
        'def': ['lab nop', ' fdb lab', 'st set 1', 'st set st+1', ' fcb st', ' fcc "text"', 'eq equ late+1', ' fdb eq'],
        'sect': [' section "other"', ' org $9000', ' setdp $90', ' lda $9005', ' fcb 1', ' section "third"', ' org $a000', '1 fcb 2', ' fdb 1b', ' lda $9005'],
        'org': [' org $3000', ' fcb 1', ' setdp $30', ' lda $3001', ' put $4000', ' fcb 2'],
        'end': [' fcb 1', ' end late', ' fcb 2'], 'macro': ['inner macro', ' fcb \\1', ' endm', ' inner 5', ' inner 6'], 'macro2': ['inner macro', ' fcb 1'],
        'done': [' if 1', ' fcb 1', ' elsif 1', ' fcb 2', ' elsif 1', ' fcb 6', ' elsif nosuch', ' else', ' fcb 3', ' endif', ' if 0', ' if 1', ' elsif 1', ' else', ' endif', ' elsif 1', ' fcb 4', ' elsif 1', ' fcb 5', ' endif'],
        'mredef': ['mm macro', ' endm', 'mm macro', ' endm'], 'mredef2': ['mm macro', ' nop', ' endm', ' if 1', 'mm macro', ' nop', ' endm', ' endif'],
        'endm1': ['mm macro', ' endm mm'], 'endm2': ['mm macro', ' endm 5'], 'endm3': ['mm macro', ' endm x'], 'endm4': ['mm macro', ' endm 1.5'], 'endm5': ['mm macro', ' endm a,b'], 'endm6': ['mm macro', ' endm "mm"'],
        'self': [' again'], 'export': [' export late', 'ex equ 5', ' export ex'], 'over': [' org $3000', ' fcb 1', ' org $3000', ' fcb 2'],
    }
    out = []
    for k in kinds:
        for d in range(0, 9 if k != 'f' else 40):
            if k == 'f' and d not in (0, 1, 2, 3, 7, 15, 16, 31, 32, 39):
                continue
            for n, body in bodies.items():
                tail = [' fcb $ee', ' fdb late', 'late equ $123'] + ([' fdb 1b'] if n == 'local' else [])
                if k == 'm':
                    src = ['m0 macro'] + body + [' endm'] if n not in ('endm',) else ['m0 macro', ' endm'] + body
                    for i in range(1, d):
                        src += ['m%d macro' % i, ' nop', ' m%d \\1,7' % (i - 1), ' fcb %d' % i, ' endm']
                    if n == 'macro':
                        # a definition within one ends first
                        src = src[:1] + body + [' endm'] + src[len(body) + 2:]
                    out.append(Case([' org $1000'] + (src + [' m%d 4,5' % (d - 1)] if d else body) + tail, extra=['-E', 'exp'] if n == 'export' else []))
                elif k == 'i':
                    fs = {'f%d.s' % i: ('\n'.join([' nop', ' include "f%d.s"' % (i - 1), ' fcb %d' % i]) + '\n').encode() for i in range(1, d)}
                    fs['f0.s'] = ('\n'.join(body) + '\n').encode()
                    fs['main.s'] = ('\n'.join([' org $1000'] + ([' include "f%d.s"' % (d - 1)] if d else body) + tail) + '\n').encode()
                    out.append(Case(files=fs, extra=['-E', 'exp'] if n == 'export' else []))
                else:
                    src = []
                    for i in range(d):
                        src += [' if %d' % (i % 2), ' bogus', ' elsif late', ' nop', ' else', ' fcb %d' % i] if i % 3 == 0 else [' if 0', ' fcb 1', ' if 1', ' bogus', ' endif', ' else', ' nop'] if i % 3 == 1 else [' if 1', ' fcb %d' % i]
                    out.append(Case([' org $1000'] + src + body + [' endif'] * d + tail, extra=['-E', 'exp'] if n == 'export' else []))
    return out


def filenames():
    """Files whose names are alike."""
    names = ['a.s', 'A.s', 'a.S', 'd/a.s', 'e/a.s', 'd/A.s', 'a', 'a.', 'aa.s', 'a.s.s', ' a.s', 'a.s ', 'd/e/a.s', 'a s', '.a.s', 'a.s~', 'x' * 100 + 'a.s', 'x' * 100 + 'b.s', 'x' * 250 + 'a', 'x' * 250 + 'b', '-o', 'd/..a', "a'b", 'a*', '$a', 'a%s', '%d%n']
    fs = {n: (' fcb %d\n fdb late\n' % (i + 1)).encode() for i, n in enumerate(names)}
    out = []
    for a in names:
        for b in names:
            f = dict(fs)
            f['main.s'] = ('\n'.join([' include "%s"' % a, ' include "%s"' % b, ' include "%s"' % a, ' includebin "%s"' % b, 'late nop']) + '\n').encode()
            out.append(Case(files=f))
    for a in ('./a.s', 'd/../a.s', 'd//a.s', './/d/./a.s'):
        f = dict(fs)
        f['main.s'] = (' include "a.s"\n include "%s"\n include "d/a.s"\nlate nop\n' % a).encode()
        out.append(Case(files=f))
    return out


def edges():
    """Runs of bytes that end about the top of memory, and negative addresses."""
    out = []
    for org in (0, 1, 0x7fff, 0x8000, 0x8001, 0xff00, 0xffff, 0x10000):
        for end in (0xffff, 0x10000, 0x10001, 0x10100, 0x18000, 0x20000, 0x40000):
            n = end - org
            if n < 0:
                continue
            for t in (' rzb %d' % n, ' fill 1,%d' % n, ' rmb %d' % n, ' align %d' % max(n, 1), ' align %d,7' % max(end, 1), ' rzb %d,1' % n):
                out.append(Case([' org %d' % org, t, 'ee equ *']))
                out.append(Case([' org %d' % org, t, ' fcb 1']))
                out.append(Case([' org %d' % org, ' put 0', t, ' fcb 1']))
    for o in (-1, -2, -3, -4, -16, -255, -256, -257, -32768, -65535, -65536, -65537):
        for t in ([' fcb 1,2,3,4'], [' fcc "abcd"', 'k nop'], [' fdb *,here'], ['l nop', ' bra l', ' lbra *'], [' rmb 2', ' fcb 1'], [' rzb 5', ' fcb 1'], [' align 8,5', ' fcb 1'], [' align 4', 'q fcb 1'],
                  [' lda here', ' lda here,pcr', ' jmp [here]'], ['1 fcb 5', ' fdb 1b,1f', '1 nop'], [' put $100', ' fcb 1', ' fdb *'], [' fcb 1', ' org 5', ' fcb 2'], [' setdp $ff', ' lda here'], [' includebin "d.bin"', ' fdb *'], ['m macro', ' fcb \\1', ' fdb *', ' endm', ' m 5', ' m *']):
            # and in sections that follow
            if t == [' fcb 1,2,3,4']:
                for n in (1, 3, 5, 7, 12, 100, 1000, 4096, 65535, 65536, 65537, 1000000):
                    out.append(Case([' org %d' % o, 'k1 align %d' % n, 'k2 equ *', 'k3 rmb 1', ' align %d' % n, 'k4', ' org 5', ' fcb 1', ' fqb k1,k2,k3,k4']))
                for u in ('k1 setdp 0', 'k1', 'k1 section "zz"', 'k1 put 5', 'k1 rmb 2', 'k1 align 4', 'k1 equ *', 'k1 set *-1', 'k1 org *-1', 'k1 end', 'k1 page', 'k1 opt', 'k1 includebin "e.bin"', 'k1 include "e.s"', 'k1 mm', '1 rmb 3', 'k1 rzb 0', 'k1 code', 'k1 fill 1,0', 'k1 nam a'):
                    out.append(Case(files={'main.s': ('\n'.join(['mm macro', 'in1', ' endm', ' org %d' % o, u, 'k2 rmb 1', '1', 'k3 setdp 5', ' fqb 1b,k2,k3' if 'end' in u else ' org 5', ' fcb 1', ' fqb k2,k3']) + '\n').encode(), 'e.bin': b'', 'e.s': b'in2\n rmb 1\nin3 setdp 9\n'}))
            out.append(Case([' section "a"', ' org %d' % o] + t[:1] + [' section "b"', 'here fcb 1', ' fdb here', 'there equ here']))
            f = {'main.s': ('\n'.join([' put $8000', 'here org %d' % o] + t) + '\n').encode(), 'd.bin': bytes(range(10))}
            out.append(Case(files=f))
    for o in (-65536, -65535, -32768, -1, 0, 1, 65535, 65536, 0xffffff, 0x1000000):
        for n in (0x10000, 0x1000000 - 65536, 0x1000000 - 1, 0x1000000, 0x1000001, 0x1000000 + 65535, 0x1000000 + 65536, 0x1000000 + 65537):
            out.append(Case([' org %d' % o, 'aa rmb %d' % n, 'bb org 5', ' fcb 1']))
            out.append(Case([' org %d' % o, 'aa rmb %d' % (n - o), 'bb rmb 0', 'c1 equ *', ' org 5', ' fcb 1']))
        for a in ('-1', '5', 'x', '1.5', '"a"', '[1]', '', 'here', ',1'):
            out.append(Case([' org %d' % max(o, 0), 'here rmb %s' % a, ' org 5', ' fcb 1']))
    return out


def settling(pads=(0, 100, 255, 256, 300, 1000, 4095, 5000, 32767, 33000, 65536, 70000)):
    """Programs whose end is fixed and only what is within them moves, late
    enough that nothing but the symbols involved can tell."""
    out = []
    for n in pads:
        pad = ['; text'] * n
        for use, fix in ((' ldx #1f', '1 nop'), (' fdb 1f-*', '1 nop'), (' ldx #g', 'g nop'), (' lbsr >', '! nop'), (' fdb 1f', '1 fcb 1,2\n1 fcb 3')):
            out.append(Case(pad + [' org $1000', ' setdp 0', use, ' lda late', fix, ' org $8000', ' fcb 9', 'late equ 5']))
            if n < 6000:
                # each pass settles one more
                out.append(Case(pad + [' org $1000', ' setdp 0', use, ' if a1', ' fcb 1,2,3', ' endif', fix, ' org $8000', ' fcb 9', 'a1 equ a2', 'a2 equ a3', 'a3 equ a4', 'a4 equ 1']))
                out.append(Case([' section "s"', ' org $1000', ' setdp 0', use] + pad + [' lda late', fix, ' section "t"', ' org $8000', use, ' sta late', fix, ' section "s"', ' org $4000', ' fcb 9', 'late equ 5']))
    return out


def pastes():
    """Arguments of every type, in every place where one can go."""
    out = []
    for v in ('5', '-5', '0', '"ab"', '"A"', '"5"', 'x', 'x+', 'x++', '-x', '--x', 'x-', 'a', '1.5', '2.0', '0/0', '', '[1,2]', '[x]', '["ab"]', 'late', 'late/2', 'late+1', 'nosuch', '*', '1b', '1f', '#5', '<5', '>5', '<<5', 'st', 'rg', 'fl', '$1234567890'):
        for site in ('n\\1 nop', '\\1 nop', ' ld\\1 #5', ' \\1', ' \\1 #5', ' lda #n\\1', ' lda n\\1', ' lda <n\\1', ' lda >n\\1', ' lda <n\\1,x', ' lda <<n\\1,x', ' lda [n\\1,y]', ' lda \\1', ' lda <\\1', ' lda >\\1', ' lda #\\1', ' lda \\1,x', ' lda <\\1,x',
                     ' lda <<\\1,x', ' lda >\\1,x', ' lda ,\\1', ' lda 5,\\1', ' lda [\\1]', ' lda [,\\1]', ' fcb \\1', ' fcb 1+\\1', ' fcb <\\1', ' fdb \\1', ' fcc "&1"', ' fcc "a&{1}b"', ' fcc "\\1"', ' fcc \\1', ' fcb n\\1&&1', 'v set \\1\n fcb v', 'v equ n\\1\n fcb v', ' if \\1\n fcb 1\n else\n fcb 2\n endif',
                     ' if n\\1\n fcb 1\n endif', ' section n\\1\n fcb 1', ' section \\1\n fcb 1', ' section "&1"\n fcb 1', ' export n\\1', ' export \\1', ' export "&1"', 'm\\1 macro\n fcb 1\n endm', '\\1 macro\n fcb 1\n endm', ' n \\1', ' n n\\1', ' n "&1"', ' tfr \\1,y', ' pshs \\1,b', ' rmb \\1', ' rzb 2,\\1', ' org \\1\n fcb 1', ' put \\1\n fcb 1', ' setdp \\1\n lda $500', ' end \\1', ' bra \\1', ' bra n\\1',
                     '\\1 equ 5\n fcb 1', 'n\\1 set 5\n fcb n\\1', ' include "&1"', ' include \\1', ' includebin "f&1"', ' fcb (\\1)', ' fcb -\\1,!\\1,~\\1', ' fcb \\1?2:3', ' fcb \\1==\\1'):
            if v == '' and site[5:] in ('<\\1,x', '<<\\1,x', '>\\1,x'):
                # an offset both omitted and given a size
                continue
            out.append(Case([' org $40', 'st equ "q"', 'rg equ x', 'fl equ 2.5', 'n macro', ' fcb &{1}', ' endm', 'm macro', ' fcb 7'] + site.split('\n') + [' fcb 8', ' endm', '1 nop', ' m %s,3' % v, '1 nop', 'late equ 4', 'n5 equ 6', 'nab nop', 'nx equ 70', 'nq equ 9', 'n4 equ x'],
                            isa6309=False, extra=['-E', 'exp'] if 'export' in site else []))
    return out
