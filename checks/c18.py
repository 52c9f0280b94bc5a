"""C18: symbol and export files reproduce what they describe."""
import random
import re
import struct

from lib import build, core, formats, gen, isa, isacases, scale
from lib.core import Case
from checks.c09 import drive

RULE = ('Random sets of symbols of every type (integers to 64 bits, floats of any size, strings of any characters, registers with and '
        'without increments, labels, SET, in sections, files and macros) whose values the generator knows, and random macros of every directive, '
        'operator, operand and positional variable. The symbols file must list each once with its value; included in a '
        'new program it must give the same bytes through probes and the same symbols file again. An exports file must name exactly '
        'what was flagged, and a program using the exported macros and symbols through it must assemble to the same as with the '
        'original definitions. Non-trivial: a distinct set of symbols, or of exported macros and calls.')


def lit_int(r, v):
    if v < 0:
        return '(-%d-1)' % (-v - 1) if v == -2**63 else '-%d' % -v
    return r.choice(['%d', '$%x', '0x%X', '%d']) % v


CHARS = [c for c in map(chr, list(range(32, 127)) + [9, 1, 0x7f, 0x80, 0xe9, 0xff])]


def lit_str(r):
    n = r.choice([1, 1, 2, 3, 8, 30, 200])
    s = ''.join(r.choice(CHARS if r.random() < 0.5 else '&/\\"\'n1{}; ') for _ in range(n))
    d = r.choice('"/')
    t = ''
    for c in s:
        if c == d or c == '\\':
            t += '\\' + c
        elif c == '&':
            t += '&&'
        else:
            t += c
    k = r.random()
    if k < 0.1:
        t += r.choice(['\\n', '\\r'])
        s += {'n': '\n', 'r': '\r'}[t[-1]]
    return d + t + d, s


def sym_name(r, i):
    return r.choice(['s%d', '_s%d', 'S%d', 'a.b%d', 'Long_name.with.dots%d', 'x%d_', 'q%d' + 'y' * 200]) % i


def array(r, depth=0):
    """An operand in brackets, as a value: its text, and its elements."""
    k = r.random()
    if k < 0.35:
        v = r.choice([0, 1, 5, -16, 127, 128, -129, r.randrange(-32768, 65536)])
        g = r.choice(['x', 'y', 'u', 's', 'pcr', 'x', 'pc'])
        return '[%s,%s]' % (lit_int(r, v), g), [('int', v), ('reg', g)]
    if k < 0.5:
        g = r.choice(['x++', 'y', '--u', '--s', 'u++', 'x'])
        return '[,%s]' % g, [None, ('reg', g)]
    if k < 0.6:
        a, g = r.choice('abd'), r.choice('xyus')
        return '[%s,%s]' % (a, g), [('reg', a), ('reg', g)]
    if k < 0.7:
        v = r.randrange(65536)
        return '[%s]' % lit_int(r, v), [('int', v)]
    els = []
    ts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        j = r.random()
        if j < 0.5:
            t, s = lit_str(r)
            e = ('str', s)
        elif j < 0.7:
            v = r.randrange(-2**40, 2**40)
            t, e = lit_int(r, v), ('int', v)
        elif j < 0.8:
            v = r.randrange(-4000, 4000) / 8 + 0.0625
            t, e = '%.4f' % v, ('float', v)
        elif j < 0.9 and depth < 3:
            t, e = array(r, depth + 1)
            e = ('arr', e)
        else:
            g = r.choice(['x', 'd', 'cc', 'pc', '-x', 'y+'])
            t, e = g, ('reg', g)
        ts.append(t)
        els.append(e)
    return '[%s]' % ','.join(ts), els


def array_text(text):
    """The elements of an array in a symbols file."""
    t = text.strip()
    if t[:1] != '[' or t[-1:] != ']':
        return None
    out, cur, q, depth, i, t = [], '', None, 0, 0, t[1:-1]
    while i <= len(t):
        c = t[i:i + 1]
        if q:
            if c == '\\':
                cur += c + t[i + 1:i + 2]
                i += 2
                continue
            if not c:
                return None
            if c == q:
                q = None
        elif c and c in '/"':
            q = c
        elif c == '[':
            depth += 1
        elif c == ']':
            depth -= 1
        elif not c or c == ',' and not depth:
            if cur == '':
                v = None
            elif cur[0] == '[':
                v = ('arr', array_text(cur))
            else:
                v = core.sym_text(cur)
                if v[0] == 'other':
                    v = ('reg', cur.lower())
            out.append(v)
            cur = ''
            i += 1
            continue
        cur += c
        i += 1
    return out


def make_symbols(seed):
    r = random.Random(seed)
    lines = [' org $%x' % r.choice([0, 0x1000, 0x8000])]
    want = {}
    locs = 0
    files = {}
    for i in range(r.choice([1, 3, 10, 40])):
        n = sym_name(r, i)
        k = r.random()
        op = r.choice(['equ', 'equ', 'EQU', 'set'])
        if k < 0.45:
            v = r.choice([0, 1, -1, 255, 256, 65535, 65536, -32768, 2**31 - 1, 2**31, -2**31, 2**32, 2**63 - 1, -2**63, -2**63 + 1, r.randrange(-2**63, 2**63), r.randrange(-70000, 70000)])
            lines.append('%s %s %s' % (n, op, lit_int(r, v)))
            want[n] = ('int', v)
        elif k < 0.6:
            f = r.choice([0.5, 1.5, 0.1, 3.0, 100.75, 1e-5, 123456789.125, 0.333333333333, 2.0**40 + 0.5, 1e15, 1e17, 5e-324 * 2**60 if False else 0.0001, r.random(), r.random() * 10**r.randrange(0, 12), round(r.random(), 3)])
            t = '%.20f' % f
            f = float(t)
            if r.random() < 0.3:
                # not exactly representable in few digits
                t = '%s/%s' % (t, '3.0')
                f = f / 3.0
            if r.random() < 0.3:
                t = '-' + t if '/' not in t else '(-%s' % t + ')'
                f = -f
            if r.random() < 0.12:
                # the far ends of what a float can be
                e = r.choice([1, 50, 150, 290, 300, 306])
                f = 10.0 ** e * r.random()
                t = ('%.1f' if e > 15 else '%.18f') % f
                f = float(t)
                if r.random() < 0.6:
                    m = r.choice([r.randrange(1, 10**6), 1, 3])
                    t, f = '%d.0/%s' % (m, t), float(m) / f
                    if r.random() < 0.5 and f > 1e-300:
                        t, f = '%s/100000000000000000000.0' % t, f / 1e20
                elif r.random() < 0.5:
                    z = r.choice([20, 100, 300, 320])
                    t = '.%s%d' % ('0' * z, r.randrange(1, 10**9))
                    f = float(t)
            lines.append('%s %s %s' % (n, op, t))
            want[n] = ('float', f)
        elif k < 0.8:
            t, s = lit_str(r)
            lines.append('%s %s %s' % (n, op, t))
            want[n] = ('str', s)
        elif k < 0.88:
            t = r.choice(['x', 'y', 'u', 's', 'a', 'b', 'd', 'pc', 'dp', 'cc', 'pcr', 'X', 'x+', 'y++', '-u', '--s'])
            lines.append('%s %s %s' % (n, op, t))
            want[n] = ('reg', t.lower())
        elif k < 0.94:
            t, what = array(r)
            lines.append('%s %s %s' % (n, op, t))
            want[n] = ('arr', what)
        else:
            lines.append('%s fcb %d' % (n, i & 255))
            want[n] = ('label', None)
    if r.random() < 0.3:
        lines.append('1 nop')
    return Case(files={'main.s': ('\n'.join(lines) + '\n').encode('latin-1')}), want


def probes(want, syms):
    """Lines that show the values."""
    out = [' nop']
    for n in sorted(want):
        t, v = want[n]
        if t in ('int', 'label'):
            out += [' fqb %s,%s>>32' % (n, n), ' fdb %s' % n]
        elif t == 'float':
            out += [' fqb %s*1000.5' % n if abs(v) < 1e6 else ' fqb %s/1000000000000.5' % n if abs(v) < 1e18 else ' nop', ' fcb %s<0,%s==%s' % (n, n, n)]
        elif t == 'str':
            out += [' fcc %s' % n, ' fcn "<",%s,">"' % n]
        elif t == 'arr':
            if len(v) == 1 and v[0][0] == 'int' and 0 <= v[0][1] < 65536 or len(v) == 2 and v[1] is not None and v[1][0] == 'reg' and (v[0] is None or v[0][0] == 'int') and v[1][1] in ('x', 'y', 'u', 's', 'pc', 'x++', '--s', '--u', 'u++') and not (v[0] and abs(v[0][1]) > 32767 or v[0] and len(v[1][1]) > 2):
                out += [' lda %s' % n, ' leay %s' % n]
        elif v in ('x', 'y', 'u', 's'):
            out += [' leax 5,%s' % n, ' tfr d,%s' % n, ' jmp [,%s]' % n]
        elif v.strip('+-') in ('x', 'y', 'u', 's'):
            out.append(' lda ,%s' % n)
        elif v == 'pcr':
            out.append(' leax 5,%s' % n)
        elif v in ('a', 'b', 'dp', 'cc'):
            out += [' tfr a,%s' % n, ' pshs %s,x' % n]
        else:
            out += [' tfr x,%s' % n]
    return out


def symbols_job(exe):
    def f(seed):
        case, want = make_symbols(seed)
        out = {'verdict': 'ok', 'digest': case.digest()}

        def bad(k, why, c=case):
            out.update(verdict='bad', kind='symbols-' + k, why=why, case=c)
            return out
        run = core.run_tool(exe, case.files, case.args(('sym',)), ('sym',))
        if not run.clean:
            return bad('crash', 'ended with ' + run.status())
        if run.rc != 0:
            return bad('rejected', 'rejected: %s' % run.err[:300])
        syms, dup = core.parse_symbols(run.files['sym'])
        if dup or '?' in syms:
            return bad('format', 'symbols file has %r' % (dup or syms['?'])[:3])
        if set(syms) != set(want):
            return bad('set', 'symbols listed differ from those defined: %r' % sorted(set(syms) ^ set(want))[:4])
        for n, (t, v) in want.items():
            if t in ('int', 'str', 'float') and core.sym_text(syms[n]) != (t, v):
                return bad('value', '%s is listed as %r, expected %r' % (n[:20], syms[n][:80], v))
            if t == 'arr' and array_text(syms[n]) != v:
                return bad('value', '%s is listed as %r, expected %r' % (n[:20], syms[n][:80], v))
            if t == 'reg' and syms[n].strip().lower() != v:
                return bad('value', '%s is listed as %r, expected %r' % (n[:20], syms[n][:80], v))
        # the file as a source
        q = Case(files={'main.s': b' include "s.s"\n', 's.s': run.files['sym']})
        again = core.run_tool(exe, q.files, q.args(('sym',)), ('sym',))
        if again.rc != 0:
            return bad('reread', 'the symbols file is not accepted as a source: %s' % again.err[:300], q)
        if sorted(again.files['sym'].split(b'\n')) != sorted(run.files['sym'].split(b'\n')):
            a, b = run.files['sym'].split(b'\n'), again.files['sym'].split(b'\n')
            return bad('reread', 'the symbols file defines something else: %r' % sorted(set(a) ^ set(b))[:2], q)
        pr = '\n'.join(probes(want, syms)).encode('latin-1') + b'\n'
        main = case.files['main.s'] + b' org 0\n put $4000\n' + pr
        # labels were assembled below $4000 or above: keep them apart
        a = core.run_tool(exe, {'main.s': case.files['main.s'] + b' section "probe"\n org $4000\n' + pr}, ['-S', '-o', 'out', 'main.s'], ('out',))
        b = core.run_tool(exe, {'main.s': b' include "s.s"\n section "probe"\n org $4000\n' + pr, 's.s': run.files['sym']}, ['-S', '-o', 'out', 'main.s'], ('out',))
        if a.rc != 0 or b.rc != 0:
            if a.rc != b.rc:
                return bad('probe', 'probes: %s with the original definitions, %s with the file: %s%s' % (a.status(), b.status(), a.err[:200], b.err[:200]), q)
            return bad('probe', 'probes rejected: %s' % a.err[:300])
        ma = {k: v for k, v in formats.srec(a.files['out'])[0].items() if 0x4000 <= k < 0x8000}
        mb = {k: v for k, v in formats.srec(b.files['out'])[0].items() if 0x4000 <= k < 0x8000}
        if ma != mb or not ma:
            return bad('probe', 'values differ when read through the symbols file: ' + str(core.diff_mem(mb, ma)), q)
        out['extra'] = {'symbols read back': len(want), 'probe bytes equal': len(ma)}
        for t, v in want.values():
            out['extra']['symbols: ' + t] = out['extra'].get('symbols: ' + t, 0) + 1
        return out
    return f


# ---------------------------------------------------------------------------

BODY = [
    ' nop', ' lda #\\1', ' ldx #\\{1}+1', ' ldd \\1', ' leax \\1,y', ' leax <<1,x', ' lda <5,x', ' lda >5,x', ' lda <$12', ' lda >$12', ' jmp [$1234]', ' lda [5,x]', ' lda ,x+', ' ldd ,y++', ' lda ,-x', ' ldd ,--u', ' std [,x++]', ' lda a,x', ' leax d,y',
    ' leax *,pcr', ' leax *+5,pcr', ' bra *', ' bra *+\\2', ' pshs a,b,x', ' tfr a,b', ' exg x,y', ' fcb 1,2,3', ' fcb ,', ' fcb 1,,2', ' fdb -1,+1,~5,!5', ' fqb (1+2)*3-4', ' fdb 7/2,7%2,7 % %11', ' fdb 1<<3,256>>2', ' fcb 1<2,1<=2,1>2,1>=2,1==2,1!=2',
    ' fcb 5&3,5|3,5^3,1&&0,1||0', ' fcb 1?2:3,0?2:1?4:5', ' fdb 1.5*2,.25*8,-1.5', ' fdb "ab"+1,/c/+0', ' fcc "text"', ' fcc /te"xt/', ' fcc "a/b\\\\c\\"d"', ' fcc "a\\nb\\rc"', ' fcc "&&\\1"', ' fcc "x&1y"', ' fcc "&{2}&&1\\{1}"', ' fcc "{1}"', ' fcc \\3', ' fcn \\3,"&&{3}"', ' fci \\3', ' fcs "ab",\\3',
    ' fcv "hello"', ' fcb \'a,\'"', " fcb '/", ' rmb 3', ' rzb 2', ' fill 1,2', ' align 4', ' align 4,\\1', ' setdp \\1', ' if \\1', ' if \\2>5', ' else', ' elsif 1', ' endif', '1 nop', '! nop', ' bra 1b', ' bra 1f', ' bra <', ' bra >', '2', ' bne 2b', ' ldx #*', ' fdb *-2,*/2,*', ' fdb -*', ' fdb 2**',
    'lb\\2 nop', ' fdb lb\\2', 'k\\2 equ 5', ' fdb k\\2+1', 'v set \\1', ' fcb v', ' fdb \\1*\\2', ' fdb -\\1', ' fdb ~\\1&$ff', ' fdb (\\1)', ' fdb \\1?\\2:0', ' fdb k0,k0+1', ' lda k0', ' ldx #k0', ' fcc st', ' ld\\4 #5', ' \\5', ' \\5 ; comment', '; comment', '', '* comment', ' inner \\1,\\2', ' inner 7', ' section "sec"', ' code', ' data',
    ' ttl foo', ' opt', ' spc 2', ' page', ' nop ignored text', ' rts ; x', ' fdb $7fffffffffffffff', ' fdb -$7fffffffffffffff-1', ' fqb 4294967295', ' fdb 0.1*100', ' fdb 1000000.0/3', ' fcb ((((1))))', ' fcb - -1', ' fcb -(-(1))', ' fcb 1-(-1)', ' fcb 1-(2-3)', ' fcb (1-2)-3', ' fcb 8/(4/2)', ' fcb 1+2*3', ' fcb !(1&&0)', ' fcb 1&(2+1)', ' fcb 3&%11',
    ' fcb $a|@17|%101|0x1f|017|0b11', ' export k0', ' lda [>5]', ' leax -1,x', ' leax -\\1,x', ' lda #<5', ' fdb <5', ' cmpx #"ab"', ' fdb /a\\/b/', ' include "other.s"', ' includebin "other.s"', ' org *+5', ' put $9000', ' lbra *', ' orcc #$50', ' swi2', ' leay \\1,pcr', ' lda 0,x', ' lda 127,x', ' lda -128,y', ' lda (1+1),x', ' fcc "\\5"', ' fcc "\\{4}"', ' fdb \\2\\2', ' fdb a\\2b\\2c',
    ' lda <<\\1,x', ' lda [<\\1,y]', ' lda >\\1,u', ' leax <\\1,pcr', ' lda ,\\4-', ' tfm x-,y-', ' tfm \\4+,y', ' tfm x,y+', ' pshs \\4', ' lda ,-\\4', ' ldd ,--\\4', ' lda ,\\4+', ' ldd [,\\4++]', ' lbra >*', ' ldx <\\1', ' jsr >\\1', ' fdb \\1<<2,\\1>>1', ' fdb \\1<=\\2', ' fdb !\\1', ' fcb <5,>5,#5', ' m2 #\\1',
    'inner2 macro', ' endm', ' lda #1?2:3', ' fcb a?b:c', ' fdb 1 % 2', ' fdb 5&\\2', ' fdb 5&(\\2)', ' fdb 5& \\2', ' fcb "a"=="a"', ' fdb .5', ' fdb 5.', ' fcb \\1,\\2', " ldx #''", ' lda #\'\\', ' fdb _x', ' ldw #1', ' aim #1,5', ' tfm x+,y+', ' bor a,1,2,$12', ' oim #5,,x', ' lda ,w', ' adde #5', ' ldq #$12345678', ' sexw', ' lda e,x', ' pshsw', ' muld #\\1',
]


def make_exports(seed):
    r = random.Random(seed)
    is6309 = r.random() < 0.3
    defs, uses, head = [], [], []
    flagged, syms = set(), {}
    names = []
    defs += ['inner macro', ' fcb \\1', ' endm'] if r.random() < 0.7 else ['inner macro', ' fdb \\1+1', ' fcc "in"', ' endm']
    names.append('inner')
    nm = r.choice([1, 2, 4])
    if r.random() < 0.5:
        for i in range(nm):
            name = 'mac%d' % i
            n = r.choice([0, 1, 2, 5, 12])
            body = [r.choice(BODY) for _ in range(n)]
            body = fix(r, body, is6309)
            defs += ['%s %s' % (name, r.choice(['macro', 'MACRO']))] + body + [' endm']
            names.append(name)
    else:
        g = gen.Gen(r, is6309, size=1, weights={'include': 0, 'includebin': 0, 'export': 0, 'set': 0, 'end': 0, 'section': 0})
        for i in range(nm):
            o = []
            g.do_macrodef(o)
            defs += [x for x in o]
        names += [n for n, k in g.macros]
        for _ in range(r.choice([1, 3, 6])):
            g.do_macrouse(uses)
        tail = []
        for f in g.fwd:
            tail.append('%s equ %d' % (f, r.randrange(300)))
        for f in getattr(g, 'pasted', []):
            tail += ['pfx_%s equ 5' % f, '%s_sfx equ 6' % f]
        for n in g.labels:
            tail.append('%s equ 7' % n)
        uses += tail
    ks = []
    for i in range(r.choice([0, 1, 3])):
        k = 'k%d' % i
        v = r.choice([str(r.randrange(-300, 70000)), '1.5', '-0.1', '0x7fffffff'])
        ks.append('%s equ %s' % (k, v))
    if r.random() < 0.6:
        t, s = lit_str(r)
        ks.append('st equ ' + t)
    if r.random() < 0.2:
        ks.append('rg equ ' + r.choice('xyus'))
    defs = ks + defs
    names += [k.split()[0] for k in ks]
    for n in names:
        if n.startswith('mac'):
            for _ in range(r.choice([1, 1, 2])):
                a = [r.choice(['5', '$12', '-1', 'k0', '300', '*']), r.choice(['"7"', '"a"', '3', '"x1"', '12']), r.choice(['"str"', '/q"q/', '"&&"', '65']), r.choice(['"a"', '"x"', '"D"']), r.choice(['"nop"', '"rts"', '"clra"'])]
                uses.append(' %s %s' % (n, ','.join(a)))
    head = [' org $1000']
    return is6309, head, defs, uses, names


def fix(r, body, is6309):
    """Balance conditions and nested definitions."""
    out = []
    st = []
    for l in body:
        o = l.split()[:1] if l.startswith(' ') else l.split()[1:2]
        o = o[0] if o else ''
        if o == 'if':
            st.append('if')
        elif o in ('else', 'elsif'):
            if not st or st[-1] != 'if':
                continue
            if o == 'else':
                st[-1] = 'else'
        elif o == 'endif':
            if not st or st[-1] == 'm':
                continue
            st.pop()
        elif o == 'macro':
            if 'm' in st:
                continue
            st.append('m')
        elif o == 'endm':
            if not st or st[-1] != 'm':
                continue
            st.pop()
        out.append(l)
    for s in reversed(st):
        out.append(' endm' if s == 'm' else ' endif')
    return out


def flag(r, names):
    """EXPORT lines for these."""
    out = []
    ns = list(names)
    r.shuffle(ns)
    while ns:
        n = r.choice([1, 1, 2, 5])
        out.append(' %s %s' % (r.choice(['export', 'EXPORT']), ','.join(('"%s"' if r.random() < 0.2 else '%s') % x for x in ns[:n])))
        ns = ns[n:]
    return out


def exports_job(exe):
    def f(seed):
        r = random.Random(seed + 'x')
        is6309, head, defs, uses, names = make_exports(seed)
        other = b' fcb 9\n'
        three = ['-3'] if is6309 else []

        def prog(parts, extra={}):
            fs = {'main.s': ('\n'.join(parts) + '\n').encode('latin-1'), 'other.s': other}
            fs.update(extra)
            return fs
        # everything the calls need is exported
        p = prog(head + defs + uses)
        case = Case(files=p, isa6309=is6309)
        out = {'verdict': 'ok', 'digest': case.digest()}

        def bad(k, why, c=case):
            out.update(verdict='bad', kind='exports-' + k, why=why, case=c)
            return out
        a = core.run_tool(exe, p, three + ['-S', '-o', 'out', '-s', 'sym', 'main.s'], ('out', 'sym'))
        if not a.clean:
            return bad('crash', 'ended with ' + a.status())
        sub = names if r.random() < 0.6 else [n for n in names if r.random() < 0.5]
        ep = prog(head + (flag(r, sub) if r.random() < 0.3 else []) + defs + flag(r, sub))
        ecase = Case(files=ep, isa6309=is6309, extra=['-E', 'exp'])
        e = core.run_tool(exe, ep, three + ['-S', '-o', 'out', '-E', 'exp', 'main.s'], ('exp', 'out'))
        if not e.clean:
            return bad('crash', 'ended with ' + e.status(), ecase)
        if e.rc != 0:
            if b"can't export bad line" in e.err:
                out['extra'] = {'exports: bad line refused': 1}
                if e.files['exp'] is not None:
                    return bad('left', 'exports file written although refused', ecase)
                return out
            return bad('rejected', 'definitions rejected: %s' % e.err[:300], ecase)
        exp = e.files['exp']
        macs, syms, depth = core.parse_exports(exp)
        if depth:
            return bad('format', 'exports file has unbalanced macros', ecase)
        if sorted(macs + syms) != sorted(sub):
            return bad('set', 'exports file has %r, flagged %r' % (sorted(macs + syms), sorted(sub)), ecase)
        # fixed point: reading it and exporting the same gives the same set of lines
        q = prog([' include "exp"'] + flag(r, sub), {'exp': exp})
        qcase = Case(files=q, isa6309=is6309, extra=['-E', 'exp2'])
        b = core.run_tool(exe, q, three + ['-E', 'exp2', 'main.s'], ('exp2',))
        if b.rc != 0:
            return bad('reread', 'the exports file is not accepted as a source: %s' % b.err[:300], qcase)
        if sorted(b.files['exp2'].split(b'\n')) != sorted(exp.split(b'\n')):
            return bad('reread', 'the exports file defines something else: %r' % sorted(set(b.files['exp2'].split(b'\n')) ^ set(exp.split(b'\n')))[:3], qcase)
        out['extra'] = {'exports: macros': len(macs), 'exports: symbols': len(syms)}
        if set(sub) != set(names):
            return out
        q = prog(head + [' include "exp"'] + uses, {'exp': exp})
        qcase = Case(files=q, isa6309=is6309)
        b = core.run_tool(exe, q, three + ['-S', '-o', 'out', '-s', 'sym', 'main.s'], ('out', 'sym'))
        if b.rc != a.rc:
            return bad('use', '%s with the original definitions, %s with the exports file: %s / %s' % (a.status(), b.status(), a.err[:200], b.err[:200]), qcase)
        if a.rc != 0:
            out['extra']['exports: both rejected'] = 1
            return out
        if a.files['out'] != b.files['out']:
            return bad('use', 'exported macros expand to something else: ' + str(core.diff_mem(formats.srec(b.files['out'])[0], formats.srec(a.files['out'])[0])), qcase)
        if sorted(a.files['sym'].split(b'\n')) != sorted(b.files['sym'].split(b'\n')):
            return bad('use', 'symbols differ when defined by the exports file', qcase)
        out['extra']['exports: programs equal through the file'] = 1
        return out
    return f


def body_job(exe):
    """Each body line on its own, exported and used."""
    def f(item):
        i, is6309 = item
        line = BODY[i]
        r = random.Random(i)
        body = fix(r, [line], is6309)
        if not body:
            return {'verdict': 'undecided', 'why': 'line needs others'}
        three = ['-3'] if is6309 else []
        pre = [' org $1000', 'k0 equ 5', 'st equ "s&&t/u"', 'inner macro', ' fcb \\1', ' endm', '1 nop', '2 nop', '! nop']
        d = ['m macro'] + body + [' endm']
        use = [' m 9,"7","str","a","nop"', ' m 300,"8",/q"q/,"x","rts"', '1 nop', '! nop']
        tail = ['a7b7c equ 5', 'a8b8c equ 6', '_x equ 1', 'v7 set 1']
        fs = {'main.s': ('\n'.join(pre + d + use + tail) + '\n').encode(), 'other.s': b' fcb 9\n'}
        a = core.run_tool(exe, fs, three + ['-S', '-o', 'out', 'main.s'], ('out',))
        case = Case(files=fs, isa6309=is6309)
        out = {'verdict': 'ok', 'digest': case.digest()}
        es = {'main.s': ('\n'.join(d + [' export m']) + '\n').encode()}
        e = core.run_tool(exe, es, three + ['-E', 'exp', 'main.s'], ('exp',))

        def bad(k, why):
            out.update(verdict='bad', kind='body-' + k, why='macro line %r: %s' % (line, why), case=case)
            return out
        if e.rc != 0:
            if not e.clean:
                return bad('crash', 'export ended with ' + e.status())
            if b"can't export bad line" in e.err and a.rc != 0:
                return out
            return bad('rejected', 'cannot be exported: %s' % e.err[:200])
        fs2 = {'main.s': ('\n'.join(pre + [' include "exp"'] + use + tail) + '\n').encode(), 'other.s': b' fcb 9\n', 'exp': e.files['exp']}
        b = core.run_tool(exe, fs2, three + ['-S', '-o', 'out', 'main.s'], ('out',))
        if a.rc != b.rc or a.rc == 0 and a.files['out'] != b.files['out']:
            return bad('use', 'differs through the exports file %r: %s %s' % (e.files['exp'], b.status(), b.err[:200]))
        out['extra'] = {'macro lines used through the file' if a.rc == 0 else 'macro lines in error either way': 1}
        return out
    return f


def operand_macros(r, is6309, density):
    """Macros of valid instruction lines, as they are, with numbers replaced by
    an argument, and with numbers replaced by a symbol."""
    ops = isa.OPS_6309 if is6309 else isa.OPS_6809
    lines = []
    for n, a in isacases.positives(r, ops, sorted(ops), is6309, density):
        if 'nearby' in a or 'undefined' in a:
            continue
        lines.append(' %s %s' % (n, a))
        k = ops[n.lower()]['k']
        if k in ('rel8', 'pair', 'bit'):
            continue
        if re.search(r'\d', a) and not re.search(r'["/\'.]', a):
            lines.append(' %s %s' % (n, re.sub(r'(?<![\w$])[$@%]?[0-9][0-9a-fA-F]*', lambda m: r.choice(['\\1', '\\{1}', '&{1}']), a)))
            lines.append(' %s %s' % (n, re.sub(r'(?<![\w$])[$@%]?[0-9][0-9a-fA-F]*', 'k0', a)))
    for a in isacases.INDEXED + isacases.ADDR + (isacases.INDEXED_W if is6309 else []):
        for n in ('lda', 'leax' if a in isacases.INDEXED else 'jsr'):
            lines.append(' %s %s' % (n, a))
            if not re.search(r'["/\'.]', a):
                lines.append(' %s %s' % (n, re.sub(r'(?<![\w$])[$@%]?[0-9][0-9a-fA-F]*', '\\\\1', a)))
    r.shuffle(lines)
    return [(lines[i:i + 20], is6309) for i in range(0, len(lines), 20)]


def operand_job(exe):
    def f(item):
        lines, is6309 = item
        three = ['-3'] if is6309 else []
        out = {'verdict': 'ok', 'digest': Case(lines).digest()}
        pre = [' org $1000', 'k0 equ 5', 'sym equ $1234']
        post = ['fwd equ $12']

        def prog(mid, files={}):
            return dict({'main.s': ('\n'.join(pre + mid + post) + '\n').encode()}, **files)
        # leave out what isn't accepted (a replaced number may be out of range)
        good = list(lines)
        a = core.run_tool(exe, prog(['m macro'] + good + [' endm', ' m 5']), three + ['-S', '-o', 'out', 'main.s'], ('out',))
        if a.rc != 0:
            good = [l for l in lines if core.run_tool(exe, prog(['m macro', l, ' endm', ' m 5']), three + ['-S', 'main.s'], ()).rc == 0]
            a = core.run_tool(exe, prog(['m macro'] + good + [' endm', ' m 5']), three + ['-S', '-o', 'out', 'main.s'], ('out',))
            if a.rc != 0 or not good:
                return {'verdict': 'undecided', 'why': 'lines not accepted together'}
        case = Case(files=prog(['m macro'] + good + [' endm', ' export m', ' m 5']), isa6309=is6309, extra=['-E', 'exp'])

        def bad(k, why):
            out.update(verdict='bad', kind='operands-' + k, why=why, case=case)
            return out
        e = core.run_tool(exe, case.files, three + ['-S', '-E', 'exp', '-o', 'out', 'main.s'], ('exp', 'out'))
        if e.rc != 0:
            return bad('rejected', 'cannot be exported: %s' % e.err[:200])
        b = core.run_tool(exe, prog([' include "exp"', ' m 5'], {'exp': e.files['exp']}), three + ['-S', '-o', 'out', 'main.s'], ('out',))
        if b.rc != 0 or b.files['out'] != a.files['out']:
            el = e.files['exp'].decode('latin-1').split('\n')[1:]
            for l, x in zip(good, el):
                u, v = [core.run_tool(exe, prog(['m macro', y, ' endm', ' m 5']), three + ['-S', '-o', 'out', 'main.s'], ('out',)) for y in (l, x)]
                if u.files['out'] != v.files['out']:
                    return bad('use', 'macro line %r is exported as %r: %s %s' % (l, x, v.status(), v.err[:200]))
            return bad('use', 'an exported macro assembles to something else: %s %s' % (b.status(), b.err[:200]))
        out['extra'] = {'instruction lines used through the file': len(good)}
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    ctx.sample(make_symbols(base + '0')[0].files['main.s'].decode('latin-1')[:400])
    ctx.sample(make_exports(base + '1')[2][:20])
    drive(ctx, symbols_job(exe), [base + 's%d' % i for i in range(ctx.n(700, 12000))], 'sym')
    drive(ctx, exports_job(exe), [base + 'e%d' % i for i in range(ctx.n(1000, 20000))], 'exp')
    drive(ctx, body_job(exe), [(i, b) for i in range(len(BODY)) for b in (False, True)], 'line')
    om = [m for b in (False, True) for m in operand_macros(ctx.rng, b, ctx.n(0.1, 1.0))]
    drive(ctx, operand_job(exe), om, 'operands')
    core.campaign(ctx, exe, scale.names() + [scale.symbols(3000), scale.exports(300), scale.exports(ctx.n(3000, 30000))], ('status', 'symbols'), 'large')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(600, 12000), weights={'equ': 20, 'set': 8, 'label': 15, 'export': 5, 'section': 3}, nonascii=True),
                  ('status', 'symbols'), 'random')
    small = [
        [' export foo'], ['foo equ 5', ' export foo,foo', ' export foo'], ['foo equ 5', ' export'], [' export 5'], [' export "a b"'], ['foo equ 5', ' export Foo'], ['foo macro', ' nop', ' endm', ' export foo', 'foo equ 5'],
        [' export foo', 'foo equ 5'], [' if 0', ' export foo', ' endif'], ['foo nop', ' export foo'], ['foo macro', ' fcb @', ' endm', ' export foo'], ['foo equ *', ' export foo'], ['foo set 1', ' export foo', 'foo set 2'],
        ['foo equ bar', 'bar equ 3', ' export foo'], ['m macro', ' export \\1', ' endm', 'foo equ 5', ' m "foo"'], [' export x'], [' export "foo"', 'foo equ 1.5'], ['foo equ x', ' export foo'], ['foo equ [1,2]', ' export foo'], ['foo equ [1,2]'], ['foo equ [later]', ' lda foo', 'later equ $1234'], ['foo equ [5,x]', ' export foo', ' leax foo', 'bar equ ["s",,[1]]', 'baz set [y]', ' jmp baz'], ['foo equ [foo]'],
    ]
    core.campaign(ctx, exe, [Case(s, extra=x) for s in small for x in ([], ['-E', 'exp'])], ('status', 'image', 'symbols'), 'small')
