"""C23: equivalent spellings of a program assemble identically."""
import itertools
import random
import re

from lib import build, core, formats, isa, isacases, model, respell
from lib.core import Case
from checks.c09 import drive

RULE = ('Metamorphic: random programs (with macros, included files, sections, all directives) and the systematic table of every mnemonic '
        'and operand kind are rewritten line by line - letter case of mnemonics, directives and registers, blanks and tabs between and '
        'after fields and between operators, inserted and changed comments, number bases, string delimiters, LF / CR LF / mixed and missing '
        'last newline - and must give the same exit status, image, EXEC address and symbols. Case sensitivity of symbol and macro names '
        'and absence of limits are tested with constructed programs of known result (names in every combination of case; lines, '
        'tokens, strings and files up to hundreds of kilobytes or hundreds of thousands of lines). Non-trivial: a distinct pair.')

OUT = ('out', 'sym')


def facts(run):
    """What was assembled, as comparable things."""
    if run.rc != 0:
        return ('rejected',)
    syms = sorted((run.files['sym'] or b'').split(b'\n'))
    return ('assembled', run.files['out'], syms)


def names_of_macros(files):
    out = set()
    for d in files.values():
        for m in re.finditer(rb'^(\S+)[ \t]+macro\b', d, re.I | re.M):
            out.add(m.group(1).decode('latin-1'))
    return out


def judge(exe, case, r, extra, what=None):
    """Run a case and respelled versions of it: None or (kind, why, case)."""
    ref = core.run_tool(exe, case.files, case.args(('out', 'sym')), OUT)
    if not ref.clean:
        return ('crash', 'ended with ' + ref.status(), case)
    keep = names_of_macros(case.files)
    want = facts(ref)
    for _ in range(3):
        rs = respell.Respell(r, keep, what)
        files = {k: rs.text(v) if k.endswith('.s') else v for k, v in case.files.items()}
        c2 = Case(files=files, mains=case.mains, isa6309=case.isa6309, defines=case.defines, setdp=case.setdp, exec_opt=case.exec_opt,
                  max_passes=case.max_passes, fmt=case.fmt, extra=case.extra)
        run = core.run_tool(exe, c2.files, c2.args(('out', 'sym')), OUT)
        if run.timeout:
            extra['no answer'] = extra.get('no answer', 0) + 1
            continue
        got = facts(run)
        for k, n in rs.n.items():
            extra['changed: ' + k] = extra.get('changed: ' + k, 0) + n
        extra['pairs compared'] = extra.get('pairs compared', 0) + 1
        extra['pairs ' + want[0]] = extra.get('pairs ' + want[0], 0) + 1
        if got != want:
            why = 'spelled differently (%s) it is %s, not %s' % (', '.join(sorted(rs.on)), got[0], want[0])
            if got[0] == want[0]:
                if got[1] != want[1]:
                    i = next((i for i, (a, b) in enumerate(zip(got[1], want[1])) if a != b), -1)
                    why = 'spelled differently (%s) the output differs from byte %d' % (', '.join(sorted(rs.on)), i)
                else:
                    why = 'spelled differently, symbols are %s, not %s' % (sorted(set(got[2]) - set(want[2]))[:3], sorted(set(want[2]) - set(got[2]))[:3])
            else:
                why += ': ' + (run.err if run.rc else ref.err)[:300].decode(errors='replace')
            for k in case.files:
                c2.files['original/' + k] = case.files[k]
            return ('spelling', why, c2)
    return None


def job(exe, kw):
    def f(seed):
        r = random.Random(seed + 'r')
        case = core.make_random(seed, kw) if isinstance(seed, str) else seed
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        bad = judge(exe, case, r, out['extra'])
        if bad:
            out.update(verdict='bad', kind=bad[0], why=bad[1], case=bad[2])
        return out
    return f


def job_table(exe, cases, seed):
    def f(i):
        case = cases[i][0](*cases[i][1:]) if isinstance(cases[i], tuple) else cases[i]
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        bad = judge(exe, case, random.Random('%s/%d' % (seed, i)), out['extra'])
        if bad:
            out.update(verdict='bad', kind=bad[0], why=bad[1], case=bad[2])
        return out
    return f


# ---------------------------------------------------------------------------

def word_cases():
    """Every mnemonic and directive in lower, upper and alternating case."""
    out = []
    table = isacases.positives(random.Random(1), isa.OPS_6309, sorted(isa.OPS_6309), True, 0.02)
    first = {}
    for ln in table:
        op, arg = ln
        first.setdefault(op.lower(), (op + ' ' + arg).strip())
    dirs = ['k equ 5', 'k set 5', ' org $1234', ' put $4321', ' rmb 3', ' align 8,1', ' section "t"', ' setdp 0', ' include "inc.s"', ' lib "inc.s"',
            ' includebin "inc.b"', ' export l1', ' end 5', ' fcb 1', ' fcc "a"', ' fcn "a"', ' fcs "a"', ' fcv "a"', ' fci "a"', ' fdb 1', ' fqb 1',
            ' fill 1,2', ' rzb 2', ' zmb 2', ' bsz 2', ' fzb 2', ' page', ' spc', ' nam x', ' name x', ' opt x', ' ttl x', ' sttl x']
    lines = [' ' + v for v in first.values()] + dirs
    for ln in lines:
        m = re.match(r'^(\S*\s+)(\S+)(.*)$', ln)
        pre, op, rest = m.groups()
        alt = ''.join(c.upper() if i % 2 else c for i, c in enumerate(op.lower()))
        out.append(['l1 nop\n' + pre + o + rest + '\n lda $45\nsym equ 5\nfwd equ $1234\n' for o in (op.lower(), op.upper(), op.capitalize(), alt)])
    for grp in ((' if 1\n fcb 1\n elsif 1\n fcb 2\n else\n fcb 3\n endif\n',), (' if 0\n fcb 1\n elsif 1\n fcb 2\n else\n fcb 3\n endif\n',),
                (' if 0\n fcb 1\n elsif 0\n fcb 2\n else\n fcb 3\n endif\n',), ('m1 macro\n fcb 1\n endm\n m1\n',)):
        s = grp[0]
        vs = [s]
        for w in ('if', 'elsif', 'else', 'endif', 'macro', 'endm'):
            vs.append(re.sub(r'(?<= )%s\b' % w, w.upper(), s))
            vs.append(re.sub(r'(?<= )%s\b' % w, w.capitalize(), s))
        vs.append(re.sub(r'(?<= )(if|elsif|else|endif|macro|endm)\b', lambda m: m.group().upper(), s))
        out.append(vs)
    # registers, in every position
    for a in ('a,b', 'd,x', 'y,u', 's,pc', 'cc,dp', 'e,f', 'w,v', 'pc,d'):
        for op in ('tfr', 'exg'):
            out.append([' %s %s\n' % (op, v) for v in (a, a.upper(), a.capitalize(), a.swapcase().title())])
    for a in (',x', '5,y', 'a,u', 'b,s', 'd,x', 'e,x', 'f,y', 'w,u', ',x+', ',y++', ',-u', ',--s', ',w', ',w++', ',--w', '5,w', '5,pcr', '5,pc', '[5,pcr]', '[,x++]', '[d,y]'):
        out.append([' lda %s\n' % v for v in (a, a.upper())])
        out.append([' leau %s\n' % v for v in (a, a.upper())])
    for a in ('cc,a,b,d,dp,x,y,u,pc', 'cc', 'x,pc'):
        out.append([' pshs %s\n' % v for v in (a, a.upper(), a.title())])
        out.append([' pulu %s\n' % v.replace('u', 's').replace('U', 'S') for v in (a, a.upper())])
    return out


def job_words(exe, groups):
    def f(i):
        out = {'verdict': 'ok', 'digest': 'words%d' % i, 'extra': {}}
        want = None
        for s in groups[i]:
            files = {'main.s': s.encode(), 'inc.s': b' fcb 7\n', 'inc.b': b'\x01\x02'}
            case = Case(files=files, isa6309=True)
            run = core.run_tool(exe, files, case.args(('out', 'sym')), OUT)
            got = facts(run)
            out['extra']['words spelled'] = out['extra'].get('words spelled', 0) + 1
            if want is None:
                want = got
                if run.rc != 0:
                    out.update(verdict='bad', kind='rejected', why='%r is rejected: %s' % (s, run.err[:200]), case=case)
                    return out
            elif got != want:
                out.update(verdict='bad', kind='case', why='%r and %r differ: %s' % (groups[i][0], s, run.err[:200]), case=case)
                return out
        return out
    return f


def case_programs(r):
    """(lines, bytes) where names differ only in case."""
    out = []
    for base in ('foo', 'ab', 'label_x', 'k.q'):
        al = [i for i, c in enumerate(base) if c.isalpha()][:4]
        names = []
        for bits in itertools.product((0, 1), repeat=len(al)):
            s = list(base)
            for i, b in zip(al, bits):
                if b:
                    s[i] = s[i].upper()
            names.append(''.join(s))
        vals = {n: r.randrange(65536) for n in names}
        d = ['%s equ %d' % kv for kv in vals.items()]
        u = r.sample(names, len(names)) * 2
        body = [' fdb %s' % n for n in u]
        b = b''.join(vals[n].to_bytes(2, 'big') for n in u)
        out += [(d + body, b), (body + d, b)]
        out.append((['%s set %d' % kv for kv in vals.items()] + body, b))
        # labels
        out.append(([' org $100'] + ['%s nop' % n for n in names] + [' fdb %s' % n for n in u],
                    b'\x12' * len(names) + b''.join((0x100 + names.index(n)).to_bytes(2, 'big') for n in u)))
        # macros
        ms = []
        for n in names:
            ms += ['%s macro' % n, ' fdb %d' % vals[n], ' endm']
        out.append((ms + [' %s' % n for n in u], b))
        # sections
        ls = []
        for i, n in enumerate(names):
            ls += [' section "%s"' % n, ' org $%x' % (0x1000 + 16 * i), 'at%d fdb %d' % (i, vals[n])]
        ls += [' section "%s"\n fdb %d' % (n, i) for i, n in enumerate(names)]
        out.append((ls, [(0x1000 + 16 * i + j, x) for i, n in enumerate(names) for j, x in enumerate(vals[n].to_bytes(2, 'big') + i.to_bytes(2, 'big'))]))
        # only another case is defined
        for i in range(len(names)):
            o = names[(i + 1) % len(names)]
            out.append((['%s equ 1' % o, ' fcb %s' % names[i]], None))
            out.append((['%s macro' % o, ' nop', ' endm', ' %s' % names[i]], None))
            out.append((['%s macro' % o, ' fcb 1', ' endm', '%s macro' % names[i], ' fcb 2', ' endm', ' %s' % o, ' %s' % names[i]], b'\x01\x02'))
    return out


def scale_programs(n):
    """(name, files, bytes or None for rejection, case options)."""
    out = []

    def add(name, text, data):
        out.append((name, text if isinstance(text, bytes) else text.encode('latin-1'), data))
    for k in (255, 256, 257, 1000, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 200000, n):
        add('comment line of %d' % k, ' fcb 1\n;%s\n fcb 2\n' % ('c' * k), b'\1\2')
        add('star line of %d' % k, ' fcb 1\n*%s\n fcb 2\n' % ('* ' * (k // 2)), b'\1\2')
        add('end comment of %d' % k, ' fcb 1 ;%s\n fcb 2\n' % ('c' * k), b'\1\2')
        add('blanks of %d' % k, '%sfcb%s1%s\n%s\n fcb 2%s' % (' ' * k, '\t' * k, ' ' * k, ' ' * k, ' ' * k), b'\1\2')
        add('label of %d' % k, '%s equ 5\n%s equ 6\n fcb %s,%s\n' % ('L' * k, 'L' * (k - 1) + 'M', 'L' * k, 'L' * (k - 1) + 'M'), b'\5\6')
        add('number of %d digits' % k, ' fcb %s,$%s,%%%s,@%s\n' % ('0' * k + '7', '0' * k + 'a', '0' * k + '101', '0' * k + '11'), b'\7\x0a\5\x09')
        if k < 65536:
            add('string of %d' % k, ' fcc "%s"\n fcb 1\n' % ('z' * (k - 1)), b'z' * (k - 1) + b'\1')
        if k <= 16385:
            add('%d arguments' % k, ' fcb ' + ','.join(str(i & 255) for i in range(k)) + '\n', bytes(i & 255 for i in range(k)))
            k < 2000 and add('%d terms' % k, ' fqb ' + '+'.join(['1'] * k) + '\n', k.to_bytes(4, 'big'))
            add('macro name of %d' % k, '%s macro\n fcb \\1\n endm\n %s 9\n' % ('m' * k, 'm' * k), b'\x09')
            add('section name of %d' % k, ' section "%s"\n fcb 1\n section "%s"\n fcb 2\n section "%s"\n fcb 3\n' % ('s' * k, 's' * (k - 1) + 't', 's' * k),
                b'\1\3\2')
            add('%d macro arguments' % k, 'm1 macro\n fcb \\{%d},\\{1}\n endm\n m1 %s\n' % (k, ','.join(str(i & 127) for i in range(k))), bytes([(k - 1) & 127, 0]))
            add('macro string of %d' % k, 'm1 macro\n fcc "&1"\n endm\n m1 "%s"\n' % ('q' * k), b'q' * k)
            add('pasted name of %d' % k, 'm1 macro\n fcb a\\1\n endm\n m1 "%s"\na%s equ 3\n' % ('q' * k, 'q' * k), b'\3')
            add('macro body of %d lines' % k, 'm1 macro\n' + ' fcb \\1\n' * k + ' endm\n m1 4\n', b'\4' * k)
            add('local labels %d' % k, ''.join('1 fcb 0\n bra 1b\n' for _ in range(min(k, 16384))), (b'\0\x20\xfd') * min(k, 16384))
            add('%d symbols' % k, ''.join('s%d equ %d\n' % (i, i & 255) for i in range(k)) + ' fcb s0,s%d\n' % (k - 1), bytes([0, (k - 1) & 255]))
            add('%d parts of a string' % k, ' fcc "%s"\n' % ('\\"/' * k if k < 20000 else ''), b'"/' * k)
        add('%d lines' % k, '\n' * k + ' fcb 1\n' + '; c\n' * k + ' fcb 2\n', b'\1\2')
    for k in (1, 7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 200, 254, 255, 256, 511, 1023):
        # many names alike to the last characters, or but for one in the middle
        p = 'p' * k
        add('names alike for %d' % k, ''.join('%s%d equ %d\n' % (p, i, i) for i in range(1000)) + ''.join(' fdb %s%d\n' % (p, i) for i in range(1000)),
            b''.join(i.to_bytes(2, 'big') for i in range(1000)))
        add('names alike after %d' % k, ''.join('n%d%s equ %d\n' % (i, p, i) for i in range(1000)) + ''.join(' fdb n%d%s\n' % (i, p) for i in range(1000)),
            b''.join(i.to_bytes(2, 'big') for i in range(1000)))
        add('macros alike for %d' % k, ''.join('%s%d macro\n fdb %d\n endm\n' % (p, i, i) for i in range(300)) + ''.join(' %s%d\n' % (p, i) for i in range(300)),
            b''.join(i.to_bytes(2, 'big') for i in range(300)))
    for k in (10, 100, 1000):
        add('%d brackets' % k, ' fcb ' + '(' * k + '5' + ')' * k + '\n', b'\5')
        add('%d unary operators' % k, ' fcb ' + '-~' * k + '5\n', bytes([(5 + k) & 255]))
    for k in (1, 2, 10, 100, 1000):
        s = ''.join(' if 1\n' for _ in range(k)) + ' fcb 1\n' + ''.join(' else\n fcb 9\n endif\n' for _ in range(k))
        add('%d conditions' % k, s, b'\1')
    return out


def job_made(exe, progs):
    def f(i):
        name, text, want = progs[i]
        case = Case(files={'main.s': text})
        out = {'verdict': 'ok', 'digest': '%d%s' % (i, name), 'extra': {}}
        run = core.run_tool(exe, case.files, case.args(('out',)), ('out',), cpu=120, wall=400)
        if run.timeout:
            return {'verdict': 'undecided', 'why': 'no answer in time', 'case': None}
        why = None
        if not run.clean:
            why = 'ended with ' + run.status()
        elif want is None:
            if run.rc == 0:
                why = 'accepted'
        elif run.rc != 0:
            why = 'rejected: ' + run.err[:300].decode(errors='replace')
        else:
            mem = formats.srec(run.files['out'])[0]
            w = dict(want) if isinstance(want, list) else None
            if w is None:
                base = min(mem) if mem else 0
                w = {base + j: b for j, b in enumerate(want)}
            d = core.diff_mem(mem, w)
            if d:
                why = 'bytes differ ' + d
        if why:
            case.files['main.s'] = text[:2000000]
            out.update(verdict='bad', kind='limit' if want is not None else 'accepted', why='%s: %s' % (name, why), case=case)
            return out
        out['extra']['constructed programs'] = 1
        out['extra']['bytes of source'] = len(text)
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    kw = {'sizes': (3, 6, 10, 20, 40, 80), 'opts': True, 'weights': {'include': 3, 'macrouse': 6, 'macrodef': 3, 'data': 14}}
    c = core.make_random(base + '0', kw)
    rs = respell.Respell(random.Random(base), names_of_macros(c.files), {'case', 'space', 'comment', 'base', 'delim', 'eol', 'arg space'})
    ctx.sample({'original': c.files['main.s'][:500].decode('latin-1'), 'respelled': rs.text(c.files['main.s'])[:700].decode('latin-1')})
    drive(ctx, job(exe, kw), [base + str(i) for i in range(ctx.n(1500, 30000))], 'random')
    drive(ctx, job(exe, dict(kw, nonascii=True, errors=0.02)), [base + 'e%d' % i for i in range(ctx.n(300, 5000))], 'random')
    for is6309 in (False, True):
        ops = isa.OPS_6309 if is6309 else isa.OPS_6809
        for rep in range(ctx.n(1, 5)):
            pos = isacases.positives(r, ops, sorted(ops), is6309, ctx.n(0.3, 1.0))
            cases = isacases.programs(r, pos, is6309, chunk=40)
            drive(ctx, job_table(exe, cases, '%st%d%d' % (base, is6309, rep)), range(len(cases)), 'table')
    groups = word_cases()
    drive(ctx, job_words(exe, groups), range(len(groups)), 'words')
    progs = [('names differing in case %d' % i, '\n'.join(ls).encode() + b'\n', b) for i, (ls, b) in enumerate(case_programs(r))]
    drive(ctx, job_made(exe, progs), range(len(progs)), 'case')
    progs = scale_programs(ctx.n(300000, 5000000))
    drive(ctx, job_made(exe, progs), range(len(progs)), 'scale')
    ctx.evaluations += ctx.counts.get('pairs compared', 0)
