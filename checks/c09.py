"""C09: symbols resolve to one consistent value, or assembly fails."""
import random
import re

from lib import build, core, formats, isa, isacases, scale
from lib.core import Case

RULE = ('Random networks of labels, EQU and SET symbols defined in random order (forward and back references, chains of '
        'every depth up to the pass limit, values that decide the sizes between labels, cycles, duplicates, missing '
        'definitions, redefinition across files, macros and options). From a successful run, the symbols file, the '
        'addresses the bytes of each marked line were loaded at, and the value every reference assembled to are '
        'cross-checked against each other with no model; each program is also compared with the model. Non-trivial: a '
        'distinct program with at least one reference checked.')


def make_net(seed):
    """Definitions shuffled; every symbol is referenced in several places; each
    label is marked by a unique byte pair in the output."""
    r = random.Random(seed)
    n = r.choice([2, 5, 10, 30, 80, 150])
    names = ['%s%d' % (r.choice(['Sym', 'sym', 'SYM', '_', 'a_b.c']), i) for i in range(n)]
    kinds = {}
    val = {}
    order = list(range(n))
    r.shuffle(order)
    defs = {}
    labels = []
    # value dependencies only go down a random order, so there is a fixed point
    depth = {}
    for pos, i in enumerate(order):
        k = r.random()
        if k < 0.35:
            kinds[i] = 'label'
            labels.append(i)
            depth[i] = 1
        elif k < 0.55 or pos == 0:
            kinds[i] = 'const'
            v = r.randrange(0, 65536)
            defs[i] = '%s equ %d' % (names[i], v)
            val[i] = v
            depth[i] = 0
        else:
            d = order[r.randrange(pos)]
            if depth[d] > 7:
                d = order[0] if kinds[order[0]] == 'const' else d
            if depth[d] > 7:
                kinds[i] = 'const'
                val[i] = 7
                depth[i] = 0
                defs[i] = '%s equ 7' % names[i]
                continue
            kinds[i] = 'expr'
            c = r.randrange(-5, 6)
            defs[i] = '%s equ %s%+d' % (names[i], names[d], c)
            depth[i] = depth[d] + 1
            val[i] = (d, c)
    org = r.choice([0x1000, 0x100, 0x4000])
    body = []
    mark = []
    eq = list(defs.values())
    r.shuffle(eq)
    lab = list(labels)
    r.shuffle(lab)
    items = [('d', e) for e in eq] + [('l', i) for i in lab] + [('u', r.randrange(n)) for _ in range(2 * n)]
    r.shuffle(items)
    src = [' org $%x' % org]
    uses = []
    for t, x in items:
        if t == 'd':
            src.append(x)
        elif t == 'l':
            src.append('%s fdb %s' % (names[x], names[x]) if r.random() < 0.7 else '%s' % names[x])
            if src[-1] == names[x]:
                src.append(' fdb %s' % names[x])
            uses.append(x)
        else:
            src.append(' fdb %s' % names[x])
            uses.append(x)
            if r.random() < 0.3:
                # something whose size depends on a symbol
                src.append(' lda %s' % names[x])
                uses.append(('skip', x))
    return Case(src), names, kinds, val, uses, lab, org


def job_net(exe):
    def f(seed):
        case, names, kinds, val, uses, labels, org = make_net(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols'))
        out = core.trim(res)
        if res['verdict'] == 'undecided':
            return out
        run = res['run']

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if run.rc != 0:
            if res['verdict'] == 'bad':
                return out
            out['extra'] = {'rejected networks': 1}
            return out
        mem = formats.srec(run.files['out'])[0]
        syms, dup = core.parse_symbols(run.files['sym'])
        v = {}
        for i, nme in enumerate(names):
            if nme not in syms:
                return bad('missing', '%s is not in the symbols file' % nme)
            v[i] = core.sym_text(syms[nme])[1]
        # definitions hold between the final values
        for i, d in val.items():
            w = d if isinstance(d, int) else v[d[0]] + d[1]
            if v[i] != w:
                return bad('definition', '%s is %r but its definition gives %r' % (names[i], v[i], w))
        # references and labels agree with where bytes were loaded
        a = org
        n = 0
        it = iter(labels)
        lines = case.files['main.s'].decode().split('\n')[1:]
        ui = iter(uses)
        for ln in lines:
            w = ln.split()
            if not w or 'equ' in w:
                continue
            if not ln.startswith(' '):
                i = names.index(w[0])
                if v[i] != a:
                    return bad('label', 'label %s is %r but its line was assembled at %#x' % (names[i], v[i], a))
                n += 1
                w = w[1:]
                if not w:
                    continue
            x = next(ui)
            if w[0] == 'fdb':
                i = names.index(w[1])
                got = mem.get(a, 0) << 8 | mem.get(a + 1, 0)
                if got != v[i] & 0xffff:
                    return bad('reference', 'a reference to %s at $%04X is %#x, its value is %r' % (names[i], a, got, v[i]))
                a += 2
                n += 1
            else:
                # lda: direct page isn't assumed, so extended
                got = mem.get(a + 1, 0) << 8 | mem.get(a + 2, 0)
                i = names.index(w[1])
                if got != v[i] & 0xffff:
                    return bad('reference', 'operand %s at $%04X is %#x, its value is %r' % (names[i], a, got, v[i]))
                a += 3
                n += 1
        if res['verdict'] == 'ok':
            out['extra'] = {'references and labels cross-checked': n, 'bytes': len(mem)}
        return out
    return f


def make_settle(seed):
    """Labels move in a late pass, and what depends on them follows through
    symbols of every type, each defined before what it depends on, so that a
    change that goes unnoticed leaves something behind."""
    r = random.Random(seed)
    late = r.randrange(1, 6)
    src = []
    fdb = []

    def use(n, t):
        if t == 'num':
            return r.choice([' fdb %s*8', ' fqb %s', ' fcb %s', ' ldx #%s', ' lda %s', ' leax %s,y', ' fdb %s>>1', ' rmb %s&3', ' fdb %s==1', ' jmp [%s]', ' ldb #%s*4', ' fcb %s?1:2', 'q%d equ %%s+1' % r.randrange(10**6), 'q%d set %%s' % r.randrange(10**6)]) % n
        if t == 'str':
            return r.choice([' fcc %s', ' fcn %s', ' fdb %s==%s' % (n, n) + ',%s==%s', ' fcs %s,1', ' fcc %s,%s'])  .replace('%s', n)
        if t == 'reg':
            return r.choice([' lda ,%s', ' lda ,%s', ' ldx [,%s]', ' leax 5,%s', ' lda 1,%s', ' tfr %s,d', ' exg x,%s']).replace('%s', n)
    # v0 depends on v1 depends on ... depends on a label
    chain = []
    n = r.choice([1, 1, 2, 3, 4])
    t = 'num'
    src.append(r.choice(['v%d equ l1', 'v%d equ l1/4', 'v%d equ l1/3', 'v%d equ l1-$100', 'v%d equ l2-l1', 'v%d equ -l1', 'v%d equ l1<<40', 'v%d equ l1*0.01', 'v%d equ l2', 'v%d equ l1*$100000001', 'v%d equ l1+0.5']) % n)
    for i in range(n - 1, -1, -1):
        s = 'v%d' % (i + 1)
        if t == 'num':
            k = r.random()
            if k < 0.12:
                f, t = '%s>v1x?"ab":"cd"', 'str'
                f = f.replace('v1x', str(r.choice([0x100, 0x101, 0x102, 0x40, 7])))
            elif k < 0.2:
                f, t = '%%s>%d?rx:ry' % r.choice([0x100, 0x101, 0x102, 0x40]), 'reg'
            else:
                f = r.choice(['%s', '%s/2', '%s*0.25', '%s*8', '%s+0.125', '%s-1', '%s>$100', '%s&1', '!%s', '-%s', '%s%3', '%s/1000', '%s*%s', '%s<<56', '%s==257', '%s!=%s', '~%s', '%s||0'])
        elif t == 'str':
            f, t = r.choice([('%s', 'str'), ('%s+0', 'num'), ('%s==%s', 'num'), ('%s', 'str')])
        else:
            f = '%s'
        src.append('v%d equ %s' % (i, f.replace('%s', s)))
        chain.append((i, t))
    src.reverse()
    types = dict(chain)
    types[n] = 'num'
    us = [use('v%d' % i, types[i]) for i in r.choices(sorted(types), k=r.choice([1, 2, 4]))]
    if r.random() < 0.3:
        src = src + us
    else:
        src = us + src
    pos = r.randrange(len(src) + 1)
    mid = [r.choice([' rmb c1', ' rmb c1*2', ' fill 9,c1', ' org $100+c1', ' align c1*4', ' rzb c1', ' if c1==%d\n nop\n endif' % r.randrange(3), ' fcb 1\n rmb c1']), 'l1 fcb 0', ' rmb c1', 'l2 nop']
    if r.random() < 0.5:
        src = src + mid
    else:
        src[pos:pos] = mid
    src += ['c%d equ c%d%s' % (i, i + 1, r.choice(['', '', '+1'])) for i in range(1, late)] + ['c%d equ %d' % (late, r.choice([1, 2, 3, 5, 8]))]
    opts = {'max_passes': r.choice([None, None, None, late + 1, late + 2, late + n + 1, late + n + 2])}
    if opts['max_passes'] is not None:
        opts['max_passes'] = max(2, opts['max_passes'])
    inc = r.choice(['', '', '+', '++'])
    dec = '' if inc else r.choice(['', '', '-', '--'])
    rx, ry = 'rx equ %sx%s' % (dec, inc), 'ry equ %s' % r.choice(['y', 'y', 'x', 'x+', '--x', 'x++'])
    src[:0] = [' org $100', rx, ry] if r.random() < 0.5 else [' org $100', ry, rx]
    return Case('\n'.join(src).split('\n'), **{k: v for k, v in opts.items() if v})


REGS = ['x', 'y', 'x+', 'x++', '-x', '--x', 'y+', '--y', 'u', 'u++']
NUMS = ['1', '1', '$100', '$ff', '-1', '1.5', '0.5', '1.25', '$100000001', '1<<40', '257', '"ab"', '"a"', 'zz']
ARRS = ['[5,x]', '[6,x]', '[5,y]', '[$1000]', '[$1001]', '[,x++]', '[,--x]', '[d,x]', '[,y]', '[here]', '[here,pcr]', '[zz,x]', '[zz+1,x]', '[1.5,x]', '[0,x]', '[$1000,x]', '[zz]', '[here,x]', '[5]', '[$1000,y]']
STRS = ['"ab"', '"ac"', '"a"', '"abcdefghijklmnopqrstuvwxyz0123456789"', '"abcdefghijklmnopqrstuvwxyz012345678!"', '5', 'zs']


def make_alter(seed):
    """A symbol (or several) gets one value in the first passes and another in
    later ones, the two differing as little as possible, and is used before
    and after, directly and through others."""
    r = random.Random(seed)
    src = [' org $1000']
    if r.random() < 0.6:
        src += ['zz equ 1', 'zs equ "ab"']
    late = r.randrange(0, 4)
    last = 'g%d' % late
    defs, uses = [], []
    for i in range(r.choice([1, 1, 2])):
        t = r.choice(['reg', 'reg', 'num', 'str', 'addr', 'arr'])
        pool = {'reg': REGS, 'num': NUMS, 'str': STRS, 'addr': ['*', '*+1', 'here', '0'], 'arr': ARRS}[t]
        a, b = r.choice(pool), r.choice(pool)
        if t == 'arr' and r.random() < 0.35:
            # one the beginning of the other
            a = r.choice(['$1000', '5', 'here', 'zz', '$40'])
            a, b = '[%s]' % a, '[%s,%s]' % (a, r.choice('xyus'))
            if r.random() < 0.5:
                a, b = b, a
        n = 's%d' % i
        # the condition: undefined symbols count as 0
        g = 'g%d' % r.randrange(late + 1)
        if r.random() < 0.5:
            d = [' if %s' % g, '%s equ %s' % (n, a), ' else', '%s equ %s' % (n, b), ' endif']
        elif r.random() < 0.5:
            d = ['zz%d equ %s' % (i, a), 'yy%d equ %s' % (i, b), '%s equ %s?zz%d:yy%d' % (n, g, i, i)]
        else:
            d = ['ma%d macro' % i, '%s equ \\1' % n, ' endm', ' if %s' % g, ' ma%d %s' % (i, a), ' else', ' ma%d %s' % (i, b), ' endif']
        names = [n]
        for j in range(r.choice([0, 0, 1, 2])):
            d.insert(0, '%s_%d equ %s' % (n, j, names[-1]))
            names.append('%s_%d' % (n, j))
        if r.random() < 0.3:
            d.insert(0, '%s_v set %s' % (n, names[-1]))
            names.append('%s_v' % n)
        if r.random() < 0.2:
            k = d.index('%s equ %s' % (n, a)) if '%s equ %s' % (n, a) in d else 0
            d[k:k] = ['1 nop', ' bra 1B'] if r.random() < .5 else [' nop']
        defs += d
        for m in r.choices(names, k=r.choice([1, 2, 3])):
            uses.append({
                'reg': [' lda ,%s', ' ldd ,%s', ' ldx [,%s]', ' leax 5,%s', ' leay a,%s', ' tfr %s,d'],
                'num': [' fdb %s', ' fqb %s*2', ' lda %s', ' ldx #%s', ' fcb %s>1', ' fcb %s==1', ' rmb %s&3', ' leax %s,y', ' fcc %s', ' fqb %s*100'],
                'str': [' fcc %s', ' fcn %s', ' fcs %s', ' fcc %s,%s', ' fcb %s=="ab"', ' fci %s'],
                'addr': [' fdb %s', ' ldx %s', ' lbra %s', ' leax %s,pcr', ' jmp [%s]', ' fdb *-%s'],
                'arr': [' lda %s', ' leax %s', ' ldd %s', ' jmp %s', ' stb %s', ' cmpx %s']}[t][r.randrange(6)].replace('%s', m))
    r.shuffle(uses)
    k = r.randrange(len(uses) + 1)
    src += uses[:k] + defs + uses[k:]
    if r.random() < 0.5:
        src.append('here nop')
    src += ['g%d equ g%d' % (i, i + 1) for i in range(late)] + ['%s equ %s' % (last, r.choice(['1', '1', '2', '-1']))]
    opts = {}
    if r.random() < 0.2:
        opts['max_passes'] = max(2, late + r.choice([2, 3, 4]))
    return Case('\n'.join(src).split('\n'), **opts)


def make_early(seed):
    """Something is out of range, or overlaps, or is too big, only until the
    symbols it depends on settle, which takes from two passes up."""
    r = random.Random(seed)
    late = r.randrange(0, 4)
    g = 'g%d' % r.randrange(late + 1)
    # undefined counts as 0, so early passes have what is left out later
    gap = r.choice([[' if %s' % g, ' else', ' rmb 200', ' endif'], [' if %s' % g, ' rmb 3', ' else', ' fill 1,300', ' endif'], [' rmb 200*!%s' % g], [' if !%s' % g, ' rzb 140', ' endif'], [' fcb 1'], [' nop'], [' rmb 130-%s*120' % g]])
    body = [['b1 nop'] + gap + [' bra b1'], [' bne b2'] + gap + ['b2 nop'], ['1 nop'] + gap + [' bra 1b'], [' bsr 1f'] + gap + ['1 nop'], [' rmb %s*9-5' % g], [' org $100-(%s==0)*$30000' % g, ' nop'],
            [' fill 0,%s-1' % g], [' align %s*4' % g], [' align %s' % g, ' nop'], [' fcb 1<<(%s-1)' % g], [' fdb 7%%%s' % g], [' fdb 7/%s' % g], [' put $5000+%s' % g, ' nop', ' put $5000', ' nop'], [' setdp 300*%s' % g],
            [' leax <<b3-b4,y', 'b4 nop'] + gap + ['b3 nop'], [' lda <b3,pcr'] + gap + ['b3 nop'], [' rzb 70000*!%s' % g], [' bita <<%s*3,x' % g], [' fcb "ab",%s?1:nowhere' % g], [' fcb %s?1:5%%0' % g], [' lda #%s?5:rx' % g, 'rx equ x'], [' tfr a,%s?rb:rx' % g, 'rb equ b', 'rx equ x']]
    src = [' org $1000', ' setdp $20'] if r.random() < 0.5 else [' org $1000']
    parts = r.choices(body, k=r.choice([1, 1, 2]))
    uses = [[' fdb %s' % g], [' lda %s' % g], [' ldx #g0+1'], ['u1 nop'], [' lda u2', 'u2 nop'], [' jmp >here'], []]
    for p in parts:
        p = [l.replace('b1', 'b1%d' % parts.index(p)).replace('b2', 'b2%d' % parts.index(p)).replace('b3', 'b3%d' % parts.index(p)).replace('b4', 'b4%d' % parts.index(p)) for l in p]
        pre, post = r.choice(uses), r.choice(uses)
        src += [l.replace('u1', 'u1%d' % len(src)).replace('u2', 'u2%d' % len(src)) for l in pre] + p + [l.replace('u1', 'v1%d' % len(src)).replace('u2', 'v2%d' % len(src)) for l in post]
    if r.random() < 0.7:
        src.append('here nop')
    src += ['g%d equ g%d' % (i, i + 1) for i in range(late)] + ['g%d equ 1' % late]
    if r.random() < 0.15:
        src += r.choice([[' bra *+200'], [' rmb -1'], [' lda nowhere']])
    return Case('\n'.join(src).split('\n'), max_passes=r.choice([None, None, None, late + 2, late + 3])) if r.random() < 0.5 else Case('\n'.join(src).split('\n'))


def job_settle(exe, make=make_settle):
    def f(seed):
        case = make(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols'))
        out = core.trim(res)
        if res['verdict'] == 'ok':
            out['extra'] = {'late changes: ' + ('settled' if res['run'].rc == 0 else 'rejected'): 1}
        return out
    return f


def make_set(seed):
    r = random.Random(seed)
    names = ['c%d' % i for i in range(r.choice([1, 2, 5]))]
    cur = {}
    src = [' org $100']
    exp = []
    for _ in range(r.choice([5, 20, 60])):
        n = r.choice(names)
        k = r.random()
        if n not in cur or k < 0.4:
            v = r.randrange(-100, 70000)
            if n in cur and r.random() < 0.6:
                d = r.randrange(-9, 10)
                src.append('%s set %s%+d' % (n, n, d))
                cur[n] += d
            elif cur and r.random() < 0.4:
                m = r.choice(list(cur))
                src.append('%s set %s*2' % (n, m))
                cur[n] = cur[m] * 2
                if abs(cur[n]) > 1 << 40:
                    cur[n] = 1
                    src.append('%s set 1' % n)
            else:
                src.append('%s set %d' % (n, v))
                cur[n] = v
        else:
            if k < 0.5:
                src.append('M%d macro' % len(src))
                m = src[-1].split()[0]
                src += [' fdb %s' % n, '%s set %s+3' % (n, n), ' fdb %s' % n, ' endm', ' %s' % m]
                exp += [cur[n] & 0xffff, (cur[n] + 3) & 0xffff]
                cur[n] += 3
            else:
                src.append(' fdb %s' % n)
                exp.append(cur[n] & 0xffff)
    return Case(src), exp, cur


def job_set(exe):
    def f(seed):
        case, exp, cur = make_set(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols'))
        out = core.trim(res)
        if res['verdict'] != 'ok':
            return out
        run = res['run']
        if run.rc:
            out.update(verdict='bad', kind='rejected', why='SET program rejected: %s' % run.err[:200], case=case)
            return out
        mem = formats.srec(run.files['out'])[0]
        got = [mem[0x100 + 2 * i] << 8 | mem[0x101 + 2 * i] for i in range(len(exp))]
        if got != exp or len(mem) != 2 * len(exp):
            out.update(verdict='bad', kind='set', why='SET values seen in order are %s, expected %s' % (got, exp), case=case)
            return out
        syms, _ = core.parse_symbols(run.files['sym'])
        for n, v in cur.items():
            if core.sym_text(syms.get(n, ''))[1] != v:
                out.update(verdict='bad', kind='set', why='%s ends as %s, expected %d' % (n, syms.get(n), v), case=case)
                return out
        out['extra'] = {'SET values checked': len(exp)}
        return out
    return f


def drive(ctx, f, seeds, tag):
    for t in core.pmap(f, seeds):
        ctx.evaluations += 1
        if t.get('harness'):
            ctx.log(t['why'])
            ctx.undecided['harness'] = ctx.undecided.get('harness', 0) + 1
            continue
        if t['verdict'] == 'undecided':
            ctx.undecided[t['why'][:60]] = ctx.undecided.get(t['why'][:60], 0) + 1
            continue
        ctx.distinct.add(t['digest'])
        for k, v in (t.get('extra') or {}).items():
            ctx.count(k, v)
        if t['verdict'] == 'bad':
            ctx.violate('%s-%s' % (tag, t['kind']), t['why'], t['case'], t['case'].args())


REGTOK = {'a', 'b', 'd', 'x', 'y', 'u', 's', 'cc', 'dp', 'pc', 'pcr', 'w', 'e', 'f', 'v'}
POOLS = {}


def make_named(seed):
    """Instructions and directives with literal operands, and the same with some
    of these given by symbols defined before, or after."""
    r = random.Random(seed)
    is6309 = r.random() < 0.5
    if is6309 not in POOLS:
        q = random.Random('pool')
        ops = isa.OPS_6309 if is6309 else isa.OPS_6809
        POOLS[is6309] = [(n, a) for n, a in isacases.positives(q, ops, sorted(ops), is6309, density=0.3)
                         if a and not any(w in a for w in ('sym', 'fwd', 'nearby', '*', '"', '/', '\'', '~', '%')) and ops[n.lower()]['k'] not in ('rel8', 'rel16')]
    lines = []
    for _ in range(r.choice([1, 2, 5, 12])):
        if r.random() < 0.25:
            lines.append(r.choice([('fcb', '1,$22,%d'), ('fdb', '%d,$1234'), ('fqb', '%d'), ('rmb', '%d'), ('rzb', '%d'), ('fill', '$41,%d'), ('align', '8,%d'), ('setdp', '%d'), ('org', '$2000+%d'), ('put', '$5000+%d'), ('fcc', '65,%d'), ('fcb', '%d?2:3'), ('fcn', '%d')]))
            lines[-1] = (lines[-1][0], lines[-1][1].replace('%d', str(r.randrange(1, 100))))
        else:
            lines.append(r.choice(POOLS[is6309]))
    defs, out = [], []
    part = r.choice([0.3, 0.7, 1])
    for n, a in lines:
        def rep(m):
            t = m.group(0)
            if r.random() > part or not (t[0] in '$0123456789' or t.lower() in REGTOK):
                return t
            # + and - belong to a register itself
            rest = m.string[m.end():m.end() + 1]
            if t.lower() in REGTOK and (rest in ('+', '-') or m.string[:m.start()][-1:] in ('-', '+')):
                return t
            k = 'nm%d' % len(defs)
            defs.append('%s equ %s' % (k, t))
            return k
        b = re.sub(r'\$?[A-Za-z0-9_.]+', rep, a)
        out.append((n, a, b))
    r.shuffle(defs)
    if r.random() < 0.3:
        for i in range(len(defs)):
            if r.random() < 0.5:
                k, v = defs[i].split(' equ ')
                defs[i:i + 1] = ['%s equ %sz' % (k, k), '%sz equ %s' % (k, v)]
        defs = '\n'.join(defs).split('\n')
        r.shuffle(defs)
    return ([' %s %s' % (n, a) for n, a, b in out], [' %s %s' % (n, b) for n, a, b in out], [' org $1000'] if r.random() < 0.8 else [' org $40'], defs, is6309)


def job_named(exe):
    def f(seed):
        direct, named, head, defs, is6309 = make_named(seed)
        kw = dict(isa6309=is6309)
        cases = [Case(head + direct, **kw), Case(head + defs + named, **kw), Case(head + named + defs, **kw)]
        out = {'verdict': 'ok', 'digest': cases[2].digest(), 'extra': {}}
        runs = []
        for c in cases:
            runs.append(core.run_tool(exe, c.files, c.args(), ('out',)))
            if not runs[-1].clean:
                out.update(verdict='bad', kind='crash', why='ended with ' + runs[-1].status(), case=c)
                return out
        a, b, c = runs
        if a.rc:
            out['extra']['literal operands refused'] = 1
            return out
        for t, k, w in ((b, 1, 'before'), (c, 2, 'after')):
            if t.rc:
                out.update(verdict='bad', kind='refused', case=cases[k], why='operands given by symbols defined %s their use are refused, literal ones are not: %s' % (w, t.err[:300]))
                return out
        m = core.compare(exe, cases[2], ('status', 'image'))
        if m['verdict'] == 'bad':
            out.update(verdict='bad', kind=m['kind'], why=m['why'], case=cases[2])
            return out
        if a.files['out'] != b.files['out'] and b.files['out'] != c.files['out']:
            # a symbol may be better known than an expression; both ways must be of the right value, which the model decides
            m = core.compare(exe, cases[1], ('status', 'image'))
            if m['verdict'] == 'bad':
                out.update(verdict='bad', kind=m['kind'], why=m['why'], case=cases[1])
                return out
        out['extra']['operands named before and after'] = len(defs)
        if a.files['out'] == b.files['out'] == c.files['out']:
            out['extra']['named programs equal to literal ones'] = 1
        else:
            out['extra']['named programs equal to the model only'] = 1
        return out
    return f


ERRORS = [
    # (lines, acceptable)
    (['a1 equ 1', 'a1 equ 1'], False), (['a1 equ 1', 'a1 equ 2'], False), (['a1 nop', 'a1 nop'], False),
    (['a1', 'a1'], False), (['a1 equ 5', 'a1 nop'], False), (['a1 nop', 'a1 equ 0'], False),
    (['a1 set 1', 'a1 equ 2'], False), (['a1 set 1', 'a1 set 2', 'a1 set 3'], True),
    (['a1 equ a1'], False), (['a1 equ a1+1'], False), (['a1 equ b1', 'b1 equ a1'], False),
    (['a1 equ b1+1', 'b1 equ c1+1', 'c1 equ a1+1'], False), ([' lda nowhere'], False), ([' fdb nowhere+1'], False),
    ([' bra nowhere'], False), (['a1 equ nowhere', ' nop'], False), ([' ldx #nowhere'], False), ([' leax nowhere,y'], False),
    ([' rmb nowhere'], False), ([' org nowhere'], False), ([' fcb nowhere'], False), ([' fcc nowhere'], False),
    ([' fqb nowhere'], False), ([' setdp nowhere', ' lda 5'], False), ([' put nowhere', ' nop'], False), ([' align nowhere', ' nop'], False),
    ([' fill 1,nowhere'], False), ([' rzb nowhere'], False), ([' section nowhere'], False), ([' tfr a,nowhere'], False),
    ([' end nowhere'], False), ([' include nowhere'], False), ([' jmp [nowhere]'], False), ([' leax nowhere,pcr'], False),
    (['A1 equ 1', 'a1 equ 2', ' fcb A1,a1'], True), ([' lda A1', 'a1 equ 1'], False),
    (['a1 rmb a1'], True), (['a1 rmb b1-a1', 'b1'], False), ([' rmb b1', 'b1'], False), ([' org b1', 'b1 nop'], True),
    ([' org b1+1', 'b1 nop'], False), (['a1 set a1+1', ' fdb a1'], False),
    (['m1 macro', 'lbl nop', ' endm', ' m1', ' m1'], False), (['m1 macro', 'lbl nop', ' endm', ' m1'], True),
    (['m1 macro', 'l\\1 nop', ' endm', ' m1 1', ' m1 2'], True), (['m1 macro', 'l\\1 nop', ' endm', ' m1 1', ' m1 1'], False),
    (['a1 equ', ' nop'], False), (['a1 set'], False), (['a1 equ 1,2'], False), ([' equ 5'], True),
    (['a1 equ x', ' leax 1,a1'], True), (['a1 equ "hi"', ' fcc a1'], True), ([' fcc a1', 'a1 equ "hi"'], True),
]


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    n = ctx.n(1500, 30000)
    c = make_net(base + '0')[0]
    ctx.sample(c.files['main.s'].decode()[:500])
    drive(ctx, job_net(exe), [base + str(i) for i in range(n)], 'network')
    drive(ctx, job_settle(exe), [base + 'l%d' % i for i in range(n)], 'settle')
    drive(ctx, job_settle(exe, make_early), [base + 'y%d' % i for i in range(n // 2)], 'early')
    drive(ctx, job_settle(exe, make_alter), [base + 'k%d' % i for i in range(n)], 'alter')
    drive(ctx, job_named(exe), [base + 'n%d' % i for i in range(n // 2)], 'named')
    drive(ctx, job_set(exe), [base + 's%d' % i for i in range(n // 2)], 'set')
    cases = []
    for lines, ok in ERRORS:
        for pre in ([], [' org $4000', ' nop']):
            c = Case(pre + lines)
            cases.append(c)
            m = c.model().run()
            if m.ok != ok and 'org b1' not in lines[0] and 'rmb a1' not in lines[0] and ' equ 5' != lines[0] and 'rmb b1' not in lines[0]:
                ctx.log('model disagrees with the table on', lines, m.ok, m.errs[:2])
                ctx.count('table disagreements')
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols', 'diag'), 'definition errors')
    # the same symbol from two files, and from an option
    cases = []
    for a, b in (('k equ 1', 'k equ 2'), ('k nop', 'k nop'), ('k equ 1', ' fcb k'), (' fcb k', 'k equ 1'), ('k set 1', 'k set 2')):
        cases.append(Case(files={'p.s': (a + '\n').encode(), 'q.s': (b + '\n').encode()}, mains=['p.s', 'q.s']))
        cases.append(Case(files={'q.s': (b + '\n').encode(), 'main.s': (a + '\n include "q.s"\n').encode()}))
        for d in (None, 0, 7):
            cases.append(Case([a, b], defines=[('k', d)]))
            cases.append(Case([' fcb k', a], defines=[('k', d)]))
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols'), 'across files and options')
    # chains needing exactly n passes
    cases = []
    for n in range(1, 15):
        ch = ['v%d equ v%d+1' % (i, i + 1) for i in range(n)] + ['v%d equ $10' % n]
        cases.append(Case([' fdb v0'] + ch))
        cases.append(Case(ch + [' fdb v0']))
        cases.append(Case([' lda v0'] + ch + [' setdp 0']))
        cases.append(Case([' rmb v0', 'l nop', ' fdb l'] + ch))
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols'), 'chains')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(1000, 20000), weights={'equ': 25, 'label': 20, 'set': 10, 'instr': 20}),
                  ('status', 'image', 'symbols'), 'random')
    core.campaign(ctx, exe, scale.settling((0, 300, 5000)), ('status', 'image', 'symbols', 'listing'), 'settling')
    core.campaign(ctx, exe, scale.changing(), ('status', 'image', 'symbols', 'listing'), 'changing')
    core.campaign(ctx, exe, scale.names() + scale.shared(300) + scale.shared(66000) + [scale.symbols(n) for n in (257, 1000, ctx.n(5000, 70000))], ('status', 'image', 'symbols'), 'large')
    # a symbol whose only definition is not assembled in the final pass
    stale = [' if later', ' else', 'foo equ 5', ' endif', 'later equ 1', ' lda #foo']
    c = Case(stale)
    t = core.run_tool(exe, c.files, c.args(), ('out', 'sym'))
    ctx.evaluations += 1
    if t.rc == 0:
        ctx.violate('stale-definition', 'IF later/ELSE/foo EQU 5/ENDIF/later EQU 1/LDA #foo: a symbol defined only in an '
                    'earlier pass still resolves (exit 0)', c, c.args())
