"""C05: indexed operands."""
import random

from lib import build, core, formats
from lib.core import Case

RULE = ('Sweeps: every index register with every constant offset in -260..300 and around each form boundary, plain, '
        'indirect and with each forced size; program-counter relative operands to targets at every distance in '
        '-140..140 and around the 16-bit wrap, from several addresses, forward and back, behind opcodes with and '
        'without a page prefix; accumulator, auto and indirect forms. Each instruction is decoded from the output by '
        'an independent 6809/6309 post-byte decoder and compared with what was written, its length with the shortest '
        'possible; every program is also compared with the model. Non-trivial: a distinct (operand, address) decoded.')

RR = 'xyus'


class NoMode(Exception):
    pass


def s8(b):
    return b - 256 if b > 127 else b


def s16(v):
    return v - 65536 if v > 32767 else v


def decode(mem, a, six):
    """Decode the post-byte at address a: (kind, reg, value, indirect, length)."""
    pb = mem[a]
    if pb < 0x80:
        o = pb & 0x1f
        return ('off', RR[pb >> 5 & 3], o - 32 if o > 15 else o, False, 1)
    if six and pb in (0x8f, 0xaf, 0xcf, 0xef, 0x90, 0xb0, 0xd0, 0xf0):
        ind = pb in (0x90, 0xb0, 0xd0, 0xf0)
        k = (pb - (1 if ind else 0)) & 0xf0
        if k == 0x80:
            return ('off', 'w', 0, ind, 1)
        if k == 0xa0:
            return ('off', 'w', s16(mem[a + 1] << 8 | mem[a + 2]), ind, 3)
        return ('auto', 'w', '++' if k == 0xc0 else '--', ind, 1)
    if pb == 0x9f:
        return ('abs', None, mem[a + 1] << 8 | mem[a + 2], True, 3)
    r = RR[pb >> 5 & 3]
    ind = bool(pb & 0x10)
    m = pb & 0x0f
    if m == 0 and not ind:
        return ('auto', r, '+', ind, 1)
    if m == 1:
        return ('auto', r, '++', ind, 1)
    if m == 2 and not ind:
        return ('auto', r, '-', ind, 1)
    if m == 3:
        return ('auto', r, '--', ind, 1)
    if m == 4:
        return ('off', r, 0, ind, 1)
    if m in (5, 6, 11):
        return ('acc', r, {5: 'b', 6: 'a', 11: 'd'}[m], ind, 1)
    if six and m in (7, 10, 14):
        return ('acc', r, {7: 'e', 10: 'f', 14: 'w'}[m], ind, 1)
    if m == 8:
        return ('off', r, s8(mem[a + 1]), ind, 2)
    if m == 9:
        return ('off', r, s16(mem[a + 1] << 8 | mem[a + 2]), ind, 3)
    if m == 12:
        return ('pc', None, (a + 2 + s8(mem[a + 1])) & 0xffff, ind, 2)
    if m == 13:
        return ('pc', None, (a + 3 + s16(mem[a + 1] << 8 | mem[a + 2])) & 0xffff, ind, 3)
    raise NoMode('post-byte %02X' % pb)


def need(v, ind, w=False):
    if v == 0:
        return 1
    if w:
        return 3
    if -16 <= v <= 15 and not ind:
        return 1
    if -128 <= v <= 127:
        return 2
    return 3


OPS = [('lda', 1), ('leax', 1), ('ldy', 2), ('cmpu', 2), ('jmp', 1), ('sta', 1), ('clr', 1), ('std', 1), ('jsr', 1),
       ('leas', 1), ('sts', 2)]
OPS6 = [('oim #1', 2), ('ldw', 2), ('lde', 2), ('tim #$7f', 2), ('muld', 2)]


def probe(seed, items, six, base):
    """items: list of (operand text with {t} for a target expression, expectation)."""
    r = random.Random(seed)
    src, exp = [], []
    a = base
    pool = OPS + (OPS6 if six else [])
    fwd = []
    for i, (text, want) in enumerate(items):
        op, n = r.choice(pool)
        pb = a + n
        w = want
        t = text
        if want[0] == 'pc':
            target = (pb + want[1]) & 0xffff        # distance counted from the post-byte
            k = r.randrange(4)
            if k == 0:
                ts = '$%x' % target
            elif k == 1:
                ts = 'T%d' % i
                fwd.append('T%d equ $%x' % (i, target))
            elif k == 2:
                ts = 'T%d' % i
                src.append('T%d equ $%x' % (i, target))
            else:
                # (an operator applied to the address of this line)
                d = target - a
                ts = '*%+d' % d
            t = text.replace('{t}', ts)
            w = ('pc', None, target, want[2], want[3](target, pb) if callable(want[3]) else want[3])
        src.append(' org $%x' % a)
        src.append(' %s%s%s' % (op, ',' if op[-1].isdigit() or '#' in op else ' ', t))
        exp.append((pb, w, t, op))
        a += 8
    return Case(src + fwd, isa6309=six), exp


def check_probe(exe):
    def f(job):
        case, exp = probe(*job)
        out = {'verdict': 'ok', 'n': 0, 'forms': {}, 'case': None}
        res = core.compare(exe, case, ('status', 'image'))
        if res['verdict'] != 'ok':
            out.update(core.trim(res))
            return out
        run = res['run']
        if run.rc != 0:
            out.update(verdict='bad', kind='rejected', why='valid indexed operands rejected: %s' % run.err[:200], case=case)
            return out
        mem = formats.srec(run.files['out'])[0]
        for pb, want, text, op in exp:
            if pb not in mem:
                out.update(verdict='bad', kind='missing', why='nothing assembled for %s %s' % (op, text), case=case)
                return out
            try:
                got = decode(mem, pb, case.isa6309)
            except (NoMode, KeyError) as e:
                got = ('undecodable %s' % e, None, None, None, None)
            length = next((n for n in range(1, 5) if pb + n not in mem), 5)
            g = got[:4] + (length,)
            if g != want or got[4] != length:
                out.update(verdict='bad', kind='decode', case=case,
                           why='%s %s at $%04X assembles to post-byte %02X, %d byte(s), which is %r; expected %r'
                           % (op, text, pb, mem[pb], length, got, want))
                return out
            out['n'] += 1
            k = '%s/%s%s' % (want[0], want[4], '/indirect' if want[3] else '')
            out['forms'][k] = out['forms'].get(k, 0) + 1
        return out
    return f


def offsets(full):
    if full:
        return list(range(-32768, 32768, 7)) + list(range(-300, 300))
    return list(range(-260, 300)) + [v + d for v in (-32768, 32767, -4096, 4096, -256, 256, -512, 512, 1023)
                                     for d in (-1, 0, 1) if -32768 <= v + d <= 32767]


def items(r, six, full):
    out = []
    for reg in RR:
        for v in offsets(full):
            for ind in (False, True):
                b = '[%s]' if ind else '%s'
                out.append((b % ('%d,%s' % (v, reg)), ('off', reg, v, ind, need(v, ind))))
                k = r.random()
                if k < 0.15:
                    out.append((b % ('>%d,%s' % (v, reg) if v >= 0 else '>%d,%s' % (v, reg)), ('off', reg, v, ind, 3)))
                elif k < 0.5 and -128 <= v <= 127:
                    out.append((b % ('<%d,%s' % (v, reg)), ('off', reg, v, ind, 2)))
                elif -16 <= v <= 15 and not ind:
                    out.append(('<<%d,%s' % (v, reg), ('off', reg, v, ind, 1)))
        for ind in (False, True):
            b = '[%s]' if ind else '%s'
            out.append((b % (',' + reg), ('off', reg, 0, ind, 1)))
            for s in ('++', '--') + (() if ind else ('+', '-')):
                t = ',%s%s' % (reg, s) if s[0] == '+' else ',%s%s' % (s, reg)
                out.append((b % t, ('auto', reg, s, ind, 1)))
            for acc in 'abd' + ('efw' if six else ''):
                out.append((b % ('%s,%s' % (acc, reg)), ('acc', reg, acc, ind, 1)))
    if six:
        for ind in (False, True):
            b = '[%s]' if ind else '%s'
            for v in [0, 1, -1, 5, 127, 128, -128, 300, -300, 32767, -32768]:
                out.append((b % ('%d,w' % v), ('off', 'w', v, ind, need(v, ind, True))))
            out.append((b % ',w', ('off', 'w', 0, ind, 1)))
            out.append((b % ',w++', ('auto', 'w', '++', ind, 1)))
            out.append((b % ',--w', ('auto', 'w', '--', ind, 1)))
    for v in [0, 1, 0x1234, 0xffff] + [r.randrange(65536) for _ in range(10)]:
        out.append(('[%d]' % v, ('abs', None, v, True, 3)))
        out.append(('[>%d]' % v, ('abs', None, v, True, 3)))
    dist = list(range(-140, 145)) + [32767, 32768, -32768, 0x4000, -0x4000, 1000, -1000] + [r.randrange(-32768, 32768) for _ in range(20)]

    def plen(target, pb):
        d = (target - (pb + 2)) & 0xffff
        return 2 if s16(d) in range(-128, 128) else 3
    for d in dist:
        for ind in (False, True):
            b = '[%s]' if ind else '%s'
            out.append((b % '{t},pcr', ('pc', d, ind, plen)))
            if r.random() < 0.2:
                out.append((b % '>{t},pcr', ('pc', d, ind, 3)))
    return out


def pc_items(r):
    """n,PC: the offset as given."""
    return None


BAD = ['5,x+', '5,x++', '5,-x', '5,--x', 'a,x+', ',x-', 'x,y', 'pc,x', ',a', ',d', ',cc', '1,dp', 'a,pcr', 'd,pc', ',pc+', ',-pcr',
       '<<1,pcr', '<<1,pc', '[<<1,x]', '[<<0,u]', '[5,x++]', '[a,--x]', '[<5]', '[<<5]', '[1,2]', '[1,x,y]', '[[1]]', '[[1,x],y]',
       '1,[x]', '[x]', '[a]', '"s",q1', 'und,x', '[und,y]', '[und]', 'x,1', ',', '1,2,3', 'a,b', 'u', 'dp,x', 'cc,y', 's,u',
       '<a,x', '>b,x', 'd+,x', '#5,x', '[#5,x]', '1,x,', '[]']


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    jobs = []
    for six in (False, True):
        for rep in range(ctx.n(1, 4)):
            it = items(r, six, full=not ctx.quick and rep == 0)
            r.shuffle(it)
            for i in range(0, len(it), 120):
                base = r.choice([0, 0x40, 0x1000, 0x7e00, 0x8000, 0xfc00 - 16, 0xc000, r.randrange(0, 0xf000)])
                jobs.append(('%d/%d/%d/%d' % (ctx.seed, six, rep, i), it[i:i + 120], six, base))
    f = check_probe(exe)
    for t in core.pmap(f, jobs):
        ctx.evaluations += t.get('n', 0) or 1
        if t.get('harness'):
            ctx.log(t['why'])
            ctx.undecided['harness'] = ctx.undecided.get('harness', 0) + 1
            continue
        if t['verdict'] == 'undecided':
            ctx.undecided[t['why'][:60]] = ctx.undecided.get(t['why'][:60], 0) + 1
            continue
        for k, v in t.get('forms', {}).items():
            ctx.count('decoded ' + k, v)
        if t['verdict'] == 'bad':
            c = t['case']
            ctx.violate('indexed-' + t['kind'], t['why'], c, c.args())
    for six, items_, s in ((j[2], j[1], j[0]) for j in jobs):
        for text, w in items_:
            ctx.distinct.add((six, text, s if '{t}' in text else None))
    # offset written as n,PC; offsets of symbols not yet defined; invalid combinations
    cases = []
    for _ in range(ctx.n(150, 1500)):
        src = [' org $%x' % r.randrange(0, 0xf000)]
        late = []
        for i in range(30):
            v = r.choice([r.randrange(-20, 20), r.randrange(-140, 140), r.randrange(-40000, 70000), 0])
            op = r.choice(['lda', 'leay', 'ldy', 'cmps', 'asr'])
            k = r.randrange(5)
            reg = r.choice(RR)
            b = r.choice(['%s', '%s', '[%s]'])
            if k == 0:
                t = b % ('%d,pc' % v)
            elif k == 1:
                late.append('V%d equ %d' % (i, v))
                t = b % ('V%d,%s' % (i, reg))
            elif k == 2:
                late.append('V%d equ %s' % (i, r.choice('abd')))
                t = b % ('V%d,%s' % (i, reg))
            elif k == 3:
                late.append('R%d equ %s' % (i, reg))
                t = b % ('%d,R%d' % (v, i))
                src.append(late.pop())
            else:
                src.append('Q%d equ %s' % (i, r.choice(['1.5', '"A"', '-3', '100/3', '~0', '2*8'])))
                t = b % ('Q%d,%s' % (i, reg))
            if r.random() < 0.2:
                # the value decides the length of what separates it from a label
                late.append('E%d' % i)
                t = b % ('E%d-*,%s' % (i, reg))
            src.append(' %s %s' % (op, t))
        cases.append(Case(src + late, isa6309=r.random() < 0.3))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'computed offsets')
    neg = []
    for b in BAD:
        for op in ('lda', 'leax', 'ldy', 'jmp', 'clr', 'cmpu'):
            for six in (False, True):
                neg.append(Case([' org $100', ' %s %s' % (op, b)], isa6309=six))
    # a number where a register belongs is never taken for one
    for n in list(range(-2, 34)) + [256, 257, 65535, 1 << 32]:
        for b in ('5,%d', ',%d', '[5,%d]', '[,%d]', 'a,%d', '200,%d', '[$1234,%d]', '%d,%d', '1.5,%d', '5,%d.0', '5,"%c"'):
            for six in (False, True):
                if b.count('%') == 2:
                    b = b.replace('%d', str(n), 1)
                if '%c' in b and not 32 < n < 127:
                    continue
                neg.append(Case([' org $100', ' %s %s' % (r.choice(['lda', 'leax', 'sty', 'jmp', 'clr']), b % n)], isa6309=six))
    core.campaign(ctx, exe, neg, ('status', 'image'), 'invalid combinations')
    # known shapes that once went wrong
    reg = [Case([' org $100', ' lda 0,pcr']), Case([' org $8100', ' lda 0,pcr']), Case([' lda 0,w', ' lda [0,w]'], isa6309=True),
           Case(['K equ a', ' lda >K,x']), Case(['K equ a', ' lda [>K,x]']), Case(['F equ 300.5', ' lda [F,x]', ' lda [>F,x]', ' lda [F]']),
           Case(['Z equ 0', ' lda Z,x', ' lda [Z,pcr]'])]
    core.campaign(ctx, exe, reg, ('status', 'image'), 'regressions')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(800, 20000), weights={'instr': 80}), ('status', 'image'), 'random')
