"""Programs that are mostly wrong: token soup and mutations of good programs."""
import random

from . import core, gen

TOK = ['a1', 'b1', 'c1', 'x', 'y', 'pc', 'a', 'b', 'd', '1', '5', '$20', '%101', '@17', '0x1f', "'A", "'A'", '1b', '2f',
       '0b11', '012', '08', '1.5', '.5', '2.', '"s"', '"t&1"', '/q/', '"\\1"', '\\1', '\\{2}', '&{1}', '&1', '+', '-', '*', '/',
       '%', '(', ')', '[', ']', '#', '<', '>', '<<', '>>', '<=', '==', '!=', '&&', '||', '&', '|', '^', '~', '!', '?', ':', ',',
       ',', ',', '++', '--', '"', '\\', '@', '{', '}', '=', ';', '.', '_', ' ', ' ', '\t', "'", '$', 'pcr', '\r', '\xe9', '65536', '-1',
       '99999999999999999999', '""', '\x7f', '\x01']
OPS = ['nop', 'lda', 'ldx', 'leax', 'fcb', 'fdb', 'fcc', 'bra', 'jmp', 'equ', 'set', 'org', 'rmb', 'if', 'endif', 'else', 'macro',
       'endm', 'm1', 'm2', 'fill', 'tfr', 'pshs', 'align', 'section', 'ttl', 'opt', 'end', 'export', 'setdp', 'lbra', 'cmpx', 'elsif',
       'page', 'adcr', 'oim', 'tfm', 'bad', 'ld\\1', '\\1', 'fcs', 'put', 'rzb', 'exg', 'puls', 'ldq', 'band', 'data', 'fqb', 'fcn']
LABELS = ['', '', '', 'a1', 'b1', 'c1', '1', '2', '!', 'x', 'm1', 'a\\1', '$5', ' ', '*', "'a", '@', 'a1 ;', '&{1}', '\xe9']
LINE = [' include "main.s"', ' includebin "x"', ' include "f"', ' end a1', ' end', ' m1 5', ' m1', ' section "two"', ' export a1']


def line(r):
    k = r.random()
    lab = r.choice(LABELS)
    if k < 0.1:
        return lab
    if k < 0.14:
        return lab + r.choice(LINE[3:])
    op = r.choice(OPS)
    if r.random() < 0.1:
        op = op.upper()
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])
    sep = r.choice(['', '', ' '])
    return lab + r.choice([' ', '\t', '  ']) + op + (r.choice([' ', '  ', '']) if n else '') + sep.join(r.choice(TOK) for _ in range(n))


def make_soup(seed):
    r = random.Random(seed)
    pre = ['a1 equ 5', 'b1 equ 300', 'm1 macro', ' fcb \\1', ' endm', '1 nop', '2 nop']
    if r.random() < 0.3:
        pre = pre[:2]
    lines = [line(r) for _ in range(r.choice([1, 1, 2, 3, 5, 8]))]
    if r.random() < 0.15:
        lines = ['m2 macro'] + lines + [' endm', ' m2 1,2']
    if r.random() < 0.15:
        lines = [' if %d' % r.randrange(2)] + lines + [' endif']
    post = ['1 nop', '2 nop', 'c1 equ 7']
    return core.Case(('\n'.join(pre + lines + post) + '\n').encode('latin-1'), isa6309=r.random() < 0.4)


def make_mutant(seed):
    """A generated program with a few characters or lines damaged."""
    r = random.Random(seed)
    c = core.make_random(seed, {'sizes': (3, 6, 10)})
    names = [f for f in c.files if f.endswith('.s')]
    for _ in range(r.choice([1, 1, 2, 4])):
        f = r.choice(names)
        d = bytearray(c.files[f])
        k = r.random()
        if k < 0.6 or b'\n' not in d:
            i = r.randrange(len(d) + 1)
            kk = r.random()
            if kk < 0.4:
                d[i:i + 1] = b''
            elif kk < 0.7:
                d[i:i] = r.choice(TOK).encode('latin-1')
            else:
                d[i:i + 1] = r.choice(TOK).encode('latin-1')
        else:
            ls = bytes(d).split(b'\n')
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            kk = r.random()
            if kk < 0.3:
                del ls[i]
            elif kk < 0.6:
                ls.insert(j, ls[i])
            elif kk < 0.8:
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls.insert(i, line(r).encode('latin-1'))
            d = b'\n'.join(ls)
        c.files[f] = bytes(d)
    return c


def soups(ctx, n, salt='soup'):
    base = '%s/%d/%s' % (ctx.prop, ctx.seed, salt)
    return [(make_soup if i % 2 else make_mutant, '%s/%d' % (base, i)) for i in range(n)]
