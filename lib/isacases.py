"""Systematic programs for instruction encodings: every mnemonic with every kind
of operand, and every mnemonic with operands it doesn't take."""
import itertools

from . import isa as ISA
from .core import Case

IMM = ['0', '1', '$7f', '$80', '255', '256', '-1', '-128', '-129', '$1234', '65535', '65536', '-32768',
       '$12345678', '-2', "'A", '"Z"', '/ab/', '1.75', '~0', '%10101', '4*4+1']
ADDR = ['0', '$12', '$ff', '$100', '$1234', '$ffff', '<$56', '<$1256', '>$12', '>$abcd', '-1', '$12345', 'sym', 'fwd',
        '<fwd', '>fwd', '*', '*+2', '"AB"', '200.5']
INDEXED = [',x', ',y', ',u', ',s', '0,x', '1,y', '15,u', '-16,s', '16,x', '-17,y', '127,u', '-128,s', '128,x',
           '-129,y', '$1234,u', '-32768,s', 'a,x', 'b,y', 'd,u', 'a,s', ',x+', ',y++', ',-u', ',--s', '4,pc', '300,pc',
           '*,pcr', '$8000,pcr', 'sym,pcr', 'fwd,pcr', '[,x]', '[5,y]', '[300,u]', '[a,s]', '[b,x]', '[d,y]', '[,u++]',
           '[,--s]', '[*,pcr]', '[$9000,pcr]', '[1,pc]', '[$1234]', '[fwd]', '<5,x', '>5,y', '<<5,u', '<0,s', '>0,x',
           '<<0,y', '>*,pcr', '[<5,x]', '[>5,y]']
INDEXED_W = [',w', '[,w]', '5,w', '[5,w]', '-1,w', '0,w', '>3,w', ',w++', ',--w', '[,w++]', '[,--w]', 'e,x', 'f,y', 'w,u',
             '[e,s]', '[f,x]', '[w,y]']
# operands no instruction of the kind accepts
BAD_MEM = ['', '1,2,3', '1,a', ',', 'a', 'x', 'a,b', '[1,2,3]', '<<20', '1,cc', '5,x+', ',x-', '5,-x', ',--pc', ',pcr+',
           'a,pcr', 'd,pc', '<a', '[<$12]', '<<1,pcr', '[<<1,x]', 'pc,x', 's,x', ',dp', '#', 'undefined_symbol', '[,x', '1,[2]']


def mixcase(r, s):
    k = r.random()
    if k < 0.5:
        return s
    if k < 0.75:
        return s.upper()
    return ''.join(c.upper() if r.random() < 0.5 else c for c in s)


def mixregs(r, o):
    """Vary the case of operands that hold no symbols or strings."""
    if any(c in o for c in '"/\'') or any(w in o for w in ('sym', 'fwd', 'undefined', 'nearby')):
        return o
    return mixcase(r, o)


def positives(r, ops, names, is6309, density=1.0):
    """Instruction lines that should assemble."""
    lines = []
    for n in names:
        o = ops[n]
        k = o['k']

        def add(a):
            lines.append((mixcase(r, n), mixregs(r, a)))
        if k == 'inh':
            add('')
        if 'imm' in o:
            for v in IMM:
                if density >= 1 or r.random() < density:
                    add('#' + v)
        if k in ('mem', 'immmem'):
            pre = [''] if k == 'mem' else ['#%d,' % r.randrange(256), '%d,' % r.randrange(256), '#-1,', '#$1ff,']
            ix = INDEXED + (INDEXED_W if is6309 else [])
            for p in pre:
                if 'ext' in o:
                    for a in ADDR:
                        if density >= 1 or r.random() < density:
                            add(p + a)
                for a in ix:
                    if density >= 1 or r.random() < density:
                        add(p + a)
        if k == 'rel8':
            for d in ('*', '*+2', '*-126', '*+129', '*+%d' % r.randrange(-126, 130), 'nearby'):
                add(d)
        if k == 'rel16':
            for d in ('*', '*+4', '*-126', '*+129', '0', '$ffff', '$8000', 'sym', 'fwd', '>fwd', '>*+5',
                      '%d' % r.randrange(65536)):
                add(d)
        if k == 'stack':
            regs = ['cc', 'a', 'b', 'dp', 'x', 'y', 'u' if o['own'] == 's' else 's', 'pc']
            for m in range(1, 256):
                if density < 1 and r.random() > density:
                    continue
                c = [regs[i] for i in range(8) if m >> i & 1]
                r.shuffle(c)
                if 'a' in c and 'b' in c and r.random() < 0.5:
                    c.remove('a')
                    c[c.index('b')] = 'd'
                add(','.join(c))
            add('d,a,b,d')
        if k == 'pair':
            regs = [x for x in ISA.TFR if is6309 or x not in 'wvef']
            for a, b in itertools.product(regs, regs):
                if density >= 1 or r.random() < density:
                    add('%s,%s' % (a, b))
            add('1,2')
            add('d,9')
            for i in range(16):
                if density >= 1 or r.random() < max(density, 0.3) or i == 0:
                    add('%d,%s' % (i, r.choice(regs)))
                    add('%s,%d' % (r.choice(regs), i))
                    add('%d,%d' % (i, r.randrange(16)))
                    add('%d,%d' % (r.randrange(16), i))
            add('sym-sym,a')
            add('x,fwd-fwd')
            add('0.0,1-1')
        if k == 'tfm':
            for a, b in itertools.product('dxyus', 'dxyus'):
                for f in ('%s+,%s+', '%s-,%s-', '%s+,%s', '%s,%s+'):
                    add(f % (a, b))
                for v in range(5):
                    if density >= 1 or r.random() < density:
                        add('%s+,%s' % (a, r.choice(['%d', '$%x', '%d.0', '%d+sym-sym', 'fwd-fwd+%d']) % v))
                        add('%s,%s+' % (r.choice(['%d', '$0%x', '%d.0', '%d+sym-sym', 'fwd-fwd+%d']) % v, a))
        if k == 'bit':
            for reg in ('cc', 'a', 'b'):
                for i in range(8):
                    for j in range(8):
                        if density >= 1 or r.random() < max(density, 0.2):
                            if r.random() < 0.1:
                                reg = {'cc': '0', 'a': '1', 'b': '1+1'}.get(reg, reg)
                            add('%s,%d,%d,%s' % (reg, i, j, r.choice(['$12', '0', '255', 'sym', 'fwd', '<$34', '$1256'])))
    return lines


def programs(r, lines, is6309, chunk=40, setdp=True):
    """Bundle instruction lines into programs."""
    lines = list(lines)
    r.shuffle(lines)
    out = []
    for i in range(0, len(lines), chunk):
        src = ['sym\tequ\t$%x' % r.randrange(0x10000)]
        src.append('\torg\t$%x' % r.choice([0, 0x1000, 0x7fc0, 0x8000, 0xe000]))
        if setdp and r.random() < 0.6:
            src.append('\tsetdp\t%s' % r.choice(['0', '$12', '$ff', '1', '-1']))
        for op, a in lines[i:i + chunk]:
            if 'nearby' in a:
                src.append('nb%d\t%s\t%s' % (len(src), op, 'nb%d' % len(src)))
            else:
                src.append('%s%s%s%s%s' % ('', r.choice([' ', '\t', '  ']), op, r.choice([' ', '\t', '   ']) if a else '', a))
        src.append('fwd\tequ\t$%x' % r.choice([0x12, 0x1234, 0xff00, r.randrange(0x10000)]))
        out.append(Case(src, isa6309=is6309))
    return out


def negatives(r, ops, names, is6309, density=1.0):
    """One program for each mnemonic and operand that don't go together."""
    out = []

    def add(n, a):
        if density < 1 and r.random() > density:
            return
        out.append(Case([' org $1000', ' fcb 1', ' %s %s' % (n, a), ' fcb 2'], isa6309=is6309))

    def typed(n, *args):
        # operands of the wrong type, which only symbols can have
        for a in args:
            if density < 1 and r.random() > density:
                continue
            d = ['rx equ x', 'ra equ a', 'st equ "str"', 'ar equ [5,x]', 'fl equ 2.5', 'bg equ 1.0*$7fffffffffffffff*4', 'k equ $1010', 'rc equ cc', 'ri equ x+']
            src = [' org $1000', ' fcb 1', ' %s %s' % (n, a), ' fcb 2']
            out.append(Case(d + src if r.random() < 0.6 else src + d, isa6309=is6309))
    for n in names:
        o = ops[n]
        k = o['k']
        p = '#1,' if k == 'immmem' else ''
        if 'imm' in o or k == 'imm':
            typed(n, '#rx', '#ar', '#bg', '#ra', '#st', '#fl', '#k', '#ri')
        if k in ('mem', 'immmem'):
            typed(n, *[p + a for a in ('rx', 'ra', 'ar', 'fl', 'bg', 'k', 'st', '[rx]', '[ar]', '[st]', '[fl]', '[bg]', 'st,x', 'fl,x', 'bg,x', 'ar,x', 'rx,x', 'ra,x', 'rc,x', 'k,rx', 'k,ra', 'k,k', 'k,st', 'k,ar', 'fl,rx', ',rx', ',k', ',fl',
                                       'st,pcr', 'bg,pcr', 'ra,pcr', '<rx', '>ar', '<st', '>bg', '[k,rx]', '[k,k]', '[st,rx]', '[ra,rx]', '[rc,rx]', '[,st]', '[bg,x]', 'k,rx,x')])
        if k == 'immmem':
            typed(n, *['#%s,k' % a for a in ('rx', 'ar', 'bg', 'st', 'fl')] + ['%s,k' % a for a in ('ar', 'fl', 'rc')])
        if k in ('rel8', 'rel16'):
            typed(n, 'rx', 'ar', 'st', 'fl', 'bg', 'k', '[k]', 'k,rx', '#k', 'k+rx', 'k+.5')
        if k == 'stack':
            typed(n, 'st', 'ar', 'k', 'fl', 'ra', 'rx', 'ra,rx,rc', 'ra,k', 'ra,st', 'rx,rx', 'ra,ar', 'ri')
        if k == 'pair':
            typed(n, 'ra,ra', 'rx,st', 'ar,rx', 'ra,bg', 'fl,ra', 'ra,rx', 'k,rx', 'rx,fl', 'st,ra', 'bg,bg', 'rc,ra')
        if k == 'tfm':
            typed(n, 'x+,rx', 'rx,y+', 'x+,ra', 'ra,x+', 'st,x+', 'x+,ar', 'fl,x+', 'x+,bg', 'x+,k', 'rx,rx', 'x-,rx', 'rx,x-')
        if k == 'bit':
            typed(n, *['%s,1,2,3' % a for a in ('ra', 'rc', 'rx', 'st', 'ar', 'fl', 'bg', 'k')] + ['a,%s,2,3' % a for a in ('ra', 'st', 'ar', 'fl', 'bg', 'k', 'fl+5.5', 'fl+6.')]
                  + ['b,1,%s,3' % a for a in ('ra', 'st', 'ar', 'fl', 'bg', 'k')] + ['cc,1,2,%s' % a for a in ('ra', 'st', 'ar', 'fl', 'bg', 'k')])
        if k == 'inh':
            for a in ('5', '#5', ',x', 'a', '"s"', '[$10]', 'a,b'):
                # anything after an inherent instruction is taken as a
                # comment only if it isn't an argument
                add(n, a)
        elif k in ('mem', 'immmem'):
            pre = '' if k == 'mem' else '#1,'
            for a in BAD_MEM:
                add(n, pre + a)
            if 'imm' not in o:
                add(n, pre + '#5')
            else:
                add(n, '#1,2')
                add(n, '#,x')
                add(n, '#undefined_symbol')
            if 'ext' not in o:
                add(n, '$12')
                add(n, '<$12')
                add(n, '>$1234')
            if k == 'immmem':
                add(n, '#1')
                add(n, 'a,$12')
                add(n, '$12')
                add(n, '#1,2,3,4')
        elif k == 'imm':
            for a in ('', '5', '$1234', ',x', 'a', '#1,2', '[5]', '#undefined_symbol', '<5'):
                add(n, a)
        elif k in ('rel8', 'rel16'):
            for a in ('', 'a', ',x', '[5]', '1,2', '"s",1', 'undefined_symbol', '#', '#5', '#*', '#undefined_symbol'):
                add(n, a)
            if k == 'rel8':
                for a in ('*+130', '*-127', '*+300', '*-1000', '*+32768'):
                    add(n, a)
        elif k == 'stack':
            own = o['own']
            for a in (own, 'a,%s' % own, 'pcr', '5', '#5', 'a,5', '[a]', 'a,,b', 'e', 'w', 'q', 'undefined_symbol', '"a"', 'x+', '-y', 'a,x++', '--y,b', 'a+', 'cc-', '<a'):
                if is6309 or a not in ('e', 'w', 'q'):
                    add(n, a)
        elif k == 'pair':
            for a in ('b,"a"', 'x,/ab/', '"",d', '[1],a', 'a,[b]', '1,"x"', '/x/,1', 'x+,y', 'x,-y', 'x,y++', '--x,y', 'd+,y', 'a,-b', 'x-,y', '#x,y', '', 'a', 'a,b,d', 'pcr,x', 'a,pcr', 'x,[5]', '"a",b', 'a,99', '-1,a', 'q,d', 'undefined_symbol,a',
                      'a,undefined_symbol', '16,a', 'x,16', '$100,1', '$100000000,a', 'b,$100000001', '$700000002,3', '2,$ff00000003', '1<<32,x', '$7fffffffffffffff,d', '-$100000000,1', '-1<<32,x', '0-$ffffffff,a'):
                add(n, a)
        elif k == 'tfm':
            for a in ('x,y', 'x+', '', 'x-,y', 'x,y-', 'x+,y-', 'x-,y+', 'pc+,x+', 'a+,x+', 'x++,y++', '-x,-y', 'x+,y+,d',
                      'w+,x+', 'x+,undefined_symbol', '5,x',
                      '5,x+', 'x+,5', '-1,y+', 'y+,-1', 'x+,$100000000', '$100000002,u+', '15,s+', 's+,16', '"a",x+', 'x+,"a"', '[1],x+',
                      'x+,[1]', '1,2', '1,x-', 'x-,1', '1,x', 'x,1', 'cc+,1', 'undefined_symbol,x+', ',x+', 'x+,', '/s/,d+', 'u+,/s/',
                      '1,v+', '5,d+', 'd+,1<<63', '1,x+,2'):
                add(n, a)
        elif k == 'bit':
            for a in ('a+,1,2,3', '-b,1,2,3', 'cc-,1,2,3', '--a,1,2,3', 'a,1,2', 'x,1,2,3', 'a,8,2,$10', 'a,1,8,$10', 'a,-1,2,3', 'a,1,2,3,4', '', 'd,0,0,0', 'a,b,1,2',
                      'a,1,2,x', 'a,1,2,undefined_symbol', 'a,$100000000,1,2', 'a,1,$100000001,2', 'b,256,1,2', 'b,1,256,2', 'b,-$100000000,1,2', 'cc,1,1<<32,3', 'a,1,2,$100000012', '$100000001,1,2,3', '0,1,2,3', '1,1,2,3', '2,3,4,$50', '3,1,2,3', '4,1,2,3', '-1,1,2,3', '256,1,2,3', '1.0,1,2,3', '"A",1,2,3'):
                add(n, a)
    return out
