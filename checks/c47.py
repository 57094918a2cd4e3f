"""Abstract interpretation of the size parser in the bit-dependence domain. A text is a row of characters; digits are characters
whose low bits are unknown, and the library's conversion of a run of digits is a number of 64 unknown bits. The texts are partitioned
by their last characters, over every ending the property tells apart and the endings next to them; the result must be the bits of the
number moved by the right distance, or zero."""
TECHNIQUE = 'abstract interpretation in a bit-dependence domain, partitioned by the end of the text'
NOTE = 'All numbers (any digits, up to 19 of them) under each ending of up to three characters.'

from hz import prog, bits
from hz.bits import Cell, Rec, Fault, Raised
from hz.extract import VERIF
from hz.stdbits import Std, Str

UNITS = [(VERIF + '/drivers/terminal.cpp', 'cpu')]
SHIFT = {'kb': 10, 'mb': 20, 'gb': 30, 'b': 0}
OTHER = ['', 'k', 'm', 'g', 'KB', 'MB', 'GB', 'B', 'kB', 'Kb ', 'kbs', 'bk', 'bm', 'bg', 'kk', 'kbit', 'b ', 'gbk', 'x', '%']


def digit(i):
    low = bits.sym('digit%d' % i, 8)[:4]
    return low + bits.const(3, 4)


class Sizes(Std):
    """Knows the conversions of digits to numbers."""
    WIDTH = {'stoull': 64, 'stoul': 64, 'stoll': 64, 'stol': 64, 'stoi': 32, 'strtoull': 64, 'strtoul': 64, 'strtoll': 64, 'strtol': 64,
             'atoll': 64, 'atol': 64, 'atoi': 32}

    def library(self, e, env):
        n = e.get('n') or ''
        if n in self.WIDTH:
            s = self.text(self.ev(e['args'][0], env), e)
            run = []
            for c in s.cells:
                v = c.get(e['l'])
                if isinstance(v, tuple) and any(isinstance(a, tuple) for b in v for a in b) and v[4:] == bits.const(3, 4):
                    run.append(v)
                else:
                    break
            if not run:
                if n.startswith('sto'):
                    raise Raised('std::invalid_argument')
                return bits.const(0, self.w(e['t'])),
            name = 'number(%s)' % ','.join(sorted(str(a[0]) for v in run for a in v[0] if isinstance(a, tuple)))
            w = self.WIDTH[n]
            x = bits.sym(name, 64)
            self.number = (x, len(run))
            x = bits.resize(x[:w], self.w(e['t']), e['t'].s)
            return x,
        return super().library(e, env)


def run(ctx):
    ctx.rule('meaning', 'a text denotes its number times the unit it ends in, and zero without a unit', 30)
    ctx.rule('total', 'no text raises an exception that has digits before its unit, or no unit', 0)
    ctx.assume('the conversions of the standard library read the digits a text begins with')
    p = prog.load(UNITS)
    ctx.program(p)
    f = p.one('conv_to_bytes')
    ctx.analysed(f)
    cases = [(n, s) for n in (1, 2, 5, 19) for s in list(SHIFT) + OTHER] + [(0, s) for s in OTHER]
    for n, s in cases:
        what = '%s"%s"' % ('%d digits and ' % n if n else '', s)
        I = Sizes(p)
        txt = Str([Cell(digit(i)) for i in range(n)] + [Cell(bits.const(ord(ch), 8)) for ch in s])

        def go(I):
            I.number = (None, 0)
            v = I.call(f, [Cell(I.copy(txt))])
            if s in SHIFT:
                x, k = I.number
                want = bits.resize((bits.O,) * SHIFT[s] + (x or ()), 64, False)
                if k != n or not same(v, want):
                    return 'is not the number times 2^%d' % SHIFT[s]
            elif bits.value(v) != 0:
                return 'is not zero'
        try:
            msg = next((m for m in I.every(go) if m), None)
            ctx.ob('meaning', what, msg is None, f.rel, f.q, f.line, 'the value of %s %s' % (what, msg), detail=s or 'plain')
        except Fault as x:
            ctx.ob('meaning', what, False, f.rel, f.q, x.line, '%s: %s' % (what, x.what), detail=s or 'plain')
        except Raised:
            ctx.ob('total', what, False, f.rel, f.q, f.line, '%s raises an exception' % what, detail=s or 'plain')


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))
