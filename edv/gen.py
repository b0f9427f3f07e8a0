"""Workload generation: commands composed online against the model, so
that most are valid in the state they meet and the rest fail in a known
way.  Everything is driven by one random.Random."""
import random

from . import model, rx
from .run import Case

WORDS = [b'a', b'b', b'ab', b'ba', b'aab', b'foo', b'bar', b'baz', b'foobar',
         b'xx', b'x', b'', b' ', b'ABC', b'aXbXc', b'one two', b'o.o', b'a*b',
         b'[x]', b'$5', b'^q', b'\\n', b'a\\b', b'(z)', b'a/b', b'10%', b'&',
         b'tab\there', b'.', b'..', b'a.', b'end', b'foo foo foo', b'aaaa',
         b'bbb aaa', b'Mixed Case', b'0123456789', b'-', b'+1', b'x=y']
ODD = [b'\x01\x02', b'\x07bell', b'\x1b[31mred\x1b[m', b'back\bspace', b'\x7f',
       b'cr\rhere', b'ff\fhere', b'vt\vhere', b'tail\f', b'\f']
U8 = ['h\u00e9llo'.encode(), '\u20ac5'.encode(), '\u65e5\u672c\u8a9e'.encode(),
      '\U0001d54f'.encode(), 'na\u00efve a\u00e9b'.encode()]
BIN = [b'nul\0here', b'\0', b'\xff\xfe', b'\x80a\x80', b'a\xc3', b'\xe2\x82']
PATS = [b'a', b'b', b'ab', b'x*', b'a*', b'^a', b'a$', b'^$', b'.', b'o', b'foo',
        b'[abc]', b'[^a]', b'a.b', b'\\(a\\)\\(b*\\)', b'\\(.\\)\\1', b'o\\{2\\}',
        b'a\\{1,2\\}', b'[[:digit:]]', b'[[:upper:]]', b'^.*$', b'^', b'$', b'b*',
        b'[]x]', b'[^]x]', b'\\.', b'\\*', b'ba*', b'zzz', b'nomatch', b'[a-c]x',
        b'\\(foo\\|bar\\)', b'foo\\|bar', b'\\<', b'e', b'Mi', b'\\(x*\\)y', b'two',
        b'\\(a*\\)*', b'[0-9][0-9]*', b' ', b'  *', b'..', b'...', b'.*']
EPATS = [b'a+', b'(a)(b*)', b'a|b', b'(foo|bar)+', b'o{2}', b'a?', b'x?y', b'(.)\\1',
         b'^(a|b)', b'[0-9]+', b'(a*)+', b'(ab)*', b'a', b'foo', b'^$', b'.', b'x*',
         b'nomatch', b'\\w', b'\\bfoo', b'(x|)', b'\\(', b'e$']
REPL = [b'', b'X', b'&', b'[&]', b'\\&', b'\\1', b'<\\1>', b'\\2\\1', b'&&', b'\\0',
        b'\\U&', b'\\u&', b'\\L&\\E-&', b'\\Ua\\Eb', b'\\lABC', b'longer text here',
        b'\\\\', b'a', b'\\9', b'-', b'\\n', b'%', b'x%y', b'\\t', b'foo']


class Gen(object):
    maker = model.Ed

    def __init__(self, seed, w, **opt):
        self.r = random.Random(seed)
        self.w = dict(w)                     # production -> weight
        self.opt = opt
        self.longlines = opt.get('longlines', 0.01)
        self.bad = opt.get('bad', 0.08)      # chance of a deliberately bad address
        self.odd = opt.get('odd', 0.05)
        self.bin = opt.get('bin', 0.0)
        self.u8 = opt.get('u8', 0.02)
        self.nprobe = opt.get('probe', 0.15)
        self.maxlines = opt.get('maxlines', 60)
        self.dropped = 0
        self.sufp = opt.get('suffix', 0.15)
        self.cut = opt.get('cut', 0.0)       # chance to end inside a command

    # -- pieces -------------------------------------------------------------
    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def text(self):
        r = self.r
        x = r.random()
        if x < self.longlines:
            n = r.choice([79, 80, 81, 511, 512, 513, 1023, 4095, 4096, 4097, 8191, 8193,
                          9000, 20000])
            return (r.choice([b'q', b'long ', b'xyz', b'ab']) * n)[:n]
        if x < self.longlines + self.odd:
            return r.choice(ODD)
        if x < self.longlines + self.odd + self.u8:
            return r.choice(U8)
        if x < self.longlines + self.odd + self.u8 + self.bin:
            return r.choice(BIN)
        k = r.randrange(1, 4)
        return (b' ' if r.random() < .4 else b'').join(r.choice(WORDS) for _ in range(k))

    def line(self):
        while True:
            t = self.text()
            if t != b'.':
                return t

    def body(self, lo=0, hi=4):
        n = self.r.randint(lo, hi)
        if self.m.lines > self.maxlines:
            n = min(n, 1)
        return b''.join(self.line() + b'\n' for _ in range(n)) + b'.\n'

    def pat(self):
        r = self.r
        if r.random() < .12:
            return b''
        if r.random() < .25 and self.m.lines:
            # something from the text
            s = r.choice(self.m.st.buf).s
            if s:
                i = r.randrange(len(s))
                t = s[i:i + r.randint(1, 4)]
                if self.m.ere:
                    t = b''.join(b'\\' + bytes((c,)) if c in b'\\^$.[]*+?(){}|/' else bytes((c,)) for c in t)
                else:
                    t = b''.join(b'\\' + bytes((c,)) if c in b'\\^$.[]*/' else bytes((c,)) for c in t)
                if b'\n' not in t and b'\0' not in t:
                    return t
        return r.choice(EPATS if self.m.ere else PATS)

    def delim(self, pat, rep=b''):
        for d in self.r.sample([b'/', b'/', b'/', b',', b'|', b'x', b'#', b';', b'!', b'"', b'q'], 6):
            if d not in pat and d not in rep:
                return d
        return b'/'

    def search(self):
        d = self.pick([b'/', b'?'])
        p = self.pat().replace(d, b'.')
        if d == b'?':
            p = p.replace(b'/', b'.')
        return d + p + d

    def anum(self, n=None):
        """Address spelled somehow that mostly designates line n."""
        m, r = self.m, self.r
        N, dot = m.lines, m.st.dot
        if n is None:
            n = r.randint(1, N) if N else 0
        x = r.random()
        if x < .45:
            return b'%d' % n
        if x < .55:
            d = n - dot
            return r.choice([b'.%+d' % d if d else b'.', b'%+d' % d if d else b'.'])
        if x < .65:
            d = n - N
            return b'$' if not d else b'$%d' % d
        if x < .70:
            d = n - dot
            if 0 < abs(d) < 5:
                return (b'+' if d > 0 else r.choice([b'-', b'^'])) * abs(d)
            return b'%d' % n
        if x < .78:
            ms = [i for i in range(26) if m.marks[i] is not None
                  and (self.chance(.2) or m.idx(m.marks[i]))]
            if ms:
                i = r.choice(ms)
                j = m.idx(m.marks[i])
                if j is not None and r.random() < .6 and n != j:
                    return b"'%c%+d" % (97 + i, n - j)
                return b"'%c" % (97 + i)
            return b'%d' % n
        if x < .88:
            return self.search()
        if x < .93:
            k = r.randint(0, 3)
            return b'%d %d' % (max(0, n - k), k) if n >= k else b'%d' % n
        if x < .96:
            return b'%d+%d-%d' % (n, 2, 2)
        return r.choice([b'$', b'.', b'1'])

    def badaddr(self):
        m, r = self.m, self.r
        return r.choice([b'%d' % (m.lines + 2 + r.randint(0, 3)), b'-%d' % (m.st.dot + 2),
                         b"'%c" % r.randint(97, 122), b"'A", b'/nosuchtext/', b'5,3',
                         b'999999999999', b'$+1', b'-1,5', b'99999999999999999999',
                         b'0', b'0,0', b'0,$', b'3 4 5', b'4611686018427387904+4611686018427387904',
                         b'9223372036854775806++', b'$;1', b'/', b'?\\', b'/[a/', b'1,2,3,4'])

    def a1(self, zero=False):
        """Optional single address."""
        if self.chance(self.bad):
            return self.badaddr()
        N = self.m.lines
        if self.chance(.3):
            return b''
        if zero and self.chance(.25):
            return b'0'
        return self.anum() if N else self.pick([b'', b'0', b'$'])

    def a2(self, zero=False):
        """Optional range."""
        m, r = self.m, self.r
        if self.chance(self.bad):
            return self.badaddr()
        N = m.lines
        if not N:
            return self.pick([b'', b'', b'0', b'1', b',', b'0,0'])
        x = r.random()
        if x < .22:
            return b''
        if x < .40:
            return self.anum()
        if x < .46:
            return r.choice([b',', b'%', b'1,$'])
        if x < .50:
            return b';'
        a = r.randint(0 if zero and r.random() < .2 else 1, N)
        b = r.randint(max(a, 1), max(1, min(N, a + r.choice([0, 1, 2, 3, 8, N]))))
        if x < .54:
            return b',%s' % self.anum(b)
        if x < .57:
            return b';%s' % self.anum(b)
        if x < .60:
            return b'%s,' % self.anum(a)
        if x < .66:
            return b'%s;+%d' % (self.anum(a), b - a) if b > a else b'%d;.' % a
        if x < .70:
            c = r.randint(1, N)
            return b'%d,%d%s%d' % (c, a, r.choice([b',', b';']), b) if c <= N else b'%d,%d' % (a, b)
        if x < .90:
            return b'%d,%d' % (a, b)
        return b'%s,%s' % (self.anum(a), self.anum(b))

    def suf(self):
        if not self.chance(self.sufp):
            return b''
        return self.pick([b'p', b'n', b'l', b'np', b'pl', b'ln', b'p'])

    # -- productions (each returns complete input) --------------------------
    def g_a(self):
        return self.a1(True) + b'a' + self.suf() + b'\n' + self.body(0, 4)

    def g_i(self):
        return self.a1(True) + b'i' + self.suf() + b'\n' + self.body(0, 4)

    def g_c(self):
        return self.a2(True) + b'c' + self.suf() + b'\n' + self.body(0, 4)

    def g_d(self):
        m = self.m
        if m.lines > 6 and self.chance(.6):
            a = self.r.randint(1, m.lines)
            return b'%d,%dd%s\n' % (a, min(m.lines, a + self.r.randint(0, 2)), self.suf())
        return self.a2() + b'd' + self.suf() + b'\n'

    def g_j(self):
        m = self.m
        if m.lines > 3 and self.chance(.6):
            a = self.r.randint(1, m.lines)
            return b'%d,%dj%s\n' % (a, min(m.lines, a + self.r.randint(0, 3)), self.suf())
        return self.a2() + b'j' + self.suf() + b'\n'

    def dest(self):
        x = self.r.random()
        if x < .15:
            return b''
        if x < .3:
            return b'0'
        if self.chance(self.bad):
            return self.badaddr()
        if self.m.lines and self.chance(.2):
            return self.pick([b'%d,%d' % (1, self.m.lines), b'$', b'.', b'+', b'-'])
        return self.anum() if self.m.lines else b'0'

    def g_m(self):
        return self.a2() + b'm' + self.dest() + self.suf() + b'\n'

    def g_t(self):
        if self.m.lines > self.maxlines:
            return self.g_d()
        return self.a2() + b't' + self.dest() + self.suf() + b'\n'

    def g_k(self):
        return self.a1(True) + b'k' + bytes((self.r.choice(b'abcdefgxyz'
                if not self.chance(.04) else b'A1 {'),)) + self.suf() + b'\n'

    def g_mark_use(self):
        ms = [i for i in range(26) if self.m.marks[i] is not None]
        if not ms:
            return self.g_k()
        c = 97 + self.pick(ms)
        return self.pick([b"'%c=\n", b"'%cp\n", b"'%cn\n", b"'%c,$n\n", b"'%c;+1p\n",
                          b"1,'%cp\n"]) % c

    def g_u(self):
        return b'u' + self.suf() + b'\n'

    def g_p(self):
        return self.a2() + self.pick([b'p', b'n', b'l', b'pn', b'nl', b'lp']) + b'\n'

    def g_probe(self):
        if self.opt.get('clean'):
            return b'w clean\n'
        return self.pick([b',n\n', b'.=\n', b'=\n', b'$=\n', b',p\n', b'n\n', b'.n\n'])

    def g_eq(self):
        return self.a2() + b'=' + self.suf() + b'\n'

    def g_nl(self):
        return self.pick([b'\n', self.a2() + b'\n', self.a1() + b'\n'])

    def g_comment(self):
        return self.a2() + b'# ' + self.text().replace(b'\0', b'') + b'\n'

    def g_addr(self):
        """Address expressions for their own sake."""
        r = self.r
        n = r.randint(1, 4)
        seps = [b',', b';', b'%', b',', b';']
        parts = []
        for i in range(n):
            if r.random() < .2:
                parts.append(b'')
            else:
                parts.append(self.anum())
        e = parts[0]
        for q in parts[1:]:
            e += r.choice(seps) + q
        if r.random() < .3:
            e += r.choice([b'+', b'-', b'++', b'--', b'+1', b'-1', b' 1', b'-2+1', b'^', b'+2 1'])
        if r.random() < .15:
            e = r.choice([b' ', b'\t', b'  ']) + e.replace(b',', b' , ')
        return e + self.pick([b'p', b'=', b'n', b'=', b'', b'=p']) + b'\n'

    def g_search(self):
        s = self.search()
        if self.chance(.3):
            s = s[:-1]
            return s + b'\n'
        if self.chance(.3):
            s += self.pick([b'+', b'-', b'+1', b',$', b';+1', b',/b/', b';//'])
        return s + self.pick([b'', b'p', b'=', b'n']) + b'\n'

    def g_bad(self):
        r = self.r
        if r.random() < .3:
            # Any command with an address or suffix it may not have.
            c = r.choice([b'a', b'c', b'd', b'e', b'f', b'h', b'i', b'j', b'k' + self.pick([b'a', b'b', b'c']),
                          b'l', b'm' + self.dest(), b'n', b'p', b'q', b'r', b't' + self.dest(), b'u', b'w',
                          b'E', b'H', b'P', b'Q', b'W', b'=', b'@1', b's', b'z', b'g/./p', b'<1t0', b'm>1',
                          b'P', b'H', b'P'])
            a = b'' if r.random() < .5 else self.a2(True)
            return a + c + r.choice([b'x', b'z', b'!', b';', b'0', b'-', b'/', b'pz', b'n,', b' x', b'p p', b'pnx',
                                     b'']) + b'\n'
        return r.choice([
            b'y\n', b'1y\n', b'pq\n', b'dz\n', b'5,2p\n', b'{\n', b'|\n', b'kA\n', b'k\n',
            b'1q\n', b'1u\n', b'2h\n', b'3H\n', b'1f\n', b'1e x\n', b'rx\n', b'wx\n', b'ex\n',
            b'fx\n', b'Ex\n', b'1Q\n', b'px\n', b'ax\n', b'=x\n', b'jx\n', b's\n', b's/\n',
            b's x y \n', b's/a\\\n', b'g/a/g/b/p\n', b'/[/p\n', b's/[/x/\n', b's/\\(/x/\n',
            b'<d\n', b'<1p\n', b'~d\n', b'~p\n', b'~m1\n', b'm99999\n', b't99999\n',
            b'1,2m1\n', b'999999p\n', b"'zp\n", b"'Zp\n", b'-999p\n', b'\x80\n', b'\xff\n',
            b'*\n', b'1P\n', b'1,2=\n', b'99,98p\n', b'g\n', b'v\n', b'G x \n', b'\x01\n',
            b'rnosuchfile\n', b'r nosuchfile\n', b'^^^^^^^^^^^^p\n', b's/x/y/zz\n', b's5x\n',
            b'2,1d\n', b'3,1j\n', b'e a b\n', b'wqx\n', b'W\n', b'p5\n', b'd5\n',
            b'@@@@x\n', b'!!\n', b'D\n', b'S\n', b'1,3,\n',
            b'/nosuch/\n', b'?nosuch?\n', b'99999999999999999999p\n', b'0p\n', b'0d\n', b'0,1p\n'])

    def g_h(self):
        return self.pick([b'h\n', b'H\n', b'h\n', b'P\n', b'hp\n', b'Hn\n'])

    # substitution
    def sub(self, g=False):
        r = self.r
        p = self.pat()
        q = r.choice(REPL) if r.random() < .85 else self.text()
        if self.chance(.1):
            # Multi-line replacement.
            q = q + (b'\\\n' if not g else b'\\\n') + r.choice(REPL)
            self._ml = True
        d = self.delim(p, q)
        q = q.replace(b'\\' + d, b'').replace(d, b'\\' + d)
        if b'\0' in q:
            q = b'X'
        if q.endswith(b'\\') and not q.endswith(b'\\\\'):
            q = q[:-1]
        if self.chance(.04):
            q = b'%'
        x = r.random()
        if x < .07:
            return b's' + d + p + d + q
        if x < .09:
            return b's' + d + p
        f = b''
        if x < .40:
            f = b''
        elif x < .60:
            f = b'g'
        elif x < .72:
            f = b'%d' % r.randint(0, 4)
        elif x < .80:
            f = b'%dg' % r.randint(1, 3)
        elif x < .86:
            f = b'g%d' % r.randint(0, 3)
        elif x < .92:
            f = r.choice([b'$', b'$-1', b'$-2', b'-1', b'g$', b'1g2', b'2g2', b'2g3', b'g-1', b'$g', b'+2', b'g$-1', b'g0', b'g-2', b'g+0', b'g-0', b'$0',
                          b'-0', b'g+2', b'2g-1', b'-1g2', b'gg', b'g2g3', b'3-1', b'g1+1'])
        f += r.choice([b'', b'', b'', b'p', b'n', b'l', b'np'])
        return b's' + d + p + d + q + d + f

    def g_s(self):
        return self.a2() + self.sub() + b'\n'

    def g_s_rep(self):
        if self.r.random() < .35:
            return self.a2() + b's' + b''.join(
                self.pick([b'g', b'p', b'r', b'$', b'$', b'2', b'-1', b'+1', b'0', b'3', b'1', b'^', b'-2', b'n', b'l'])
                for _ in range(self.r.randint(1, 4))) + b'\n'
        return self.a2() + b's' + self.pick([b'', b'', b'g', b'p', b'r', b'gp', b'rg', b'2', b'3',
                                             b'1', b'$', b'2p', b'rp', b'g2', b'-1', b'$-1', b'rgp', b'g3p', b'gg', b'2g', b'0', b'g0', b'g-1', b'g$', b'-2', b'+1', b'gr', b'pg']) + b'\n'

    # global
    def gcmd(self):
        """One command for a global list, newline not included."""
        r = self.r
        if r.random() < .04 + min(.5, self.w.get('addr', 0) * .04):
            return self.g_addr()[:-1]
        x = r.random()
        loc = r.choice([b'', b'', b'', b'', b'.', b'+', b'-', b'.,+', b'-,.', b'1', b'$', b'.+1', b'1,.',
                        b'.;+', b'1;+1', b'-;.', b'//', b"'a", b'.,$', b'2,3'])
        if x < .12:
            return loc + r.choice([b'p', b'n', b'l', b'='])
        if x < .26:
            return r.choice([b'', b'', b'.,+', b'-', b'+']) + b'd'
        if x < .36:
            return loc + b'm' + r.choice([b'0', b'$', b'+', b'-', b'.', b'.+1', b'1'])
        if x < .46:
            return loc + b't' + r.choice([b'0', b'$', b'.', b'-'])
        if x < .62:
            s = self.sub(True)
            # lists take complete substitutions only
            return r.choice([b'', b'', b'.,+']) + s
        if x < .68:
            return b'.,+j' if r.random() < .6 else b'-,.j'
        if x < .82:
            c = r.choice([b'a', b'i', b'c'])
            n = r.randint(0, 2)
            b = loc + c + b''.join(b'\n' + self.line().replace(b'\\', b'') for _ in range(n))
            if r.random() < .7 or n == 0:
                b += b'\n.'
            return b
        if x < .88:
            return b'k' + bytes((r.choice(b'abc'),))
        if x < .93:
            return r.choice([b's', b'sg', b'sp', b'u', b'=', b'/a/p', b'/a/', b'//s//Z/', b'?b?d', b"'ap", b"'a,.p"])
        if x < .97:
            return r.choice([b'd', b'999p', b'/nosuch/', b'#c', b'', b'h', b'1,$p'])
        return loc + r.choice([b'm>1', b't>2', b't>>', b'm>>1', b'd', b'<t.', b'<1t.', b'<t$', b'@', b'<1@'])

    def glist(self):
        k = self.r.choice([1, 1, 1, 2, 2, 3])
        return b'\n'.join(self.gcmd() for _ in range(k))

    def esc(self, lst):
        """Escape a command list for reading through continuation lines."""
        return lst.replace(b'\\\n', b'\\\\\n').replace(b'\n', b'\\\n') if False else \
            b'\\\n'.join(x + (b'\\' if x.endswith(b'\\') and not x.endswith(b'\\\\') else b'')
                         for x in lst.split(b'\n'))

    def g_g(self):
        c = self.pick([b'g', b'g', b'v'])
        p = self.pat()
        d = self.delim(p)
        l = self.esc(self.glist())
        if self.chance(.08):
            l = b''
        if self.m.lines > self.maxlines and b't' in l:
            l = b'p'
        x = self.a2() + c + d + p + d + l + b'\n'
        if self.chance(.04):
            x = self.a2() + c + d + p + b'\n'
        return x

    def g_G(self):
        """Interactive global: answers are generated as lines are shown."""
        c = self.pick([b'G', b'V'])
        p = self.pat()
        d = self.delim(p)
        head = self.a2() + c + d + p + d + self.suf() + b'\n'
        n = self.r.randint(0, min(self.m.lines + 1, 12))
        out = head
        for i in range(n):
            x = self.r.random()
            if x < .25:
                out += b'\n'
            elif x < .5:
                out += b'&\n'
            else:
                out += self.esc(self.gcmd()) + b'\n'
        return out

    # files
    FN = [b'f1', b'f2', b'out', b'new', b'w x']

    def fn(self):
        return self.pick(self.FN)

    def g_w(self):
        x = self.r.random()
        if x < .35:
            return b'w ' + self.fn() + b'\n'
        if x < .5:
            return b'w\n'
        if x < .7:
            return self.a2() + b'w ' + self.fn() + b'\n'
        if x < .85:
            return self.a2() + b'W ' + self.fn() + b'\n'
        return self.pick([b'W\n', b'w /dev/null\n', b'f\n', b',w\n'])

    def g_r(self):
        if self.m.lines > self.maxlines:
            return self.g_d()
        x = self.r.random()
        if x < .75:
            return self.a1(True) + b'r ' + self.fn() + b'\n'
        return self.a1(True) + self.pick([b'r\n', b'r /dev/null\n', b'r nosuch\n', b'r\n'])

    def g_e(self):
        return self.pick([b'e ', b'E ', b'E ']) + self.fn() + b'\n'

    def g_e0(self):
        return self.pick([b'e\n', b'E\n'])

    def g_f(self):
        return self.pick([b'f\n', b'f ' + self.fn() + b'\n'])

    # names and shell commands refused by the restricted editor
    OUT = [b'/etc/passwd', b'../x', b'd/x', b'..', b'./f1', b'/', b'f1/', b'f1/..', b'../w/f1', b'//f1',
           b'a\\/b', b'...', b'..x', b'x..', b'~x', b'a\\\n../x']

    def g_red(self):
        x = self.r.random()
        n = self.pick(self.OUT)
        if x < .15:
            return self.pick([b'f ', b'f ', b'e ', b'E ']) + n + b'\n'
        if x < .35:
            return self.a1(True) + b'r ' + n + b'\n'
        if x < .6:
            return self.a2() + self.pick([b'w ', b'W ', b'wq ']) + n + b'\n'
        if x < .7:
            return self.a1(True) + b'r !' + self.shx() + b'\n'
        if x < .8:
            return self.a2() + self.pick([b'w !', b'W !']) + self.shx() + b'\n'
        if x < .9:
            return self.a2(True) + b'!' + self.shx() + b'\n'
        if x < .95:
            return self.pick([b'e !', b'E !', b'f !']) + self.shx() + b'\n'
        return self.pick([b'!ls \\\np\n', b'!!\n', b'!\n', b'g/./!echo x\n', b'g/a/r !echo x\\\np\n',
                          b'g/./w ../x\n', b'1,$!!\n'])

    def g_q(self):
        return b'q\n'

    def g_sq(self):
        """Save, make one change of any kind, try to leave."""
        out = self.pick([b'w f1\n', b'w\n', b'w out\n', b'E f1\n', b''])
        for i in range(self.pick([1, 1, 1, 2])):
            k = self.pick(['a', 'i', 'c', 'd', 'j', 'm', 't', 's', 'g', 'r', 'reg_r', 'reg_w',
                           'filter', 'rsh', 'u', 'm', 't', 'k', 'w', 'mac_run', 'p'])
            out += getattr(self, 'g_' + k)()
        return out + self.pick([b'q\n', b'e f2\n', b'q\n', b'e\n', b'wq /dev/null\n', b'1wq out\n'])

    # registers and macros
    def reg(self):
        return self.pick([b'', b'', b'1', b'2', b'3', b'0', b'9'])

    def g_reg_w(self):
        return self.a2() + self.pick([b't', b't', b'm']) + self.pick([b'>', b'>', b'>>']) + self.reg() + self.suf() + b'\n'

    def g_reg_r(self):
        if self.m.lines > self.maxlines:
            return self.g_d()
        return b'<' + self.reg() + self.pick([b't', b't', b'm']) + self.dest() + self.suf() + b'\n'

    def g_reg_rr(self):
        return b'<' + self.reg() + self.pick([b't', b'm']) + self.pick([b'>', b'>>']) + self.reg() + b'\n'

    def mcmd(self):
        """A command line fit for a macro."""
        r = self.r
        x = r.random()
        if x < .2:
            return r.choice([b'p', b'n', b'.=', b'l', b',n', b'+p', b'-p', b'$='])
        if x < .35:
            return r.choice([b's/a/b/', b's/x*/-/g', b's/^/> /', b's/b/&&/p', b's//Q/', b'/a/', b'?b?', b'//p', b's'])
        if x < .5:
            return r.choice([b'd', b'.t.', b'm0', b'm$', b't0', b'.,+j', b'ka', b"'ap", b'u'])
        if x < .65:
            return r.choice([b'a', b'i', b'c']) + b'\n' + self.line() + (b'\n.' if r.random() < .8 else b'')
        if x < .75:
            return r.choice([b'g/a/s//A/', b'g/./p', b'v/a/d', b'g/b/m0', b'g/^/s/$/!/', b'g/a/<1@'])
        if x < .82:
            return r.choice([b'@', b'@1', b'<2@', b'@3', b'1@2'])
        if x < .9:
            return r.choice([b'.t>1', b'<1t.', b'd', b'<t$', b'm>2', b't>>3'])
        return r.choice([b'999p', b'/nosuch/', b'y', b'#x', b'h', b'P', b'', b'.', b'$', b'1'])

    def g_mac_def(self):
        """Write lines, store them in a register, take them out again."""
        n = self.r.randint(1, 4)
        t = b'\n'.join(self.mcmd() for _ in range(n)).split(b'\n')
        t = [x for x in t if x != b'.'] if not self.chance(.7) else t
        # a `.' line cannot be typed as text: build it by substitution
        out = b'$a\n'
        fix = b''
        for i, x in enumerate(t):
            out += (b'..' if x == b'.' else x) + b'\n'
        out += b'.\n'
        if b'.' in t:
            out += b'$-%d,$g/^\\.\\.$/s//./\n' % (len(t) - 1)
        out += b'$-%d,$m>%s\n' % (len(t) - 1, self.reg())
        return out

    def g_mac_run(self):
        return self.a1() + self.pick([b'@', b'@', b'<@']).replace(b'<@', b'<' + self.reg() + b'@') + b'\n' \
            if self.chance(.4) else self.a1() + b'@' + self.reg() + b'\n'

    # shell
    SH = [b'tr a-z A-Z', b'sort', b'cat', b'sed -n 1p', b'sed "s/a/b/"', b'wc -c', b'sort -r | uniq',
          b'cat -n', b'true', b'head -n 1', b'tail -n 2', b'grep -v a', b'cat; echo tail',
          b'printf x', b'printf "a\\nb"', b'echo hi; exit 3', b'tr -d "\\n"', b'false']
    SHR = [b'echo hello', b'printf "a\\nb\\n"', b'printf "no newline"', b'true', b'false', b'exit 4',
           b'echo "[%]"', b'echo \\%', b'printf "x\\0y\\n"', b'echo "%-"', b'seq 1 3', b'echo a!b']

    SHTOK = [b'!!', b'!', b'%', b'\\%', b'%-', b'x', b'a b', b'!!!', b'%%', b'\\\\', b'#', b'"!!"',
             b'"%"', b'$', b'!x']

    def shx(self):
        """A command that shows how its text was expanded."""
        return b'echo ' + self.pick([b'', b'"']).join(
            [b'', b' '.join(self.pick(self.SHTOK) for _ in range(self.r.randint(1, 4))), b'']) \
            if self.chance(.5) else \
            self.pick([b'!', b'!!', b'! %', b'! !!', b'!; echo \\% %', b'!; echo !!', b'!!! x'])

    def g_sh(self):
        if self.chance(.5):
            return b'!' + self.shx().replace(b'$', b'S') + b'\n'
        return b'!' + self.pick(self.SHR + [b'!', b'! | cat', b'!; echo again']) + b'\n'

    def g_filter(self):
        if self.chance(.12):
            return self.a2(True) + b'!' + self.shx() + b'\n'
        return self.a2(True) + b'!' + self.pick(self.SH) + b'\n'

    def g_rsh(self):
        if self.m.lines > self.maxlines:
            return self.g_d()
        if self.chance(.2):
            return self.a1(True) + b'r !' + self.shx() + b'\n'
        return self.a1(True) + b'r !' + self.pick(self.SHR + [b'!']) + b'\n'

    def g_wsh(self):
        return self.a2() + b'w !' + self.pick(self.SH) + b'\n'

    def twist(self, u):
        return u

    # -- cases ------------------------------------------------------------------
    def case(self, nunits, files=None, args=('-s',), mopts=None, env=None, locale='C',
             start=None, end=None):
        r = self.r
        rx.set_locale(locale)
        mo = dict(scripted='-s' in args)
        mo.update(mopts or {})
        fl = dict(files or {})
        self.m = m = self.maker(files={k: model.File(v) for k, v in fl.items()},
                              locale=locale, **mo)
        m.steps = [] if self.opt.get('steps') else None
        script = []
        prods = sorted(k for k in self.w if self.w[k] > 0)
        wts = [self.w[k] for k in prods]
        units = list(start(self) if start else [])
        kept = 0

        def attempt(u):
            s = m.snap()
            try:
                m.feed(u)
                if m.exited is not None:
                    raise model.Unspec()
                script.append(u)
                return True
            except model.Unspec:
                m.restore(s)
                self.dropped += 1
                return False
        for u in units:
            if not attempt(u):
                raise RuntimeError('start unit rejected: %r' % u)
        tries = 0
        while kept < nunits and tries < nunits * 4:
            tries += 1
            p = r.choices(prods, wts)[0]
            u = self.twist(getattr(self, 'g_' + p)())
            if attempt(u):
                kept += 1
                m.note('unit:' + p)
                if r.random() < self.nprobe:
                    attempt(self.g_probe())
        endings = end or [b'Q\n', b'', b'Q\n', b'', b'q\n', b'wq\n', b'wq out\n', b'q\nq\n']
        e = r.choice(endings)
        s, n0 = m.snap(), len(script)
        try:
            if self.cut and self.chance(self.cut):
                e = b''
                u = getattr(self, 'g_' + r.choices(prods, wts)[0])()
                u = u[:r.randrange(len(u)) if u else 0]
                script.append(u)
                m.finish(u)
            elif e:
                m.feed(e)
                script.append(e)
            if m.exited is None:
                m.finish()
        except model.Unspec:
            m.restore(s)
            del script[n0:]
            m.feed(b'Q\n')
            script.append(b'Q\n')
        c = Case(b''.join(script), args, env, fl, locale)
        c.stdout = b''.join(m.out)
        c.records = list(m.records)
        c.texts = list(m.texts)
        c.steps = list(m.steps or ())
        c.out_files = {k: v.data for k, v in m.files.items()}
        c.exit = m.exited
        c.cov = m.cov
        c.cmds = m.cmds
        c.errors = m.errors
        return c
