"""Reference model of the editor, written from its documented behaviour.

An executable specification: commands are fed as bytes (exactly what the
editor reads on standard input) and the model predicts standard output,
the text, current line, marks, modified flag after every top-level
command, files written, and exit status.  It shares no code with the
editor: the text is a Python list, undo a snapshot, a global command a
set of line identities, and matching is done by the C library.

Where behaviour is not specified (or is not predicted on purpose), the
model raises Unspec; generators then drop the offending input.
"""
import os, re, subprocess

from . import rx

ERR, EMOD, EOF = -2, -3, -1
EOF_NEXT, EOF_PREV, EOF_GLOB = -5, -6, -7
PRNT, NMBR, LIST = 1, 2, 4
GLBL, GLBI = 1, 2
NL = 10
LIMIT = 1 << 20
RX_TOTAL = 3 << 20                       # matching work of a session


class Cut(tuple):
    """Lines of a register whose last one has no newline."""


def chain(a, b):
    if type(a) is Cut and b:
        raise Unspec()
    return Cut(a + b) if type(b) is Cut else a + b


class EdErr(Exception):
    def __init__(self, status=ERR):
        self.status = status


Unspec = rx.Unspec


class NeedInput(Unspec):
    """More input was wanted than the unit supplies."""


class Exited(Exception):
    pass


class L(object):
    """A line; identity matters (marks, global queue), text is fixed."""
    __slots__ = ('s',)

    budget = 0

    def __init__(self, s):
        self.s = s
        if s:
            spend(len(s) + 40)


def spend(n):
    """Bound the work of one command."""
    L.budget += n
    if L.budget > LIMIT:
        raise Unspec()


HEAD = L(None)                   # address 0


def is_utf8(b):
    try:
        b.decode('utf8')
        return True
    except UnicodeDecodeError:
        return False


def utf8_size(s, off):
    """Bytes of the character at off (1 if not valid UTF-8)."""
    c = s[off]
    n = 1 if c < 0x80 else 2 if 0xc2 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 \
        else 4 if 0xf0 <= c < 0xf5 else 1
    if n == 1:
        return 1
    try:
        s[off:off + n].decode('utf8')
    except UnicodeDecodeError:
        return 1
    return n if off + n <= len(s) else 1


class State(object):
    """What undo saves and restores."""
    F = ('buf', 'dot', 'modified', 'is_binary', 'is_utf8', 'is_empty',
         'nl_app', 'nl_missing', 'in_binary')

    def __init__(self):
        self.buf = []
        self.dot = 0
        self.modified = False
        self.is_binary = False
        self.is_utf8 = True
        self.is_empty = True
        self.nl_app = False
        self.nl_missing = False
        self.in_binary = False

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        s.buf = list(self.buf)
        return s


class File(object):
    """A file of the (simulated) working directory."""
    __slots__ = ('data', 'mode')

    def __init__(self, data, mode=0o644):
        self.data = data
        self.mode = mode


SHCACHE = {}


def sh(cmd, inp, cwd, env):
    """(output, exit status) of a command; inp None: it shares the
    editor's standard input, which it must leave alone."""
    k = (cmd, inp, cwd, env['LC_ALL'])
    r = SHCACHE.get(k)
    if r is None:
        if inp is None:
            rd, wr = os.pipe()
            os.write(wr, b'sentinel\n')
            os.close(wr)
            kw = dict(stdin=rd)
        else:
            kw = dict(input=inp)
        try:
            p = subprocess.run([b'/bin/sh', b'-c', cmd], cwd=cwd,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               env=env, timeout=20, **kw)
            r = (p.stdout, p.returncode)
        except subprocess.TimeoutExpired:
            r = None
        if inp is None:
            if os.read(rd, 100) != b'sentinel\n':
                r = None
            os.close(rd)
        r = r or 'unspec'
        if len(SHCACHE) > 3000:
            SHCACHE.clear()
        SHCACHE[k] = r
    if r == 'unspec':
        raise Unspec()
    return r


class Ed(object):
    SNAP_SHALLOW = ('marks', 'regs', 'gq', 'frames', 'files', 'argl', 'fs')

    def __init__(self, scripted=True, verbose=False, ere=False, posix=False,
                 trad=False, restricted=False, prompt=None, cols=80, rows=24,
                 files=None, locale='C', exit_on_error=False, shcwd='/'):
        self.st = State()
        self.undo = None              # State, or None when nothing to undo
        self.undo_nonempty = False
        self.scripted = scripted
        self.verbose = verbose
        self.ere = ere
        self.posix = posix
        self.trad = trad
        self.plain = posix or trad
        self.restricted = restricted
        self.prompt_on = prompt is not None
        self.prompt = prompt if prompt is not None else b'*'
        self.cols = cols
        self.rows = rows
        self.locale = locale
        self.exit_on_error = exit_on_error
        self.rxwork = 0
        self.in_G = False
        self.syntax = ((rx.EXTENDED if ere else rx.BASIC)
                       | (rx.DOT_NOT_NULL if self.plain else 0))
        self.marks = [None] * 26
        self.regs = [None] * 11
        self.gq = []
        self.frames = []
        self.files = dict(files or {})
        self.fs = None                # file system with directories, links and rights
        self.name = None
        self.devname = False
        self.argl = []
        self.err = None
        self.status = 0
        self.out = []
        self.records = []
        self.texts = []               # input lines of each command
        self.steps = None             # buffers each command passes through, if wanted
        self.exited = None
        self.inp = []
        self.ip = 0
        self.search_re = None
        self.subst_re = None
        self.lhs = None
        self.s_f = frozenset()
        self.s_nth = 0
        self.s_mod = 0
        self.sio_f = 0
        self.rhs = None
        self.rhs_none = False
        self.globf = 0
        self.first_pass = False
        self.prev_shell = None
        self.script_name = None
        self.addrs = self.start = self.end = 0
        self.iof = 0
        self.reg_read = self.reg_write = None
        self.s = b''
        self.p = 0
        self.last_status = 0
        self.shcwd = shcwd
        self.shenv = {'PATH': '/usr/bin:/bin', 'LC_ALL': locale}
        self.cov = {}                 # what was exercised: key -> count
        self.allow_eof = False
        self.tty = False                 # (^D at the start of a line is one end of file.)
        self.page = None
        self.locked_name = None
        self.cmds = 0
        self.errors = 0

    # -- snapshots ------------------------------------------------------
    def snap(self):
        d = dict(self.__dict__)
        d['st'] = self.st.copy()
        # (self.undo is never mutated, only replaced)
        for k in self.SNAP_SHALLOW:
            d[k] = None if d[k] is None else d[k].copy() if hasattr(d[k], 'copy') else list(d[k])
        d['out'] = len(self.out)
        d['records'] = len(self.records)
        d['texts'] = len(self.texts)
        d['steps'] = None if self.steps is None else len(self.steps)
        d['cov'] = None
        return d

    def restore(self, d):
        out, rec, cov, tx, st = self.out, self.records, self.cov, self.texts, self.steps
        del out[d['out']:]
        del rec[d['records']:]
        del tx[d['texts']:]
        if st is not None:
            del st[d['steps']:]
        self.__dict__.clear()
        self.__dict__.update(d)
        self.out, self.records, self.cov, self.texts, self.steps = out, rec, cov, tx, st

    def step(self, p=None, q=None):
        """The buffer was changed except for its first P and last Q lines."""
        if self.steps is not None:
            self.steps[-1].append((tuple(x.s for x in self.st.buf), p, q))

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    # -- helpers --------------------------------------------------------
    @property
    def lines(self):
        return len(self.st.buf)

    def fail(self, msg, status=ERR):
        self.err = msg.encode() if isinstance(msg, str) else msg
        raise EdErr(status)

    def put(self, b):
        spend(len(b))
        self.out.append(b)

    def ch(self, k=0):
        i = self.p + k
        return self.s[i] if i < len(self.s) else 0

    def skip(self):
        while self.ch() in (32, 9, 11, 12, 13):
            self.p += 1

    def get_line(self):
        """Next line of input (macro, else standard input)."""
        if self.frames:
            fr = self.frames[-1]
            if fr[1] >= len(fr[0]):
                return None
            fr[1] += 1
            l = fr[0][fr[1] - 1]
        else:
            if self.ip >= len(self.inp):
                if not self.allow_eof:
                    raise NeedInput()
                return None
            self.ip += 1
            l = self.inp[self.ip - 1]
            if self.texts:
                self.texts[-1].append(b'\x04' if l is None else l)
            if l is None:
                return None
        if not is_utf8(l):
            self.st.is_utf8 = False
        if b'\0' in l:
            self.st.in_binary = True
        return l

    def reset_undo(self):
        self.undo = self.st.copy()
        self.undo_nonempty = False

    def maybe_reset_undo(self):
        if not self.globf:
            self.reset_undo()

    def idx(self, line):
        if line is HEAD:
            return 0
        try:
            return self.st.buf.index(line) + 1
        except ValueError:
            return None

    # -- input loop -----------------------------------------------------
    def feed(self, data):
        """Execute complete lines of input; stop when they are used up."""
        ls = data.split(b'\n')
        tail = ls.pop()
        self.inp = [x + b'\n' for x in ls]
        if tail:
            self.inp.append(tail)
        if self.tty:
            ls, self.inp = self.inp, []
            for l in ls:
                while l.startswith(b'\x04'):
                    self.inp.append(None)
                    l = l[1:]
                if l:
                    self.inp.append(l)
        self.ip = 0
        while self.ip < len(self.inp) and self.exited is None:
            self.one()

    def finish(self, data=b''):
        """Standard input ends after this, possibly in mid-line."""
        self.allow_eof = True
        ls = data.split(b'\n')
        tail = ls.pop()
        self.inp, self.ip = [x + b'\n' for x in ls], 0
        if tail:
            self.inp.append(tail)
        while self.exited is None:
            self.one()

    def record(self):
        self.devname |= self.name == b'/dev/null'
        m = []
        for x in self.marks:
            m.append(-1 if x is None else (lambda i: -1 if i is None else i)(self.idx(x)))
        self.records.append((self.st.dot, self.lines, bool(self.st.modified),
                             self.status, tuple(m),
                             tuple(x.s for x in self.st.buf)))

    def matching(self):
        """Bound the time the editor itself needs."""
        self.rxwork += rx.spent
        if self.rxwork > RX_TOTAL:
            raise Unspec()
        rx.spent = 0

    def one(self):
        """One iteration of the main loop."""
        self.record()
        self.cmds += 1
        L.budget = 0
        rx.spent = 0
        self.texts.append([])
        if self.steps is not None:
            self.steps.append([])
        if self.prompt_on:
            self.put(self.prompt)
        status = 0
        try:
            l = self.get_line()
            if l is None:
                raise EdErr(EMOD if self.st.modified and not self.scripted
                            else EOF)
            if not l.endswith(b'\n'):
                self.fail('End-of-file unexpected')
            self.s, self.p = l, 0
            self.globf = 0
            self.address_range()
            io = self.command()
            self.matching()
            if io:
                self.iof = io
                self.display(self.st.dot, self.st.dot)
            if sum(len(x.s) for x in self.st.buf) > LIMIT:
                raise Unspec()
            return
        except EdErr as e:
            self.matching()
            status = e.status
        del self.frames[:]
        self.handle(status)

    def handle(self, status):
        if status == EMOD:
            self.err = b'WARNING: Buffer modified since last write'
            self.st.modified = False
            self.put(b'?\n')
            if self.exit_on_error:
                self.exited = 2
                return
            if self.verbose:
                self.put(self.err + b'\n')
        elif status in (EOF,):
            self.exited = self.status & 255
            return
        elif status in (EOF_NEXT, EOF_PREV, EOF_GLOB):
            raise Unspec()
        else:
            self.errors += 1
            self.put(b'?\n')
            if self.exit_on_error:
                self.exited = 4
                return
            if self.verbose:
                self.put((self.err if self.err is not None else b'(null)') + b'\n')
            self.note('err:' + (self.err or b'').decode('latin1')[:40])
        self.status = -status

    # -- addresses ------------------------------------------------------
    def in_bounds(self, a):
        if a < 0 or a > self.lines:
            self.fail('Address out of range')

    def number(self):
        i = self.p
        while 48 <= self.ch() <= 57:
            self.p += 1
        n = int(self.s[i:self.p].lstrip(b'0')[:30] or b'0')
        if n > 2 ** 62 - 1:
            if n >= 2 ** 63 - 1:
                self.fail('Numerical result out of range')
        return n

    def address_range(self):
        self.addrs = 0
        first = second = dot = self.st.dot
        self.skip()
        have = self.ch() in b'%,;' and self.ch() != 0
        n = self.lines
        while True:
            if have:
                semi = self.ch() == 59
                if self.addrs:
                    if semi:
                        dot = second
                    first = second
                else:
                    first = dot if semi else 1
                    second = n
                    self.addrs = 2
                self.p += 1
            found, addr = self.next_address(dot)
            if found:
                second = addr
                self.addrs += 1
            have = self.ch() in b'%,;' and self.ch() != 0
            if not have:
                break
        if self.addrs < 2:
            first = second
        else:
            self.addrs = 2
        if not self.plain:
            if first == -1:
                first = n
            elif first == n + 1:
                first = 0
            if second == -1:
                second = n
            elif second == n + 1:
                second = 0
        self.in_bounds(first)
        self.in_bounds(second)
        self.in_bounds(dot)
        self.start, self.end = first, second
        self.st.dot = dot
        return self.addrs

    def next_address(self, addr):
        self.skip()
        p0 = self.p
        c = self.ch()
        if 48 <= c <= 57:
            addr = self.number()
        elif c == 36:
            addr = self.lines
            self.p += 1
        elif c == 46:
            self.p += 1
        elif c in (47, 63):
            self.in_bounds(addr)
            self.st.dot = addr
            r = self.regex(c, 'search')
            addr = self.search(r, c == 47)
            if self.ch() == c:
                self.p += 1
        elif c == 39:
            self.p += 1
            addr = self.mark_address(self.ch())
            self.p += 1
        addr = self.offset(addr)
        return self.p != p0, addr

    def mark_address(self, c):
        if not (97 <= c <= 122):
            if c == 0:
                raise Unspec()
            self.p += 1
            self.fail('Invalid address mark')
        m = self.marks[c - 97]
        if m is None:
            self.fail('Address out of range')
        i = self.idx(m)
        if i is None:
            self.fail('Address out of range')
        return i

    def offset(self, addr):
        LIM = (2 ** 63 - 1) // 2
        while True:
            c = self.ch()
            n = 1
            if 48 <= c <= 57:
                n = self.number()
            elif c == 43:
                self.p += 1
                if 48 <= self.ch() <= 57:
                    n = self.number()
            elif c in (45, 94):
                self.p += 1
                if 48 <= self.ch() <= 57:
                    n = self.number()
                n = -n
            elif c in (32, 9):
                self.skip()
                if 48 <= self.ch() <= 57:
                    n = self.number()
                else:
                    continue
            else:
                return addr
            if (addr > LIM - n) if n > 0 else (addr < -LIM - n):
                self.fail('Address out of range')
            addr += n

    def search(self, r, fwd):
        n = self.lines
        a = d = self.st.dot
        while True:
            a = (a + 1) % (n + 1) if fwd else (a - 1) % (n + 1)
            if a and r.test(self.st.buf[a - 1].s):
                self.note('search-hit-wrap' if (a <= d) == fwd else 'search-hit')
                return a
            if a == d:
                break
        self.fail('No match')

    # -- regular expressions ---------------------------------------------
    def regex(self, dc, kind, use_search=False):
        """Pattern at self.p (on its delimiter); compiled, remembered."""
        if dc != NL and bytes((dc,)).isspace():
            self.fail('Invalid pattern delimiter')
        if dc == 92:
            raise Unspec()
        if dc != NL:
            self.p += 1
        if dc == NL or self.ch() == NL or self.ch() == dc:
            if kind == 'subst':
                r = (self.search_re if (dc != NL and self.search_re) or use_search
                     else self.subst_re)
                if not self.subst_re:
                    self.subst_re = r
            else:
                r = self.search_re or self.subst_re
                if not self.search_re:
                    self.search_re = r
            if r is None:
                self.fail('No previous pattern')
            self.note('empty-pattern')
            return r
        i = self.p
        while self.ch() != dc and self.ch() != NL:
            c = self.ch()
            if c == 91:
                self.p += 1
                self.bracket()
            elif c == 92:
                self.p += 1
                if self.ch() == NL:
                    self.fail('Backslash (\\) unexpected')
            self.p += 1
        pat = self.s[i:self.p]
        if b'\0' in pat:
            raise Unspec()
        try:
            r = rx.compile(pat, self.syntax)
        except rx.RxError as e:
            self.fail(str(e))
        if kind == 'subst':
            self.subst_re = r
        else:
            self.search_re = r
        return r

    def bracket(self):
        """self.p is just after `['; leave it on the closing `]'."""
        if self.ch() == 94:
            self.p += 1
        if self.ch() == 93:
            self.p += 1
        while self.ch() not in (93, NL):
            if self.ch() == 91 and self.ch(1) in b'.:=':
                d = self.ch(1)
                self.p += 2
                c = self.ch()
                while self.ch() != 93 or c != d:
                    c = self.ch()
                    if c == NL:
                        self.fail('Brackets ([]) unbalanced')
                    self.p += 1
            self.p += 1
        if self.ch() != 93:
            self.fail('Brackets ([]) unbalanced')

    # -- command dispatch --------------------------------------------------
    def suffix(self):
        f = 0
        while True:
            c = self.ch()
            self.p += 1
            if c == NL:
                break
            if c == 112:
                f |= PRNT
            elif c == 108:
                f |= LIST
            elif c == 110:
                f |= NMBR
            else:
                self.p -= 1
                self.fail('Command suffix unexpected')
        self.iof |= f
        return self.iof

    def valid_range(self, a, b):
        if not self.addrs:
            self.start, self.end = a, b
        n = self.lines
        if (not (1 <= self.start <= n) or not (1 <= self.end <= n)) \
           and self.reg_read is None:
            self.fail('Address out of range')
        if self.start > self.end:
            self.fail('Invalid address range')

    def no_address(self):
        if self.addrs:
            self.fail('Address unexpected')

    def input_register(self):
        if 48 <= self.ch() <= 57:
            self.reg_read = self.ch() - 48
            self.p += 1
        else:
            self.reg_read = 10
        self.skip()

    def command(self):
        self.reg_read = self.reg_write = None
        self.is_glob = False
        self.iof = 0
        self.skip()
        c = self.ch()
        if c == 60:
            if self.plain:
                self.invalid()
            self.p += 1
            self.input_register()
        elif c == 126:
            if self.plain:
                self.invalid()
            self.is_glob = True
            self.p += 1
        c = self.ch()
        self.p += 1
        cc = chr(c)
        if cc in 'mt@':
            if self.plain and cc == '@':
                self.invalid()
            if self.is_glob:
                self.fail('Command prefix unexpected')
        elif cc in 'EefrwW':
            if self.reg_read is not None:
                self.fail('Command prefix unexpected')
        elif self.reg_read is not None or self.is_glob:
            self.fail('Command prefix unexpected')
        f = self.CMDS.get(cc)
        if f is None:
            self.invalid()
        self.cc = cc
        self.note('cmd:' + cc + ('/g' if self.globf else '') +
                  ('@' if self.frames else ''))
        r = getattr(self, f)()
        return r

    CMDS = {'\n': 'c_newline', '!': 'c_shell', '#': 'c_comment', '=': 'c_equals',
            '@': 'c_macro', 'E': 'c_E', 'G': 'c_global', 'H': 'c_H', 'P': 'c_P',
            'Q': 'c_q', 'V': 'c_global', 'W': 'c_w', 'Z': 'c_page', '[': 'c_page',
            ']': 'c_page', 'a': 'c_a', 'c': 'c_c', 'd': 'c_d', 'e': 'c_e',
            'f': 'c_f', 'g': 'c_global', 'h': 'c_h', 'i': 'c_i', 'j': 'c_j',
            'k': 'c_k', 'l': 'c_pr', 'm': 'c_m', 'n': 'c_pr', 'p': 'c_pr',
            'q': 'c_q', 'r': 'c_r', 's': 'c_s', 't': 'c_t', 'u': 'c_u',
            'v': 'c_global', 'w': 'c_w', 'x': 'c_x', 'z': 'c_page'}

    def invalid(self):
        d = self.st.dot
        try:
            found, _ = self.next_address(d)
        except EdErr:
            # An invalid address after an invalid command: either message.
            self.err = None
            found = False
            self.st.dot = d if self.st.dot == d else self.st.dot
        self.fail('Invalid address' if found else 'Unknown command')

    # -- line editing ------------------------------------------------------
    def after_delete_state(self, b):
        if b == self.lines:
            self.st.nl_app = False

    def delete(self, a, b):
        """Delete lines a..b (1-based, inclusive)."""
        st = self.st
        gone = st.buf[a - 1:b]
        if self.globf:
            self.drop_queue(gone)
        if b == self.lines:
            st.nl_app = False
        del st.buf[a - 1:b]
        st.dot = a - 1
        st.modified = True
        self.undo_nonempty = True
        self.step(a - 1, len(st.buf) - a + 1)

    def drop_queue(self, gone):
        if self.gq and gone:
            g = set(map(id, gone))
            self.gq = [x for x in self.gq if id(x) not in g]

    def insert(self, after, objs):
        self.st.buf[after:after] = objs
        if objs:
            self.undo_nonempty = True
            self.step(after, len(self.st.buf) - after - len(objs))

    def append_text(self, after):
        """Read text lines and put them after given address."""
        st = self.st
        st.in_binary = False
        st.dot = after
        while True:
            if not self.globf or self.frames:
                l = self.get_line()
                if l is None:
                    return
                if not l.endswith(b'\n'):
                    # Unterminated last line of input.
                    raise Unspec()
                if l == b'.\n':
                    self.s, self.p = b'', 0
                    return
            else:
                if self.p >= len(self.s):
                    return
                j = self.s.index(b'\n', self.p)
                l = self.s[self.p:j + 1]
                if l == b'.\n':
                    self.p = j      # at the newline
                    return
                self.p = j + 1
            st.is_binary |= st.in_binary
            if st.dot == self.lines:
                st.nl_app = False
            self.insert(st.dot, [L(l[:-1])])
            st.dot += 1
            st.is_empty = False
            st.modified = True

    def c_a(self):
        if self.st.is_empty and self.lines:
            return self.c_c()
        self.suffix()
        self.maybe_reset_undo()
        io, end = self.iof, self.end
        self.append_text(end)
        return io

    def c_i(self):
        self.end += not self.end
        self.suffix()
        self.maybe_reset_undo()
        io, end = self.iof, self.end
        if end - 1 > self.lines:
            raise Unspec()
        self.append_text(end - 1)
        if self.st.dot == end - 1:
            self.st.dot = min(self.lines, end)
        return io

    def c_c(self):
        self.start += not self.start
        self.end += not self.end
        self.valid_range(self.st.dot, self.st.dot)
        self.suffix()
        self.maybe_reset_undo()
        io, a, b = self.iof, self.start, self.end
        self.delete(a, b)
        self.append_text(self.st.dot)
        if self.st.dot < a:
            self.st.dot = min(self.lines, a)
        return io

    def c_d(self):
        self.valid_range(self.st.dot, self.st.dot)
        self.suffix()
        self.maybe_reset_undo()
        a, b = self.start, self.end
        self.to_register(10, a, b, False)
        self.delete(a, b)
        d = (self.st.dot + 1) % (self.lines + 1)
        if d:
            self.st.dot = d
        self.st.is_empty = not self.lines
        if not self.lines:
            self.st.is_binary = False
        return self.iof

    def c_j(self):
        if not (self.addrs or self.lines):
            self.start = self.end = 0
        else:
            self.valid_range(self.st.dot, self.st.dot + 1)
        self.suffix()
        self.maybe_reset_undo()
        a, b = self.start, self.end
        if a != b:
            t = b''.join(x.s for x in self.st.buf[a - 1:b])
            self.delete(a, b)
            self.insert(a - 1, [L(t)])
            self.st.dot = a
        return self.iof

    def c_k(self):
        c = self.ch()
        self.p += 1
        if c == NL or c == 0:
            # `k' alone: the letter is the newline itself.
            raise Unspec()
        self.suffix()
        if not 97 <= c <= 122:
            if c > 127:
                raise Unspec()
            self.fail('Invalid address mark')
        self.marks[c - 97] = self.st.buf[self.end - 1] if self.end else HEAD
        return self.iof

    def destination(self):
        """(address, register, append) of a move or copy."""
        if not self.plain and self.ch() == 62:
            self.p += 1
            app = False
            if self.ch() == 62:
                app = True
                self.p += 1
            if 48 <= self.ch() <= 57:
                self.reg_write = self.ch() - 48
                self.p += 1
            else:
                self.reg_write = 10
            return 0, app
        a, b = self.start, self.end
        na = self.address_range()
        if self.plain and not na:
            self.fail('Destination address required')
        d = self.end
        self.start, self.end = a, b
        return d, False

    def c_m(self):
        self.valid_range(self.st.dot, self.st.dot)
        dest, app = self.destination()
        a, b = self.start, self.end
        if a <= dest < b:
            self.fail('Invalid destination address')
        self.suffix()
        self.maybe_reset_undo()
        if self.reg_read is None and self.reg_write is None:
            st = self.st
            objs = st.buf[a - 1:b]
            if self.globf:
                self.drop_queue(objs)
            if dest in (a - 1, b):
                st.dot = b
                self.note('move-noop')
            else:
                del st.buf[a - 1:b]
                d = dest if dest < a else dest - (b - a + 1)
                st.buf[d:d] = objs
                st.dot = d + len(objs)
                self.undo_nonempty = True
                self.step(min(d, a - 1), min(len(st.buf) - b, len(st.buf) - d - len(objs)))
            st.modified = True
        elif self.reg_write is None:
            self.from_register(dest)
            if self.regs[self.reg_read] is not None:
                self.regs[self.reg_read] = ()
        elif self.reg_read is None:
            self.to_register(self.reg_write, a, b, app)
            self.delete(a, b)
        else:
            self.reg_to_reg(app, True)
        return self.iof

    def c_t(self):
        self.valid_range(self.st.dot, self.st.dot)
        dest, app = self.destination()
        a, b = self.start, self.end
        self.suffix()
        self.maybe_reset_undo()
        if self.reg_read is None and self.reg_write is None:
            objs = [L(x.s) for x in self.st.buf[a - 1:b]]
            self.insert(dest, objs)
            self.st.dot = dest + len(objs)
            self.st.modified = True
        elif self.reg_write is None:
            self.from_register(dest)
        elif self.reg_read is None:
            self.to_register(self.reg_write, a, b, app)
        else:
            self.reg_to_reg(app, False)
        return self.iof

    # -- registers ---------------------------------------------------------
    def to_register(self, i, a, b, app):
        t = tuple(x.s for x in self.st.buf[a - 1:b])
        if t and b == self.lines and self.st.is_binary and self.st.nl_app:
            t = Cut(t)
        if app and self.regs[i] is not None:
            t = chain(self.regs[i], t)
        self.regs[i] = t

    def from_register(self, dest):
        r = self.regs[self.reg_read]
        if r is None:
            self.note('reg-empty')
            return
        if dest < 0 or dest > self.lines:
            raise Unspec()
        self.insert_stream(b'\n'.join(r) + b'\n' * (bool(r) and type(r) is not Cut), dest)
        if r:
            self.st.modified = True
        else:
            self.note('reg-empty')

    def reg_to_reg(self, app, move):
        i, j = self.reg_read, self.reg_write
        R = self.regs
        if i == j:
            if app and R[i] is not None and not move:
                self.fail('Cannot append register to itself')
            if app:
                raise Unspec()
            return
        if R[i] is None:
            if not app and R[j] is not None:
                R[j] = ()
            return
        was = R[j]
        if app and R[j] is not None:
            R[j] = chain(R[j], R[i])
        else:
            R[j] = R[i]
        if move:
            R[i] = () if was is not None else None

    # -- printing ----------------------------------------------------------
    def show(self, addr, s, f):
        o = b''
        if f & NMBR:
            w = len(str(self.lines))
            o = b'%*d\t' % (w, addr)
        if not f & LIST:
            return o + s + b'\n'
        out = bytearray(o)
        col = 0
        if f & NMBR:
            w = len(str(self.lines))
            col = w + 8 - w % 8
        n = len(s)
        cols = self.cols
        ESC = {7: b'\\a', 8: b'\\b', 9: b'\\t', 10: b'\\n', 11: b'\\v',
               12: b'\\f', 13: b'\\r', 36: b'\\$', 92: b'\\\\'}
        for i, c in enumerate(s):
            if c in ESC:
                out += ESC[c]
                col += 2
            elif 32 <= c < 127:
                out.append(c)
                col += 1
            else:
                out += b'\\%03o' % c
                col += 4
            rem = n - i
            alnum = chr(c).isalnum() and c < 128
            if (col >= cols and rem > 1) \
               or (not alnum and cols >= 16 and col >= cols - 16 and rem > 2) \
               or (cols >= 8 and col >= cols - 8 and rem > 1):
                out += b'' if self.plain else b'\\\n'
                col = 0
        out += b'$\n'
        return bytes(out)

    def display(self, a, b):
        if not self.lines:
            return
        f = self.iof
        if a == 0:
            # Line 0: an empty line is printed for it.
            raise Unspec()
        for k in range(a, b + 1):
            self.put(self.show(k, self.st.buf[k - 1].s, f))
        self.st.dot = b

    def c_pr(self):
        if not (self.addrs or self.lines):
            self.start = self.end = 0
        else:
            self.valid_range(self.st.dot, self.st.dot)
        c = self.cc
        self.suffix()
        f = {'p': PRNT, 'n': NMBR, 'l': LIST}[c]
        self.iof = f if self.plain else self.iof | f
        if self.lines:
            self.display(self.start, self.end)
        return 0

    def c_newline(self):
        self.start = 1
        if not self.addrs:
            self.start = self.end = 0
        a = self.st.dot + (0 if self.globf else 1)
        if not self.addrs:
            self.start, self.end = 1, a
        else:
            self.start = 1
        self.valid_range(1, a)
        if not self.globf or self.addrs:
            self.display(self.end, self.end)
        return 0

    def c_equals(self):
        self.suffix()
        self.put(b'%d\n' % (self.end if self.addrs else self.lines))
        return self.iof

    def c_comment(self):
        if self.plain:
            self.fail('Unknown command')
        while self.ch() != NL:
            self.p += 1
        self.p += 1
        return 0

    def c_page(self):
        raise Unspec()

    # -- errors, prompt, quit ------------------------------------------------
    def c_h(self):
        self.no_address()
        self.suffix()
        if self.plain:
            if self.err is not None:
                self.put(self.err + b'\n')
        else:
            self.put((self.err if self.err is not None else b'No previous error') + b'\n')
        return self.iof

    def c_H(self):
        self.no_address()
        self.suffix()
        self.verbose = not self.verbose
        if self.verbose and self.err is not None:
            self.put(self.err + b'\n')
        return self.iof

    def c_P(self):
        self.no_address()
        self.suffix()
        self.prompt_on = not self.prompt_on
        return self.iof

    def c_q(self):
        c = self.cc
        self.no_address()
        self.suffix()
        if c == 'q' and self.st.modified and not self.scripted:
            raise EdErr(EMOD)
        if self.frames or self.globf:
            raise Unspec()
        raise EdErr(EOF)

    # -- undo ----------------------------------------------------------------
    def c_u(self):
        self.no_address()
        self.suffix()
        if self.undo is None:
            self.fail('Nothing to undo')
        if self.globf:
            self.gq = []
        old, self.undo = self.undo, self.st
        self.st = old.copy()
        self.step()
        self.note('undo-change' if self.undo_nonempty else 'undo-nothing')
        return self.iof

    # -- global --------------------------------------------------------------
    def extended_line(self, nonl, escape):
        """Command with its continuation lines (escaped newlines)."""
        j = self.s.index(b'\n', self.p)
        x = bytearray(self.s[self.p:j + 1])

        def trailing(x):
            n = 0
            while n < len(x) - 1 and x[len(x) - 2 - n] == 92:
                n += 1
            return n
        t = trailing(x)
        first = True
        while (len(x) > 1 and x[-2] == 92) if nonl else t % 2:
            del x[len(x) - ((t + 1) // 2 if escape else 1):]
            x[-1] = NL
            l = self.get_line()
            if l is None and self.frames or self.in_G and (
                    l is None or not l.endswith(b'\n')):
                raise Unspec()
            if l is None or not l.endswith(b'\n'):
                self.fail('End-of-file unexpected')
            self.s, self.p = l, 0
            x += l
            t = trailing(x)
            first = False
        if nonl:
            x.pop()
        return bytes(x)

    def c_global(self):
        c = self.cc
        if self.globf:
            self.fail('Recursive global command')
        self.valid_range(1, self.lines)
        a, b = self.start, self.end
        if self.ch() == 92:
            raise Unspec()
        dc = self.ch()
        r = self.regex(dc, 'search')
        if self.ch() == dc and self.ch() != NL:
            self.p += 1
        want = c in 'gG'
        self.gq = [x for x in self.st.buf[a - 1:b] if r.test(x.s) == want]
        inter = c in 'GV'
        if inter:
            self.globf = GLBI
            self.suffix()
        self.globf |= GLBL
        self.note('global-%d' % min(3, len(self.gq)))
        saved = self.iof
        self.run_global(inter, saved)
        return saved if inter else 0

    def run_global(self, inter, suffix):
        self.reset_undo()
        lst = None
        if not inter:
            lst = self.extended_line(0, 1)
            if lst == b'\n':
                lst = b'p\n'
            if b'\0' in lst:
                raise Unspec()
        self.first_pass = True
        prev = None
        while self.gq:
            x = self.gq.pop(0)
            d = self.idx(x)
            if d is None:
                self.fail('Address out of range')
            self.st.dot = d
            if inter:
                self.iof = PRNT
                self.display(d, d)
                l = self.get_line()
                if l is None:
                    if suffix:
                        raise Unspec()   # (Whether it applies when canceled.)
                    return
                if not l.endswith(b'\n'):
                    self.fail('End-of-file unexpected')
                self.s, self.p = l, 0
                self.in_G = True
                y = self.extended_line(0, 1)
                self.in_G = False
                if b'\0' in y:
                    raise Unspec()
                if y == b'\n':
                    # (list of previous line is kept for `&')
                    self.first_pass = False
                    continue
                if y == b'&\n':
                    if prev is None:
                        self.fail('No previous command')
                    y = prev
                prev = y
                lst = y
            self.s, self.p = lst, 0
            while self.p < len(self.s):
                self.address_range()
                io = self.command()
                if io:
                    self.iof = io
                    self.display(self.st.dot, self.st.dot)
            self.first_pass = False

    # -- macros ----------------------------------------------------------------
    def c_macro(self):
        g = self.globf
        self.valid_range(self.st.dot, self.st.dot)
        if self.reg_read is None:
            self.input_register()
        else:
            self.skip()
        if self.ch() != NL:
            self.fail('Command suffix unexpected')
        rest = (self.s, self.p + 1)
        if len(self.frames) >= 50:
            self.fail('Exceeded maximum stack frame depth')
        r = self.regs[self.reg_read]
        if r is None:
            # Nothing recorded: an empty macro.
            r = self.regs[self.reg_read] = ()
        self.frames.append([[x + b'\n' for x in r], 0])
        self.note('macro-depth-%d' % min(4, len(self.frames)))
        self.st.dot = self.end
        if not 0 <= self.end <= self.lines:
            raise Unspec()
        depth = len(self.frames)
        if type(r) is Cut or len(r) > 30:
            raise Unspec()
        while True:
            self.macro_steps = getattr(self, 'macro_steps', 0) + 1
            if self.macro_steps > 3000:
                raise Unspec()
            l = self.get_line()
            if l is None:
                break
            self.s, self.p = l, 0
            self.globf = g
            self.address_range()
            io = self.command()
            if io:
                self.iof = io
                self.display(self.st.dot, self.st.dot)
        del self.frames[depth - 1:]
        if g:
            self.s, self.p = rest
        return 0

    # -- substitution -----------------------------------------------------------
    def freq_offset(self, n):
        return self.offset(n)

    def c_s(self):
        f = set(self.s_f)
        nth, mod, sio = self.s_nth, self.s_mod, self.sio_f
        lhs = self.lhs
        self.valid_range(self.st.dot, self.st.dot)
        short = False
        tg = tp = tr = False
        if not self.plain and chr(self.ch()) in '\n$+-^gpr0123456789':
            short = True
            while True:
                c = chr(self.ch())
                if c == '\n':
                    break
                if c == '$':
                    self.p += 1
                    if tg:
                        f.add('SMLR')
                        if mod:
                            raise Unspec()
                        mod = self.freq_offset(mod)
                    else:
                        f.add('SNLR')
                        if nth:
                            raise Unspec()
                        nth = self.freq_offset(nth)
                elif c in '+-^0123456789':
                    if tg:
                        f -= {'GSUB', 'SMLR'}
                        mod = self.freq_offset(0)
                        if mod <= 0:
                            f.add('SMLR')
                    else:
                        nth = self.freq_offset(0)
                        if nth <= 0:
                            f.add('SNLR')
                        else:
                            f.discard('SNLR')
                elif c == 'g':
                    tg = not tg
                    # (the modifier context stays `global' once seen)
                    if not tg:
                        raise Unspec()
                    self.p += 1
                elif c == 'p':
                    tp = not tp
                    self.p += 1
                elif c == 'r':
                    tr = not tr
                    self.p += 1
                else:
                    self.fail('Unknown command suffix')
        if self.ch() != NL and self.ch(1) == NL:
            self.fail('Unknown command suffix')
        re = lhs
        if tr or not short:
            if short:
                if self.search_re is None:
                    raise Unspec()
                re = self.regex(NL, 'subst', use_search=True)
            else:
                re = self.regex(self.ch(), 'subst')
        if short and re is None:
            self.fail('No previous substitution')
        if short and self.rhs is None:
            self.rhs = b''            # as testsuite/s6.t has it
            self.rhs_none = True
        if short:
            self.note('s-short')
            if not self.globf or self.first_pass or self.globf & GLBI:
                if tg:
                    f ^= {'GSUB'}
                if tp:
                    if not sio:
                        sio = PRNT
                    else:
                        f ^= {'PRSW'}
        else:
            f, sio, nth, mod = set(), 0, 0, 0
            self.st.in_binary = False
            if not self.globf:
                x = self.extended_line(0, 0)
                self.s, self.p = x, 0
            dc = self.ch()
            if dc == NL:
                self.rhs, self.rhs_none = b'', False
                sio = PRNT
            else:
                self.template(dc)
                if self.ch() == NL:
                    sio = PRNT
                else:
                    if self.ch() == dc:
                        self.p += 1
                    while True:
                        c = chr(self.ch())
                        if c == '$':
                            self.p += 1
                            if 'GSUB' in f:
                                f.add('SMLR')
                                mod = self.freq_offset(mod)
                            else:
                                f.add('SNLR')
                                nth = self.freq_offset(nth)
                        elif c in '+-0123456789':
                            if 'GSUB' in f:
                                mod = self.freq_offset(mod)
                                if mod <= 0:
                                    f.add('SMLR')
                                else:
                                    f.discard('SMLR')
                            else:
                                nth = self.freq_offset(nth)
                                f.discard('SMLR')
                                if nth <= 0:
                                    f.add('SNLR')
                                else:
                                    f.discard('SNLR')
                        elif c == 'g':
                            f.add('GSUB')
                            self.p += 1
                        else:
                            break
        # suffix adds to the remembered print flags
        save = self.iof
        self.iof = sio
        sio = self.suffix()
        self.iof = save
        self.maybe_reset_undo()
        self.lhs, self.s_f, self.s_nth, self.s_mod, self.sio_f = \
            re, frozenset(f), nth, mod, sio
        self.substitute(self.start, self.end, re, nth, mod, f)
        if sio and 'PRSW' not in f:
            self.iof = sio
            self.display(self.st.dot, self.st.dot)
        return 0

    def template(self, dc):
        self.p += 1
        if self.ch() == 37 and self.ch(1) in (dc, NL):
            self.p += 1
            if self.rhs is None or self.rhs_none:
                self.fail('No previous substitution')
            return
        r = bytearray()
        while self.ch() != dc:
            c = self.ch()
            if c == NL and self.p + 1 >= len(self.s):
                break
            if c == 92 and self.ch(1) == dc:
                self.p += 1
                r.append(dc)
            elif c == 92 and self.ch(1) == 92:
                r += b'\\\\'
                self.p += 1
            else:
                r.append(c)
            self.p += 1
        self.rhs, self.rhs_none = bytes(r), False

    def expand(self, s, m, nsub):
        """Replacement text."""
        o = bytearray()
        stack = [0]
        once = [0]

        def put(t):
            for c in t:
                k = stack[-1]
                ch = bytes((c,))
                if c < 128:
                    if k > 0 or once[0] > 0:
                        ch = ch.upper()
                    elif k < 0 or once[0] < 0:
                        ch = ch.lower()
                once[0] = 0
                o.extend(ch)
        r = self.rhs
        i = 0
        while i < len(r):
            c = r[i]
            if c == 38:
                put(s[m[0][0]:m[0][1]])
            elif c == 92:
                i += 1
                if i >= len(r):
                    raise Unspec()
                c = chr(r[i])
                if c in '0123456789':
                    k = int(c)
                    if k <= nsub and m[k][0] >= 0:
                        put(s[m[k][0]:m[k][1]])
                elif c == 'U':
                    stack.append(1)
                elif c == 'L':
                    stack.append(-1)
                elif c == 'u':
                    once[0] = 1
                elif c == 'l':
                    once[0] = -1
                elif c == 'E':
                    if len(stack) > 1:
                        stack.pop()
                else:
                    put(r[i:i + 1])
            else:
                put(r[i:i + 1])
            i += 1
        return bytes(o)

    def charsize(self, s, off):
        return utf8_size(s, off) if self.st.is_utf8 else 1

    def spans(self, re, s):
        """All matches of a line, left to right, as `g' counts them.

        A match counts if it is non-empty, or empty and not directly
        after a counted match."""
        res = []
        off, bol = 0, True
        prev_end = -1
        while True:
            m = re.search(s, off, not bol)
            if m is None:
                break
            so, eo = m[0]
            if so == eo and so == prev_end:
                # empty match adjacent to the previous match
                if off >= len(s):
                    break
                off += self.charsize(s, off)
                bol = False
                prev_end = -1
                continue
            res.append(m)
            if eo == off and so == eo:
                prev_end = eo
            else:
                prev_end = eo
            off = eo
            bol = False
        return res

    def subst_line(self, re, s, nth, mod, f):
        """New text of a line, or None if nothing is replaced."""
        n = self.count(re, s)
        if ('SNLR' in f or 'SMLR' in f) and n <= abs(nth):
            return None
        if 'SNLR' in f:
            nth += n
        elif not nth:
            nth = 1
        if 'SMLR' in f:
            mod += n
            if not mod:
                return None
        elif not mod:
            mod = 1
        M = 2 ** 64
        o = bytearray()
        off = 0
        bol = True
        changed = 0
        prev = False
        nil_next = True
        k = 0
        while not changed or 'GSUB' in f:
            m = re.search(s, off, not bol)
            if m is None:
                break
            bol = False
            so, eo = m[0]
            nil_prev, nil_next = nil_next, eo == off
            j = eo - off
            take = False
            if prev and nil_next:
                if off >= len(s):
                    break
                j = self.charsize(s, off)
                o += s[off:off + j]
                prev = False
            else:
                if not nil_next or nil_prev:
                    k += 1
                    take = (k >= nth % M) and ((k - nth) % M) % (mod % M) == 0
                if take:
                    o += s[off:so]
                    o += self.expand(s, m, re.nsub)
                    prev = True
                    changed += 1
                else:
                    if nil_next and off >= len(s):
                        break
                    if not j:
                        j = self.charsize(s, off)
                    o += s[off:off + j]
                    prev = False
            off += j
        if not changed:
            return None
        return bytes(o) + s[off:]

    def count(self, re, s):
        off, bol, n = 0, True, 0
        prev, nil_next = False, True
        while True:
            m = re.search(s, off, not bol)
            if m is None:
                return n
            bol = False
            j = m[0][1] - off
            nil_prev, nil_next = nil_next, not j
            if prev and nil_next:
                if off >= len(s):
                    return n
                j = self.charsize(s, off)
                prev = False
            elif not nil_next or nil_prev:
                prev = True
                n += 1
            else:
                if nil_next and off >= len(s):
                    return n
                if not j:
                    j = self.charsize(s, off)
                prev = False
            off += j

    def substitute(self, a, b, re, nth, mod, f):
        if re.nsub >= 30:
            raise Unspec()
        st = self.st
        dot = st.dot
        nl = st.nl_app
        nsubs = 0
        at = a - 1                   # index of next line
        for _ in range(a, b + 1):
            x = st.buf[at]
            t = self.subst_line(re, x.s, nth, mod, f)
            if t is None:
                at += 1
                continue
            if self.globf:
                self.drop_queue([x])
            new = [L(y) for y in t.split(b'\n')]
            st.buf[at:at + 1] = new
            for i in range(26):
                if self.marks[i] is x:
                    self.marks[i] = new[0]
            nsubs += 1
            at += len(new)
            dot = at
            st.modified = True
            st.is_binary |= st.in_binary
            self.undo_nonempty = True
            self.step(at - len(new), len(st.buf) - at)
        st.dot = dot
        st.nl_app = nl
        self.note('subst-%d' % min(3, nsubs))
        if not nsubs and not self.globf:
            self.fail('No match')

    # -- files -------------------------------------------------------------
    def file_arg(self):
        """File name or shell command argument; (is_shell, text)."""
        if self.ch() == 33:
            return True, self.shell_text()
        x = self.extended_line(1, 0)
        if self.restricted and (x == b'..' or b'/' in x):
            self.fail('Access restricted to working directory')
        if b'\0' in x:
            raise Unspec()
        self.p += len(x) + 1
        return False, x

    def shell_text(self):
        if self.restricted:
            self.fail('Shell access restricted')
        if self.globf:
            j = self.s.index(b'\n', self.p)
            x = self.s[self.p:j]
            self.p = j + 1
        else:
            x = self.extended_line(1, 0)
            self.p = len(self.s)
        cur = x
        subs = 0
        o = bytearray()
        if x.startswith(b'!!'):
            if self.prev_shell is None or (self.plain and len(self.prev_shell) <= 1):
                self.fail('No previous shell command')
            cur = self.prev_shell + x[2:]
            subs += 1
        i = 0
        while i < len(cur):
            c = cur[i]
            if c == 92 and cur[i + 1:i + 2] == b'%':
                o += b'%'
                i += 1
            elif c == 37:
                if cur[i + 1:i + 2] == b'-':
                    i += 1
                    o += self.script_name or b'stdin'
                else:
                    o += self.name or b''
                subs += 1
            else:
                o.append(c)
            i += 1
        self.prev_shell = cur
        o = bytes(o[1:])
        if subs:
            self.put(o + b'\n')
        self.note('shell')
        return o

    def present(self, fn):
        if self.fs:
            try:
                self.fs.read(fn)
                return True
            except OSError:
                return False
        return fn in self.files

    def default_name(self):
        if self.name is not None and self.name.startswith(b'!'):
            raise Unspec()
        return self.name

    def insert_stream(self, data, after):
        """Lines of a stream; returns (size shown, lines)."""
        st = self.st
        st.dot = after
        st.in_binary = False
        st.nl_missing = False
        appended = after == self.lines
        size = 0
        if data:
            ls = data.split(b'\n')
            if ls[-1] == b'':
                ls.pop()
            else:
                st.nl_missing = True
            for l in ls:
                if b'\0' in l:
                    st.in_binary = True
                if not is_utf8(l):
                    st.is_utf8 = False
            self.insert(after, [L(l) for l in ls])
            size = sum(map(len, ls)) + len(ls)
            st.dot = after + len(ls)
        st.is_empty = st.is_empty and not size
        if appended:
            st.nl_app = st.nl_missing
        st.is_binary |= st.in_binary
        if st.is_binary and appended and st.nl_app:
            size -= 1
        return size

    def show_size(self, n):
        if not self.scripted:
            self.put(b'%d\n' % n)

    def read_data(self, fn):
        if fn == b'/dev/null':
            if self.restricted:
                self.fail('Access restricted to regular files')
            return b''
        if self.fs:
            try:
                return self.fs.read(fn)
            except OSError:
                self.fail('File open error')
        f = self.files.get(fn)
        if f is None:
            if b'/' in fn:
                raise Unspec()
            self.fail('File does not exist')
        return f.data

    def c_f(self):
        self.no_address()
        if self.is_glob:
            raise Unspec()
        if not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        self.skip()
        if self.plain and self.ch() == 33:
            self.fail('Invalid redirection')
        if self.ch() == NL:
            self.p += 1
        else:
            shf, fn = self.file_arg()
            self.name = (b'!' + fn) if shf else fn
            if shf:
                raise Unspec()
        if self.name is not None:
            self.put(self.name + b'\n')
        elif self.plain:
            self.fail('File name not set')
        return 0

    def c_e(self):
        if self.st.modified:
            raise EdErr(EMOD)
        return self.c_E()

    def c_E(self):
        self.no_address()
        if self.is_glob or self.globf or self.frames:
            raise Unspec()
        if not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        self.skip()
        shf, fn = self.file_arg()
        if not shf and fn and not self.present(fn) and fn != b'/dev/null':
            raise Unspec()           # loses the buffer
        if not shf and not fn and self.name is not None \
           and not self.present(self.name):
            raise Unspec()
        if self.restricted and not shf and not fn and self.name is None:
            raise Unspec()           # loses the buffer
        mod0 = self.st
        self.st = State()
        self.step()
        self.st.is_utf8 = mod0.is_utf8 if False else True
        self.undo = None
        self.undo_nonempty = False
        self.marks = [m if m is HEAD else None for m in self.marks]
        if shf:
            d, rc = self.shell(fn, None)
            size = self.insert_stream(d, 0)
            if not self.scripted:
                self.put(b'!\n')
        else:
            if fn:
                self.name = fn
            nm = self.default_name()
            size = self.insert_stream(self.read_data(nm if nm else b'/dev/null'), 0)
        self.show_size(size)
        if not (self.plain or self.scripted or self.exit_on_error):
            self.status = 0
        return 0

    def shell(self, cmd, inp):
        if b'\0' in cmd:
            raise Unspec()
        if self.fs and cmd.startswith(self.fs.OPS):
            return self.fs.shell(cmd)
        # Commands run apart from the session's files must not name them.
        words = re.findall(rb'[^\s;|&"\']+', cmd)
        if any(w in self.files for w in words) \
           and not all(re.match(rb'\s*echo\b', c) for c in re.split(rb'[;|&]', cmd)):
            raise Unspec()
        return sh(cmd, inp, self.shcwd, self.shenv)

    def c_r(self):
        if self.is_glob:
            raise Unspec()
        if not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        self.skip()
        shf, fn = self.file_arg()
        self.maybe_reset_undo()
        if not (self.addrs and self.lines):
            self.end = self.lines
        after = self.end
        n0 = self.lines
        st = self.st
        if shf:
            d, rc = self.shell(fn, None)
            size = self.insert_stream(d, after)
            if not self.scripted:
                self.put(b'!\n')
        else:
            if self.name is None and fn:
                self.name = fn
                nm = fn
            elif not fn:
                nm = self.default_name() or b'/dev/null'
            else:
                nm = fn
            size = self.insert_stream(self.read_data(nm), after)
            if st.is_binary and nm == b'/dev/null':
                st.nl_app = True
        self.show_size(size)
        added = self.lines - n0
        if added and added != self.lines:
            st.modified = True
        return 0

    def image(self, a, b):
        """Bytes of lines a..b as written to a file."""
        st = self.st
        if a == 0:
            return b''
        d = b''.join(x.s + b'\n' for x in st.buf[a - 1:b])
        if b == self.lines and st.is_binary and st.nl_app:
            d = d[:-1]
        return d

    def c_w(self):
        c = self.cc
        if not (self.addrs or self.lines):
            self.start = self.end = 0
        else:
            self.valid_range(1, self.lines)
        if self.is_glob:
            raise Unspec()
        q = False
        if not self.posix and self.ch() == 113:
            q = True
            self.p += 1
        if not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        self.skip()
        shf, fn = self.file_arg()
        a, b = self.start, self.end
        d = self.image(a, b)
        size = len(d)
        if shf:
            # A command that ignores its input may or may not cause a write
            # error, depending on timing.
            if fn.split(b' ')[0] not in (b'tr', b'sort', b'cat', b'wc', b'grep', b'sed'):
                raise Unspec()
            o, rc = self.shell(fn, d)
            self.put(o)
            if not self.scripted:
                self.put(b'!\n')
        else:
            is_def = False
            if self.name is None and fn:
                self.name = fn
                is_def = True
            elif not fn and self.name is not None:
                self.default_name()
                is_def = True
            nm = self.name if is_def else (fn or b'/dev/null')
            if self.restricted and nm == b'/dev/null':
                self.fail('Access restricted to regular files')
            if self.devname and nm == b'/dev/null':
                raise Unspec()        # (a device cannot be truncated)
            if self.fs and nm != b'/dev/null':
                try:
                    self.fs.write(nm, d, c == 'W', is_def)
                except OSError:
                    self.note('write-fails')
                    self.fail('File open error')
                self.note('write-done')
            elif nm != b'/dev/null':
                if b'/' in nm:
                    raise Unspec()
                f = self.files.get(nm)
                if c == 'W' and f is not None:
                    self.files[nm] = File(f.data + d)
                else:
                    self.files[nm] = File(d)
            if (b - a + 1 if a else 0) == self.lines and (is_def or fn):
                self.st.modified = False
                if self.undo_nonempty and self.undo is not None:
                    u = self.undo.copy()
                    u.modified = True
                    self.undo = u
                if not (self.plain or self.scripted or self.exit_on_error):
                    self.status = 0
        self.show_size(size)
        if q:
            if self.st.modified and not self.scripted:
                raise EdErr(EMOD)
            if self.globf or self.frames:
                raise Unspec()
            raise EdErr(EOF)
        return 0

    # -- shell ----------------------------------------------------------------
    def c_shell(self):
        self.p -= 1
        cmd = self.shell_text()
        self.err = None
        if not self.addrs:
            o, rc = self.shell(cmd, None)
            self.put(o)
            if rc > 0:
                self.err = b'Exit status: %#x' % rc
            if not self.scripted:
                self.put(b'!\n')
            return 0
        if self.plain:
            self.fail('Address unexpected')
        a, b = self.start, self.end
        rng = bool(self.lines) or not (a == 0 and b == 0)
        if rng:
            self.start += not self.start
            self.end += not self.end
            self.valid_range(self.st.dot, self.st.dot)
            a, b = self.start, self.end
        self.maybe_reset_undo()
        n0 = self.lines
        st = self.st
        d = b''
        if rng:
            d = b''.join(x.s + b'\n' for x in st.buf[a - 1:b])
            self.delete(a, b)
        if not self.lines:
            st.is_binary = False
            st.is_empty = True
        o, rc = self.shell(cmd, d)
        size = self.insert_stream(o, a - 1 if rng else 0)
        self.show_size(size)
        if rc > 0:
            self.err = b'Exit status: %#x' % rc
        self.st.dot = self.end + self.lines - n0
        return 0

    def c_x(self):
        raise Unspec()
