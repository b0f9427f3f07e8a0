"""Regular expressions as the specification understands them.

An oracle independent of the tree under test: the C library's POSIX/GNU
matcher (the editor links its own copy of gnulib's), called by ctypes.
"""
import ctypes, locale

_c = ctypes.CDLL(None)
CHAR_CLASSES, DOT_NOT_NULL, HAT_NOT_NL, INTERVALS = 1 << 2, 1 << 7, 1 << 8, 1 << 9
LIMITED, NO_BK_BRACES, NO_BK_PARENS, NO_BK_VBAR = 1 << 10, 1 << 12, 1 << 13, 1 << 15
NO_EMPTY_RANGES, UNMATCHED_ORD, NO_GNU = 1 << 16, 1 << 17, 1 << 19
COMMON = CHAR_CLASSES | HAT_NOT_NL | INTERVALS | NO_EMPTY_RANGES | UNMATCHED_ORD | NO_GNU
BASIC = COMMON | LIMITED
EXTENDED = (COMMON & ~NO_GNU) | NO_BK_BRACES | NO_BK_PARENS | NO_BK_VBAR

_comp = _c.re_compile_pattern
_comp.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_void_p]
_comp.restype = ctypes.c_char_p
_synt = _c.re_set_syntax
_synt.argtypes = [ctypes.c_ulong]
_synt.restype = ctypes.c_ulong
_exec = _c.regexec
_exec.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t,
                  ctypes.c_void_p, ctypes.c_int]
_free = _c.regfree
_free.argtypes = [ctypes.c_void_p]
NOTBOL, STARTEND = 1, 4
_cur = [None]


def set_locale(name):
    """Regexes are compiled and run under this locale."""
    if _cur[0] != name:
        locale.setlocale(locale.LC_ALL, name)
        _cur[0] = name
        _cache.clear()


spent = 0                                # matching work since last reset
LIMIT = 1 << 20                          # of one command


class Unspec(Exception):
    """Not something the model decides."""


class RxError(Exception):
    pass


class Rx:
    def __init__(self, pat, syntax):
        self.pat = pat
        self.p = ctypes.create_string_buffer(64)
        _synt(syntax)
        e = _comp(pat, len(pat), self.p)
        if e:
            _free(self.p)
            raise RxError(e.decode('latin1'))
        self.nsub = ctypes.c_size_t.from_buffer(self.p, 48).value
        self.back = any(b'\\%d' % i in pat for i in range(1, 10))
        self.m = (ctypes.c_int * (2 * (self.nsub + 1)))()

    def __del__(self):
        try:
            _free(self.p)
        except Exception:
            pass

    def search(self, s, off=0, notbol=False):
        """Spans [(so, eo), ...] of leftmost match from off, or None."""
        self.charge(len(s) - off)
        m = self.m
        m[0], m[1] = off, len(s)
        if _exec(self.p, s, self.nsub + 1, m, STARTEND | (NOTBOL if notbol else 0)):
            return None
        return [(m[2 * i], m[2 * i + 1]) for i in range(self.nsub + 1)]

    def charge(self, n):
        global spent
        spent += n + 30
        if self.back:
            spent += n * n // 8
        if spent > LIMIT:
            raise Unspec()

    def test(self, s):
        self.charge(len(s))
        m = self.m
        m[0], m[1] = 0, len(s)
        return not _exec(self.p, s, 0, m, STARTEND)


_cache = {}


def compile(pat, syntax):
    k = (pat, syntax)
    r = _cache.get(k)
    if r is None:
        if len(_cache) > 4000:
            _cache.clear()
        try:
            r = Rx(pat, syntax)
        except RxError as e:
            r = e
        _cache[k] = r
    if isinstance(r, RxError):
        raise r
    return r
