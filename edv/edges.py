"""Sessions whose texts have sizes around those at which the editor's
buffers grow: every template at every size, once per run.  What should
come out is asked of the reference model; where it does not say, only
sanitizers look."""
import random

from . import core, gen, model, run, rx

SIZES = [4096, 8192, 16384, 32768]
OFFS = range(-6, 4)


def fill(n, k=0):
    """n printable characters without anything special in them."""
    if n <= 0:
        return b''
    a = b'abcdefghijklmnopqrstuvwxyz0123456789'
    b = (a[k % 7:] + a) * (n // 36 + 2)
    return b[:n]


def cut(n, m):
    """Lines of m characters, n in all."""
    out = []
    while n > 0:
        out.append(fill(min(n, m), len(out)))
        n -= m
    return out


def nl(ls):
    return b''.join(x + b'\n' for x in ls)


def T():
    """name -> (files, script[, options]) of n."""
    t = {}

    def add(f):
        t[f.__name__[2:]] = f
        return f

    # lines from files
    @add
    def t_print(n):
        return {b'f': nl([b'x', fill(n), b'y'])}, b'E f\n,p\n2n\n2l\n=\n', {}

    @add
    def t_bare(n):
        return {b'f': fill(n)}, b'E f\np\nl\nw out\n$a\nz\n.\nw out2\n', {}

    @add
    def t_binary(n):
        return {b'f': (b'\0\xff' * n)[:n]}, b'E f\nl\nt.\nw out\n', {}

    @add
    def t_nul_line(n):
        return {b'f': nl([fill(n - 3) + b'\0ab', b'c'])}, b'E f\n1p\ns/a/b/\n,j\nw out\n', {}

    @add
    def t_short_lines(n):
        return {b'f': nl(cut(n, 15))}, b'E f\n$=\n,w out\n,d\nu\n$r f\n,p\n', {}

    @add
    def t_empty_lines(n):
        return {b'f': b'\n' * n}, b'E f\n$=\n,j\n=\nu\nw out\n', {}

    # join
    @add
    def t_join2(n):
        return {b'f': nl([fill(n - 7), fill(7)])}, b'E f\n,j\np\nu\n,p\nw out\n', {}

    @add
    def t_join7(n):
        return {b'f': nl([fill(7), fill(n - 7)])}, b'E f\n1,2j\np\n', {}

    @add
    def t_join3(n):
        return {b'f': nl([fill(n - 7), b'', fill(7)])}, b'E f\n,j\np\n', {}

    @add
    def t_join_many(n):
        return {b'f': nl(cut(n, 8))}, b'E f\n,j\np\nw out\nu\n$=\n', {}

    @add
    def t_join_uneven(n):
        return {b'f': nl(cut(n, 8192 - 5))}, b'E f\n,j\np\nw out\n', {}

    @add
    def t_join_words(n):
        return {b'f': nl(cut(n, 63))}, b'E f\n,j/, /\np\n', {}

    @add
    def t_join_none(n):
        return {b'f': b'\n' * (n // 8) + fill(n) + b'\n'}, b'E f\n,j\np\n', {}

    # typed
    @add
    def t_typed(n):
        return {}, b'a\n' + fill(n) + b'\n.\np\nl\nn\nw out\n', {}

    @add
    def t_typed_two(n):
        return {}, b'a\n' + fill(n // 2) + b'\n' + fill(n) + b'\n.\n,n\nw out\n', {}

    @add
    def t_typed_eof(n):
        return {}, b'a\n' + fill(n), {}

    @add
    def t_command_eof(n):
        return {b'f': b'x\n'}, b'E f\ns/x/' + fill(n), {}

    @add
    def t_spaces(n):
        return {b'f': b'x\ny\n'}, b'E f\n' + b' ' * n + b'1p\n2' + b' ' * n + b'p\n', {}

    @add
    def t_digits(n):
        return {b'f': b'x\ny\n'}, b'E f\n' + b'0' * n + b'1p\n', {}

    @add
    def t_plus(n):
        return {b'f': b'x\n' * 3}, b'E f\n1' + b'+' * n + b'p\n1p\n', {}

    @add
    def t_commas(n):
        return {b'f': b'x\n' * 3}, b'E f\n1' + b',2' * (n // 2) + b'p\n1p\n', {}

    @add
    def t_unknown(n):
        return {b'f': b'x\n'}, b'E f\n' + fill(n).replace(b'a', b'O') + b'\np\n', {}

    # substitution
    @add
    def t_s_grow(n):
        return {b'f': nl([b'a%sa' % fill(n // 2)])}, \
            b'E f\ns/.$/' + fill(n - n // 2 - 1) + b'/\np\nu\np\n', {}

    @add
    def t_s_amp(n):
        return {b'f': nl([fill(n // 2)])}, b'E f\ns/.*/&&/\np\nw out\ns/a/b/g\np\n', {}

    @add
    def t_s_many(n):
        return {b'f': nl([b'x' * (n // 4)])}, b'E f\ns/x/abcd/g\np\n', {}

    @add
    def t_s_shrink(n):
        return {b'f': nl([b'xy' * n])}, b'E f\ns/xy/z/g\np\n', {}

    @add
    def t_s_case(n):
        return {b'f': nl([b'x' * (n // 4)])}, b'E f\ns/.*/\\U&\\E\\u&\\L&&/\np\n', {}

    @add
    def t_s_split(n):
        return {b'f': nl([fill(n)])}, b'E f\ns/0/\\\n/g\n$=\nu\n1p\n', {}

    @add
    def t_s_rhs_lines(n):
        return {b'f': nl([b'x'])}, b'E f\ns/x/' + b'\\\n'.join(cut(n, 31)) + b'/\n,p\n', {}

    @add
    def t_s_pattern(n):
        return {b'f': nl([b'<' + fill(n) + b'>', b'y'])}, \
            b'E f\n1s/' + fill(n) + b'/[&]/\n1p\nu\n1s//z/\n1p\n', {}

    @add
    def t_s_class(n):
        return {b'f': nl([b'xay'])}, b'E f\ns/[' + fill(n).replace(b'x', b'a') + b']/Q/\np\n', {}

    @add
    def t_s_nul(n):
        return {b'f': nl([b'x\0' * (n // 2)])}, b'E f\ns/\\(x\\)./\\1\\1/g\np\nw out\n', {}

    @add
    def t_s_end(n):
        return {b'f': nl([fill(n)])}, b'E f\ns/$/x/\ns/$/yz/\ns/^/q/\np\n', {}

    @add
    def t_s_tail(n):
        return {b'f': nl([b'a' + b'-' * n])}, b'E f\ns/a/bb/\np\ns/b*/ccc/\np\n', {}

    @add
    def t_search(n):
        return {b'f': nl([b'x', fill(n), b'y'])}, b'E f\n/' + fill(n) + b'/n\n//n\n?y?n\n??n\n', {}

    # global
    @add
    def t_g_list(n):
        c = []
        while sum(map(len, c)) + 2 * len(c) < n - 12:
            c.append(b's/$/x/')
        k = n - sum(map(len, c)) - 2 * len(c)
        c.append(b's/^/' + fill(k) + b'/')
        return {b'f': b'a\nb\n'}, b'E f\ng/a/' + b'\\\n'.join(c) + b'\n,p\n', {}

    @add
    def t_g_append(n):
        return {b'f': b'a\nb\n'}, b'E f\ng/./a\\\n' + b'\\\n'.join(cut(n, 30)) + b'\n,p\nu\n,p\n', {}

    @add
    def t_g_append_line(n):
        return {b'f': b'a\nb\n'}, b'E f\ng/./a\\\n' + fill(n) + b'\\\n.\\\np\n,n\n', {}

    @add
    def t_g_lines(n):
        return {b'f': b'a\n' * (n // 8)}, b'E f\ng/a/s//b/\n$=\n,p\nu\n1,3p\n', {}

    @add
    def t_g_interactive(n):
        return {b'f': b'a\nb\n'}, b'E f\nG/./\ns/$/' + fill(n) + b'/\n&\n,p\n', {}

    @add
    def t_v_join(n):
        return {b'f': nl(cut(n, 40))}, b'E f\nv/zzz/1,2j\n', {}

    # names and shell
    @add
    def t_f_name(n):
        return {}, b'f ' + fill(n) + b'\nf\nh\n', {}

    @add
    def t_f_escaped(n):
        return {}, b'f ' + b'\\ ' * (n // 2) + b'\nf\n', {}

    @add
    def t_w_name(n):
        return {b'f': b'x\n'}, b'E f\nw ' + fill(n) + b'\nh\nE ' + fill(n) + b'\nr ' + fill(n) + b'\n,p\n', \
            {'raw': True}

    @add
    def t_w_path(n):
        return {b'f': b'x\n'}, b'E f\nw ./' + b'./' * (n // 2 - 3) + b'out\nr ' + \
            b'./' * (n // 2) + b'f\n,p\n', {}

    @add
    def t_names(n):
        return {b'f': b'x\n'}, b'~E ' + b'f ' * (n // 2) + b'\n,p\nn\n', {}

    @add
    def t_sh(n):
        return {}, b'! : ' + fill(n) + b'\n!!\n', {}

    @add
    def t_sh_twice(n):
        return {}, b'! : ' + fill(n // 2) + b'\n!!! !!\n', {}

    @add
    def t_sh_percent(n):
        return {}, b'f ' + fill(250) + b'\n! : ' + b'%' * (n // 250) + fill(n % 250) + b'\n', {}

    @add
    def t_sh_read(n):
        return {}, b'r !echo ' + fill(n) + b'\np\n', {}

    @add
    def t_sh_quote(n):
        return {}, b'! : ' + b'\\' * (n & ~1) + b'\n! : ' + b'\\%' * (n // 2) + b'\n', {}

    @add
    def t_filter(n):
        return {b'f': nl(cut(n, 30))}, b'E f\n,!cat\n,p\nu\n2,3!tr a-z A-Z\n2p\n', {}

    @add
    def t_filter_line(n):
        return {b'f': nl([fill(n), b'x'])}, b'E f\n1!cat\n1!tr a b\n1p\n', {}

    @add
    def t_w_sh(n):
        return {b'f': nl(cut(n, 30))}, b'E f\n,w !cat\nr !seq 1 %d\n$p\n' % (n // 5), {}

    # registers and macros
    @add
    def t_reg(n):
        return {b'f': nl([fill(n), b'x'])}, b'E f\n1t>1\n1t>>1\n<1t0\n<1t$\n,p\n', {}

    @add
    def t_reg_many(n):
        return {b'f': nl(cut(n, 17))}, b'E f\n,t>1\n,m>>1\n<1t0\n$=\n,p\n', {}

    @add
    def t_reg_default(n):
        return {b'f': nl([fill(n), b'x'])}, b'E f\n1d\n<t$\n1c\ny\n.\n<t$\n,p\n', {}

    @add
    def t_macro(n):
        return {b'f': nl([b's/$/' + fill(n - 20) + b'/', b'p', b't.'])}, \
            b'E f\n,t>1\n1,2d\n@1\n,n\n', {}

    @add
    def t_macro_many(n):
        return {b'f': b's/$/x/\n' * (n // 7)}, b'E f\n,t>1\n2,$d\n@1\np\n', {}

    @add
    def t_macro_append(n):
        return {b'f': nl([b'a', fill(n), b'.', b'p'])}, b'E f\n,t>1\n@1\n,n\n', {}

    # files
    @add
    def t_read_twice(n):
        return {b'f': fill(n), b'g': nl([fill(n, 3)])}, b'E f\nr g\n0r f\n,p\nw out\nu\n,n\n', {}

    @add
    def t_edit_again(n):
        return {b'f': fill(100), b'g': fill(n), b'h': fill(2 * n + 1)}, \
            b'E f\np\nE g\np\nE h\np\nE f\np\nw out\n', {}

    @add
    def t_read_bare(n):
        return {b'f': fill(n), b'g': fill(n)}, b'E f\n$r g\n,l\nw out\n', {}

    @add
    def t_append_file(n):
        return {b'f': nl([fill(n)]), b'out': fill(n)}, b'E f\nW out\nr out\n,p\n', {}

    @add
    def t_utf8(n):
        return {b'f': nl([('\u00e9' * (n // 2)).encode()])}, b'E f\nl\np\ns/./x/\np\n', \
            {'locale': 'C.UTF-8'}

    @add
    def t_utf8_off(n):
        return {b'f': nl([b'a' + ('\u4e2d' * (n // 3)).encode()])}, b'E f\nl\nn\ns/.$/&&/\nl\n', \
            {'locale': 'C.UTF-8'}

    @add
    def t_utf8_case(n):
        return {b'f': nl([('\u00e9' * (n // 2)).encode()])}, b'E f\ns/.*/\\U&/\np\n', \
            {'locale': 'C.UTF-8'}

    @add
    def t_utf8_short(n):
        return {b'f': nl([fill(n - 2) + b'\xe4\xb8', fill(n - 1) + b'\xc3'])}, \
            b'E f\n,l\n,p\ns/$/\xad/\n,j\nl\n', {'locale': 'C.UTF-8'}

    @add
    def t_list_escapes(n):
        return {b'f': nl([b'\\' * n, b'\t' * n, b'\1' * n, b'$' * n])}, b'E f\n,l\n,pln\n', {}

    # at start
    @add
    def t_prompt(n):
        return {b'f': b'x\n'}, b'E f\np\n', {'args': ['-s', '-p', fill(n).decode()],
                                              'mopts': {'prompt': fill(n)}, 'raw': n > 4000}

    @add
    def t_arg_name(n):
        return {b'f': b'x\n'}, b'f\nw out\n', {'args': ['-s', './' * (n // 2) + 'f'], 'raw': True}

    @add
    def t_expression(n):
        return {b'f': b'x\n'}, b',p\n', {'args': ['-s', '-e', 's/x/' + fill(n).decode() + '/', 'f'],
                                          'raw': True}

    @add
    def t_expressions(n):
        return {b'f': b'x\n'}, b',p\n', {'args': ['-s'] + ['-e', 's/$/x/'] * (n // 64) + ['f'],
                                          'raw': True}

    @add
    def t_script_file(n):
        return {b'f': b'x\n', b's': b's/$/' + fill(n) + b'/\np'}, b',p\n', \
            {'args': ['-s', '-f', 's', 'f'], 'raw': True}

    @add
    def t_restricted(n):
        return {b'f': b'x\n'}, b'w ' + fill(n) + b'\nw ./' + fill(n) + b'\nf ' + fill(n) + b'/\nf\n', \
            {'args': ['-s', '-r', 'f'], 'raw': True}

    @add
    def t_verbose(n):
        return {b'f': b'x\n'}, b'H\nE ' + fill(n) + b'\nh\ne !echo ' + fill(n) + b'\np\n', {}

    @add
    def t_home(n):
        return {b'f': b'x\n'}, b'E f\nw out\nr nothing\n', {'env': {'HOME': '/' + fill(n).decode()},
                                                            'raw': True}

    @add
    def t_tmpdir(n):
        return {b'f': b'x\n'}, b'E f\n,t>1\n', {'env': {'TMPDIR': './' * (n // 2)}, 'raw': True}

    @add
    def t_shellvar(n):
        return {b'f': b'x\n'}, b'E f\n! :\n', {'env': {'SHELL': '/' + fill(n).decode()}, 'raw': True}

    return t


TEMPLATES = T()


def units(s):
    return s.splitlines(True)


def build(name, n, rnd):
    """The case of a template at a size."""
    files, script, o = TEMPLATES[name](n)
    locale = o.get('locale', 'C')
    args = list(o.get('args', ['-s']))
    # (a file from which input is read would be left at the first error)
    end = rnd.choice([b'', b'Q\n', b'u\nQ\n', b'u\nu\nw last\nQ\n'])
    if not script.endswith(b'\n'):
        end = b''
    c = run.Case(script + end, args, o.get('env'), files, locale)
    c.records = None
    if o.get('raw'):
        return c
    rx.set_locale(locale)
    m = model.Ed(files={k: model.File(v) for k, v in files.items()}, locale=locale,
                 scripted=True, **(o.get('mopts') or {}))
    was = model.LIMIT, model.RX_TOTAL, rx.LIMIT
    model.LIMIT = model.RX_TOTAL = rx.LIMIT = 256 << 20
    try:
        if end or script.endswith(b'\n'):
            m.feed(script + end)
            if m.exited is None:
                m.finish()
        else:
            i = script.rfind(b'\n') + 1
            j = script.rfind(b'a\n', 0, i) if name == 't_typed_eof' else i
            if script[:j]:
                m.feed(script[:j])
            m.finish(script[j:])
    except model.Unspec:
        return c
    finally:
        model.LIMIT, model.RX_TOTAL, rx.LIMIT = was
    c.stdout = b''.join(m.out)
    c.records = list(m.records)
    c.texts = list(m.texts)
    c.out_files = {k: v.data for k, v in m.files.items()}
    c.exit = m.exited
    c.cmds = m.cmds
    return c


def batch(seed, todo, variant):
    part = core.Part()
    for name, n in todo:
        rnd = random.Random('%d %s %d' % (seed, name, n))
        c = build(name, n, rnd)
        core.run_case(part, c, '%s %d' % (name, n), variant)
        part.add('edge:' + ('predicted' if c.records is not None else 'sanitizers only'))
        part.seen(('%s %d' % (name, n)).encode())
        if len(part.bads) >= 3:
            break
    return part


GROUPS = {
    'P02': 'join typed v_join utf8_short short_lines empty_lines',
    'P03': 'search plus commas digits spaces',
    'P05': 'g_ v_join',
    'P06': 's_ search',
    'P07': 'print bare binary nul_line short_lines empty_lines read_ edit_ append_file w_path',
    'P11': 'reg',
    'P12': 'macro',
    'P13': 'print bare list_ utf8 binary',
    'P16': 'sh filter w_sh',
    'P24': 'typed_eof command_eof typed macro',
}


def jobs(ctx, variant='asan', sizes=None, offs=None):
    """All templates, or those of a property."""
    g = GROUPS.get(ctx.pid, '').split()
    names = [t for t in sorted(TEMPLATES) if not g or t.startswith(tuple(g))]
    todo = [(t, s + o) for t in names for s in sizes or SIZES for o in offs or OFFS]
    random.Random(ctx.seed).shuffle(todo)
    k = 40
    return [(batch, (ctx.seed, todo[i:i + k], variant)) for i in range(0, len(todo), k)]
