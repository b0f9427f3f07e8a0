"""Workload profiles of the properties that the reference model decides."""

BASE = {b'f1': b'file one\nline two\nab\n', b'f2': b'zz\n', b'empty': b''}

TXT = dict(a=5, i=2, d=1)


def V(args=('-s',), mopts=None, locale='C', env=None, gen=None, files=None, argv0=None):
    return dict(args=list(args), mopts=mopts or {}, locale=locale, env=env or {},
                gen=gen or {}, files=files, argv0=argv0)


S = V()
SU = V(locale='C.UTF-8', gen=dict(u8=.15))
SB = V(gen=dict(bin=.08, odd=.08))
SUB = V(locale='C.UTF-8', gen=dict(u8=.15, bin=.04))
VERB = V(['-s', '-v'], dict(verbose=True))
NOS = V([], {})
E = V(['-s', '-E'], dict(ere=True))
G = V(['-s', '-G'], dict(trad=True))
PX = V(['-s'], dict(posix=True), env=dict(POSIXLY_CORRECT='1'))
PR = V(['-s', '-p', '*'], dict(prompt=b'*'))
NOSV = V(['-v', '-p', '>'], dict(verbose=True, prompt=b'>'))

# property -> dict(profiles=[(weights, variants, share)], n=(quick, thorough),
#                  units, focus prefixes)
P = {}


def prof(pid, n, profiles, focus, units=(20, 60), minimum=100):
    P[pid] = dict(n=n, profiles=profiles, focus=focus, units=units, minimum=minimum)


prof('P02', (12000, 160000), [
    (dict(a=6, i=4, c=5, d=4, j=4, m=6, t=5, k=2, mark_use=1, p=2, nl=1, eq=1, r=2,
          comment=.3, bad=.5, u=1), [S, S, SU, SB, VERB, G, PX, NOS], 1),
], ('cmd:a', 'cmd:i', 'cmd:c', 'cmd:d', 'cmd:j', 'cmd:m', 'cmd:t', 'cmd:r'))

prof('P03', (12000, 160000), [
    (dict(a=3, i=1, d=1, addr=10, search=8, eq=5, nl=4, k=3, mark_use=3, p=3, bad=1, m=1, t=1,
          s=1, g=2, mac_def=.5, mac_run=.7), [S, S, VERB, G, PX, E, SU], 1),
], ('search-hit', 'empty-pattern', 'cmd:='))

prof('P04', (12000, 160000), [
    (dict(a=5, i=3, c=3, d=4, j=3, m=4, t=3, s=4, g=4, u=9, k=2, mark_use=1, r=1, G=1,
          probe=2, bad=1), [S, S, VERB, SU, G, NOS], 3),
    (dict(a=5, i=3, c=2, d=3, reg_w=3, reg_r=3, mac_def=1, mac_run=2, u=7, filter=1, w=1, e=1,
          g=2, s=2, m=2), [S, SB, NOS], 1),
], ('undo-change',))

prof('P05', (12000, 160000), [
    (dict(a=5, i=2, s=2, d=1, t=2, g=9, G=5, u=2, k=2, mark_use=1, c=1, m=3, j=1),
     [S, S, SU, E, VERB, PX, G], 1),
], ('global-',))

prof('P06', (13500, 160000), [
    (dict(a=5, i=2, d=1, s=11, s_rep=6, g=2, u=2, search=1),
     [S, S, SU, SB, SUB, E, E, VERB, PX, G], 1),
], ('subst-', 's-short'))

prof('P07', (10500, 120000), [
    (dict(a=4, i=2, d=2, w=5, r=5, e=3, e0=1, f=2, s=1, j=1, u=1, h=.5, m=1, t=1),
     [S, NOS, SB, SU, SUB, V([], gen=dict(bin=.15, longlines=.08)),
      V([], locale='C.UTF-8', gen=dict(u8=.3, longlines=.05))], 1),
], ('cmd:w', 'cmd:W', 'cmd:e', 'cmd:r'))

prof('P09', (7000, 120000), [
    (dict(a=4, i=2, d=3, w=5, r=3, e=3, e0=.5, f=1, q=5, u=5, s=2, g=1, reg_w=1, reg_r=2,
          filter=.5, h=1, m=2, k=1), [NOS, NOSV, NOS, V(['-v'], dict(verbose=True)), S], 1),
    (dict(a=2, sq=8), [NOS, NOS, NOSV, V([], gen=dict(bin=.1))], 1),
], ('cmd:q', 'cmd:e', 'cmd:w', 'cmd:u'))

prof('P10', (12000, 160000), [
    (dict(a=4, i=2, d=2, bad=12, addr=2, search=2, h=4, s=2, g=2, m=2, t=1, k=1, w=1, r=1, e=1,
          u=1, p=1, mac_def=.3, mac_run=.5, reg_r=1),
     [V(['-s'], gen=dict(bad=.25)), V(['-v'], dict(verbose=True), gen=dict(bad=.25)),
      V([], gen=dict(bad=.25)), V(['-s', '-E'], dict(ere=True), gen=dict(bad=.2)),
      V(['-s', '-p', '*'], dict(prompt=b'*'), gen=dict(bad=.2)),
      V(['-s', '-G'], dict(trad=True), gen=dict(bad=.2)),
      V(['-s'], dict(posix=True), env=dict(POSIXLY_CORRECT='1'), gen=dict(bad=.2))], 1),
], ('err:',))

prof('P11', (10500, 120000), [
    (dict(a=6, i=2, d=2, c=1, reg_w=7, reg_r=7, reg_rr=5, m=1, t=1, g=1.5, u=2, e=1, w=.5, j=1,
          s=1, probe=2), [S, S, SB, SU, NOS, VERB], 1),
], ('reg',))

prof('P12', (10500, 120000), [
    (dict(a=4, i=1, d=1, mac_def=6, mac_run=8, reg_r=1, u=2, g=2, s=1, k=1, probe=2, m=1, bad=.5),
     [S, S, SU, VERB, NOS, PR], 1),
], ('macro-',))

prof('P13', (10500, 120000), [
    (dict(a=6, i=2, d=1, p=12, nl=2, s=2, j=1, eq=1, t=1, g=2, m=1),
     [V(gen=dict(odd=.2, suffix=.5, longlines=.05)),
      V(gen=dict(odd=.1, bin=.15, suffix=.5)),
      V(locale='C.UTF-8', gen=dict(u8=.3, odd=.1, suffix=.4, longlines=.03)),
      V(locale='C.UTF-8', gen=dict(u8=.2, bin=.1, suffix=.4)),
      V(['-s', '-G'], dict(trad=True), gen=dict(odd=.2))], 1),
], ('cmd:p', 'cmd:n', 'cmd:l'))

RED = dict(restricted=True)
prof('P15', (4000, 60000), [
    (dict(a=5, i=2, d=2, red=8, w=3, r=3, e=1, f=2, m=1, s=2, g=2, u=3, p=1, h=1, mac_def=.5, mac_run=.7,
          reg_r=1, k=1, bad=.5),
     [V(mopts=RED, argv0='red'), V([], RED, argv0='red'), V(['-s', '-v'], dict(RED, verbose=True), argv0='/bin/red'),
      V(['-s', '-E'], dict(RED, ere=True), argv0='./red'), V(['-s', '-G'], dict(RED, trad=True), argv0='red'),
      V(mopts=RED, locale='C.UTF-8', gen=dict(u8=.2, bin=.05), argv0='red')], 1),
], ('err:Access restricted', 'err:Shell access'), units=(10, 40))

prof('P16', (5500, 80000), [
    (dict(a=5, i=2, d=2, sh=5, filter=6, rsh=4, wsh=4, u=3, w=1, f=1, m=1, s=1, g=1.5, p=1, h=.5),
     [S, NOS, SB, SU, VERB], 1),
], ('shell',), units=(12, 40))

prof('P25', (12000, 160000), [
    (dict(a=4, i=3, c=2, d=3, j=2, m=5, t=2, s=4, k=9, mark_use=8, u=5, g=3, r=1, reg_w=1,
          reg_r=1, filter=.3), [S, S, SU, VERB, G], 1),
], ('cmd:k',))

# Used by several checks to supply diverse histories.
MIX = dict(a=5, i=2, c=2, d=3, j=2, m=3, t=2, k=2, mark_use=1, u=3, p=2, nl=1, eq=1, addr=2,
           search=2, bad=2, h=1, s=5, s_rep=2, g=4, G=2, w=2, r=2, e=1, f=1, q=.3, reg_w=2,
           reg_r=2, reg_rr=1, mac_def=1, mac_run=2, sh=.5, filter=1, rsh=.5, wsh=.5, comment=.3,
           probe=1)
prof('MIX', (1400, 60000), [
    (MIX, [V(gen=dict(odd=.1, bin=.08)), V(locale='C.UTF-8', gen=dict(u8=.2, bin=.05)),
           V([], gen=dict(odd=.1)), E, G, PX, NOSV, V(gen=dict(longlines=.1))], 1),
], ('cmd:',))

# Every session ends in the middle of a command.
prof('CUT', (2500, 40000), [
    (dict(MIX, u=1, p=1), [V(gen=dict(odd=.1, bin=.08, cut=1)), V([], gen=dict(cut=1)), NOSV,
                           V(['-s', '-E'], dict(ere=True), gen=dict(cut=1)),
                           V(['-s', '-v'], dict(verbose=True), gen=dict(cut=1)),
                           V(['-s', '-G'], dict(trad=True), gen=dict(cut=1))], 1),
], ('cmd:',), units=(0, 12))
