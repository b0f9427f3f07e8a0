"""Decode the state records the ED_VERIF hook appends to its trace file."""
import struct


class Rec(object):
    __slots__ = ('seq', 'status', 'exec_status', 'dot', 'lines', 'modified',
                 'ok', 'marks', 'text')

    def key(self):
        return (self.dot, self.lines, bool(self.modified), self.exec_status,
                self.marks, self.text)


def parse(b):
    out = []
    i = 0
    n = len(b)
    while i < n:
        if b[i:i + 4] != b'EDV1':
            raise ValueError('bad trace at %d' % i)
        i += 4
        h = struct.unpack_from('<34q', b, i)
        i += 34 * 8
        r = Rec()
        (r.seq, r.status, r.exec_status, r.dot, r.lines, r.modified, r.ok) = h[:7]
        r.marks = h[7:33]
        k = h[33]
        r.text = None
        if k >= 0:
            t = []
            for _ in range(k):
                l, = struct.unpack_from('<q', b, i)
                i += 8
                t.append(b[i:i + l])
                i += l
            r.text = tuple(t)
        out.append(r)
    return out
