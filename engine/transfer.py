"""The transfer functions of one conversion, for all instruction sets together."""
import common
import pix
import conv
from pix import Image, variables, pxname
from terms import *


class Functions:
    """Per destination plane and channel, the distinct functions that are written
    there and an example of a byte for each."""

    def __init__(self, ctx, c, sets=None):
        self.c = c
        self.images = {}
        self.und = []
        self.cells = {}      # (plane, channel) -> {term: {set: Byte}}
        self.nbytes = 0
        for s in sets or common.SETS:
            im = Image(ctx, c, s)
            self.images[s] = im
            for b in im.bytes():
                self.nbytes += 1
                self.cells.setdefault((b.plane.i, b.ch), {}).setdefault(b.term, {}).setdefault(s, b)
            self.und += ["%s: %s" % (conv.label(c, s), u) for u in im.und]
            if not im.ok:
                self.und.append("%s: no successful outcome" % conv.label(c, s))
        self.names = [p.ch for p in self.images[(sets or common.SETS)[0]].dst]
        self.src = self.images[(sets or common.SETS)[0]].src

    def channel(self, k):
        return self.names[k[0]][k[1]]

    def inputs(self, vals):
        return {pxname(k, self.src): v for k, v in sorted(vals.items())}

    def reference(self, k):
        """The scalar implementation's function: the one of the most bytes."""
        for s in ("x86",) + tuple(self.images):
            for t, by in self.cells[k].items():
                if s in by:
                    return s, t
        return None

    def show(self, t):
        """Text of a term over channel names."""
        mp = {}
        s = show(t)
        for c, a in variables(t) or ():
            s = s.replace(show(A(a)), pxname(c, self.src))
        return s


def jobs(colors=common.COLORS, packed=True):
    o = list(common.PACKED) if packed else []
    for cs in colors:
        o += list(common.yuv_conversions(cs))
    o.sort(key=lambda c: -conv.cost((c, "avx2", None)))
    return o


def group(c):
    return conv.group((c, "all"))[:4]
