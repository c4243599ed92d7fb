"""Reference semantics: ITU-R matrices and byte layouts, written from the
standards and the crate documentation (not from the code)."""
from fractions import Fraction as Fr

KRB = {"Bt601": (Fr(299, 1000), Fr(114, 1000)), "Bt709": (Fr(2126, 10000), Fr(722, 10000))}
ORDER = {"Argb": "ARGB", "Bgra": "BGRA", "Bgr": "BGR", "Rgb": "RGB", "Rgba": "RGBA"}
RGB = tuple(ORDER)
YCC = ("I444", "I422", "I420", "Nv12")


def space(cs):
    full = cs.endswith("FR")
    kr, kb = KRB[cs[:-2] if full else cs]
    return kr, kb, full


def forward(cs):
    """Rows (Y, Cb, Cr) of coefficients over (R, G, B) in code values, and offsets."""
    kr, kb, full = space(cs)
    kg = 1 - kr - kb
    sy, sc = (Fr(1), Fr(1)) if full else (Fr(219, 255), Fr(224, 255))
    y = [kr * sy, kg * sy, kb * sy]
    cb = [-kr / (2 * (1 - kb)) * sc, -kg / (2 * (1 - kb)) * sc, Fr(1, 2) * sc]
    cr = [Fr(1, 2) * sc, -kg / (2 * (1 - kr)) * sc, -kb / (2 * (1 - kr)) * sc]
    return (y, Fr(0 if full else 16)), (cb, Fr(128)), (cr, Fr(128))


def inverse(cs):
    """Rows (R, G, B) of coefficients over (Y - y0, Cb - 128, Cr - 128), and y0."""
    kr, kb, full = space(cs)
    kg = 1 - kr - kb
    sy, sc = (Fr(1), Fr(1)) if full else (Fr(255, 219), Fr(255, 224))
    r = [sy, Fr(0), 2 * (1 - kr) * sc]
    g = [sy, -2 * (1 - kb) * kb / kg * sc, -2 * (1 - kr) * kr / kg * sc]
    b = [sy, 2 * (1 - kb) * sc, Fr(0)]
    return (r, g, b), Fr(0 if full else 16)


def clamp(x):
    return 0 if x < 0 else 255 if x > 255 else x


def to_ycc(cs, rgb):
    return tuple(clamp(sum(k * v for k, v in zip(row, rgb)) + o) for row, o in forward(cs))


def to_rgb(cs, ycc):
    m, y0 = inverse(cs)
    d = (ycc[0] - y0, ycc[1] - 128, ycc[2] - 128)
    return tuple(clamp(sum(k * v for k, v in zip(row, d))) for row in m)


SUPPORTED = set()
for _r in ("Argb", "Bgra", "Bgr"):
    for _y in ("I420", "I444", "Nv12"):
        for _c in ("Bt601", "Bt709", "Bt601FR", "Bt709FR"):
            SUPPORTED.add(((_r, "Rgb"), (_y, _c)))
for _y, _rs in (("I420", ("Bgra", "Rgba")), ("I444", ("Bgra", "Rgba")), ("Nv12", ("Bgra", "Rgb", "Rgba"))):
    for _r in _rs:
        for _c in ("Bt601", "Bt709", "Bt601FR", "Bt709FR"):
            SUPPORTED.add(((_y, _c), (_r, "Rgb")))
SUPPORTED |= {(("Bgr", "Rgb"), ("Rgb", "Rgb")), (("Bgra", "Rgb"), ("Rgb", "Rgb")), (("Rgb", "Rgb"), ("Bgra", "Rgb"))}

PLANES = {"Argb": (1,), "Bgra": (1,), "Bgr": (1,), "Rgb": (1,), "Rgba": (1,), "I444": (3,), "I422": (3,), "I420": (3,), "Nv12": (1, 2)}
# subsampling (horizontal, vertical)
SUB = {"I444": (1, 1), "I422": (2, 1), "I420": (2, 2), "Nv12": (2, 2)}


def planes(pf, n):
    """Planes of an image with n buffers: (buffer, channels, sx, sy, first row), where
    channels lists what each byte of a sample group holds.  The first row is
    'h' for chroma that follows luma in the same buffer."""
    if pf in ORDER:
        return [(0, ORDER[pf], 1, 1, None)]
    sx, sy = SUB[pf]
    if pf == "Nv12":
        return [(0, "Y", 1, 1, None), (0 if n == 1 else 1, "UV", sx, sy, "h" if n == 1 else None)]
    return [(0, "Y", 1, 1, None), (1, "U", sx, sy, None), (2, "V", sx, sy, None)]


def row_bytes(pf, n):
    """[(buffer, bytes per row as (numerator, denominator) of width, rows denominator)]"""
    return [(b, Fr(len(ch), sx), sy, at) for b, ch, sx, sy, at in planes(pf, n)]
