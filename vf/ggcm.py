"""Writers of OpenGGCM's output formats, from the description of the formats"""
import struct

import numpy as np


def timestr(t, ut):
    """ut: YYYY:MM:DD:hh:mm:ss.mmm"""
    return "time={0:9.1f}    {1:.15E} {2}  c300".format(t, 3e7, ut)


def write_grid2(fname, ccs):
    with open(fname, "w") as f:
        for cc in ccs:
            f.write("{0:12d}\n".format(len(cc)))
            for v in cc:
                f.write("{0:16.9g}   \n".format(v))


def write_fortbin(fname, flds, inttime, tstr, endian="<"):
    """flds: list of (name, array in xyz order)"""
    with open(fname, "wb") as f:
        for name, arr in flds:
            f.write(struct.pack(endian + "iii", 2, inttime, arr.ndim))
            f.write(struct.pack(endian + "{0}i".format(arr.ndim), *arr.shape))
            f.write(name.encode().ljust(80) + tstr.encode().ljust(80))
            f.write(np.asarray(arr).astype(endian + "f4").tobytes(order="F"))


def _enc_line(codes):
    out = bytearray([33 + sum(codes) % 92])
    i = 0
    while i < len(codes):
        n = 1
        while i + n < len(codes) and codes[i + n] == codes[i]:
            n += 1
        if n > 1:
            out.append(170 + n)
        out.append(codes[i])
        i += n
    return bytes(out) + b"\n"


def write_jrrle(fname, flds, inttime, tstr):
    """flds: list of (name, codes (n,) of 0..4414, negative (n,) bool, z1, z2, shape); returns values"""
    vals = []
    with open(fname, "wb") as f:
        for name, codes, neg, z1, z2, shape in flds:
            nd = len(shape)
            f.write("FIELD-{0}D-1\n".format(nd).encode())
            f.write(name.encode().ljust(80) + b"\n" + tstr.encode().ljust(80) + b"\n")
            f.write((" " + " ".join("{0:11d}".format(n) for n in (inttime, ) + tuple(shape)) + "\n").encode())
            n = len(codes)

            def e14(x):
                # 0.1234567E+02
                if x == 0:
                    return " 0.0000000E+00"
                e = int(np.floor(np.log10(abs(x)))) + 1
                m = x / 10.0**e
                s = "{0:.7f}".format(m)
                if abs(float(s)) >= 1:
                    e, s = e + 1, "{0:.7f}".format(m / 10)
                return "{0:>10s}E{1:+03d}".format(s, e)
            h1, h2 = e14(z1), e14(z2)
            f.write(("WRN2{0:8d}{1}{2}{3}{4:8d}FUNC-{5}-1\n"
                     "".format(n, h1, h2, e14(float(shape[-1])), inttime, nd)).encode())
            z1, z2 = float(h1), float(h2)
            for k in range(0, n, 64):
                c = codes[k:k + 64]
                s = neg[k:k + 64]
                f.write(_enc_line([int(v) // 94 + (47 if m else 0) + 33 for v, m in zip(c, s)]))
                f.write(_enc_line([int(v) % 94 + 33 for v in c]))
            v = np.where(neg, -1.0, 1.0) * np.exp((z2 - z1) / 4410.0 * np.asarray(codes, dtype="f8") + z1)
            vals.append((name, v.reshape(shape, order="F")))
    return vals


MHD_TYPES = ["MT_PRIMITIVE", "MT_SEMI_CONSERVATIVE_GGCM", "MT_SEMI_CONSERVATIVE", "MT_FULLY_CONSERVATIVE",
             "MT_FULLY_CONSERVATIVE_CC", "MT_GKEYLL"]


def write_log(fname, sections, indent=0, noise=()):
    """sections: list of (class, list of (key, value string), list of types)"""
    sp = " " * indent
    with open(fname, "w") as f:
        for n in noise:
            f.write(n + "\n")
        for cls, params, types in sections:
            f.write(sp + "=" * 52 + " class == " + cls + "\n")
            f.write(sp + "parameter           | value\n")
            f.write(sp + "-" * 20 + "|" + "-" * 40 + "\n")
            half = len(params) // 2 if len(types) > 1 else len(params)
            for k, v in params[:half]:
                f.write(sp + "{0:20s}| {1}\n".format(k, v))
            for i, t in enumerate(types):
                f.write(sp + "-" * 20 + "+" + "-" * 31 + " type -- " + t + "\n")
                if i == 0:
                    for k, v in params[half:]:
                        f.write(sp + "{0:20s}| {1}\n".format(k, v))
            f.write("\n")
        f.write("step=1 dt=3\n")
        # after the views there is other output that only looks alike
        f.write("=" * 52 + " class == mrc_crds\nparameter | value\n---|---\nl | 7, 7, 7\n")
