"""Files of tags + audio + ID3v1 and what rewriting their tags should leave."""
import os
import gen
from id3 import *


def split_front(b):
    """Length of the run of ID3v2 tags at the front of B, as the format has it"""
    n = 0
    while len(b) - n >= 10 and b[n:n + 3] == b"ID3":
        sz = from_syncsafe(b[n + 6:n + 10])
        n += 10 + sz + (10 if b[n + 3] == 4 and b[n + 5] & 0x10 else 0)
    return n


def snapshot(d):
    """Everything in a directory: relative name -> (kind, mode, bytes)"""
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(base, x)
            k = os.path.relpath(p, d)
            st = os.lstat(p)
            if os.path.islink(p):
                out[k] = ("link", 0, os.readlink(p))
            elif os.path.isdir(p):
                out[k] = ("dir", st.st_mode & 0o7777, None)
            else:
                with open(p, "rb") as f:
                    out[k] = ("file", st.st_mode & 0o7777, f.read())
    return out


def put(p, b, mode=None):
    with open(p, "wb") as f:
        f.write(b)
    if mode is not None:
        os.chmod(p, mode)


def get(p):
    with open(p, "rb") as f:
        return f.read()


def old_tag(r):
    """A tag that's to be replaced: well-formed, or just a header and a body"""
    m = r.random()
    if m < .6:
        return gen.tag(r).raw()
    ver = r.choice((2, 3, 4))
    body = gen.blob(r, r.choice((0, 1, 9, 10, 11, 200))) if m < .9 else b"\0" * r.choice((10, 127, 128, 2000, 20000))
    fl = r.choice((0, 0, 0x80)) if ver < 4 else r.choice((0, 0, 0x80, 0x10))
    h = bytes([ver, 0, fl]) + syncsafe(len(body))
    return b"ID3" + h + body + (b"3DI" + h if fl & 0x10 else b"")


def rest(r, big=.05):
    """What follows the tags"""
    if r.random() < big:
        a = r.randbytes(r.choice((4095, 4096, 8191, 8192, 8193, 65536, 70001, 300000)))
        if a[:3] == b"ID3":
            a = b"\xff" + a[1:]
    else:
        a = gen.audio(r)
    m = r.random()
    if m < .1:
        a = (b"ID3", b"ID3\x03", b"I", b"ID3\x03\0\0\0\0\0", b"TAG", b"\0", b"ID", b"3DI\x04\0\0\0\0\0\0")[r.randrange(8)]
    elif m < .15:
        a = b"\xff\xfb" + gen.tag(r).raw()      # a tag, but not in front
    v = gen.v1(r) if r.random() < .4 else b""
    return a if a[:3] == b"ID3" else a + v
