"""Random shards with all kinds of entries."""

import os
import struct
import tarfile
import io

PARTS = ["txt", "json", "jpg", "seg.png", "cls", "a.b.c"]
# rare ones
MANY = PARTS + [f"p{k}" for k in range(70)]


def entries(rng, lo=1, hi=8, tag="", bases=None, rare=0):
    """List of (kind, base number, part number, content number) with names."""
    style = rng.choice(["plain", "dirs", "long", "mixed", "mixed", "uni"])
    es, content = [], 0
    nb = rng.randint(lo, hi) if bases is None else len(bases)
    many = bases is None and rng.random() < rare
    if many:
        nb = 30
    for b in range(1, nb + 1):
        name = f"{tag}s{b:05d}"
        st = rng.choice(["plain", "dirs", "long", "uni"]) if style == "mixed" else style
        if st == "dirs":
            name = rng.choice([f"dir/{name}", f"./{name}", f"a.b/c/{name}", f"dir/__x/{name}"])
        elif st == "long":
            name = "d" * rng.choice([90, 99, 100, 101, 200]) + "/" + name
        elif st == "uni":
            name = "ä ö-" + name + "é"
        if bases is not None:
            name = bases[b - 1]
        parts = rng.sample(range(1, len(MANY if many else PARTS) + 1), rng.randint(1, 4))
        for x in parts:
            while rng.random() < 0.15:
                es.append(noise(rng, len(es)))
            content += 1
            es.append(dict(k="f", b=b, x=x, c=content, name=f"{name}.{MANY[x - 1]}", base=name))
    while rng.random() < 0.2:
        es.append(noise(rng, len(es)))
    return es


def noise(rng, i):
    kind, name = rng.choice(
        [("d", f"sub{i}"), ("d", f"sub{i}.txt"), ("n", f"README{i}"), ("n", "__meta__/info.json"), ("n", "__index__"), ("l", f"link{i}.txt"), ("n", "dir/NOTES")]
    )
    return dict(k=kind, b=0, x=0, c=0, name=name, base="")


def data(rng, c):
    return (f"<{c}>" * rng.choice([1, 1, 3, 200, 2000])).encode()


def write(path, es, rng, fmt=None):
    """Writes the tar and sets the byte positions of the entries. Returns the end position."""
    buf = io.BytesIO()
    fmt = fmt if fmt is not None else rng.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as tf:
        for e in es:
            e["p"] = tf.offset
            ti = tarfile.TarInfo(e["name"])
            if e["k"] == "d":
                ti.type = tarfile.DIRTYPE
                tf.addfile(ti)
            elif e["k"] == "l":
                ti.type, ti.linkname = tarfile.SYMTYPE, "nowhere"
                tf.addfile(ti)
            else:
                d = data(rng, e["c"]) if e["k"] == "f" else b"{}" * rng.randint(0, 400)
                ti.size = len(d)
                tf.addfile(ti, io.BytesIO(d))
        end = tf.offset
    with open(path, "wb") as f:
        f.write(buf.getvalue())
    return end


def starts(es):
    res, last = [], None
    for e in es:
        if e["k"] == "f" and e["base"] != last:
            res.append(e["p"])
            last = e["base"]
    return res


def index(path, es, end):
    with open(path[:-4] + ".tar.idx", "wb") as f:
        for o in starts(es) + [end]:
            f.write(struct.pack("Q", o))


def content(b):
    """Number of the content, 0 if it is not exactly the written content."""
    try:
        s = b.decode()
        c = int(s[1 : s.index(">")])
        return c if s == f"<{c}>" * (len(s) // len(f"<{c}>")) else 0
    except Exception:
        return -1


def spec(es):
    return [dict(k="f" if e["k"] == "f" else "x", b=e["b"], x=e["x"], c=e["c"], p=e["p"]) for e in es]
