"""Small webdatasets on disk, written independently of the code under test."""

import io
import os
import struct
import tarfile

import yaml

from vlib import import_energon

energon = import_energon()

META = ".nv-meta"


def write_tar(path, entries, *, index=True):
    """entries: list of (name, data | None for a directory, sample start?). Returns the offsets of
    the entries and the end; writes the index of the sample starts."""
    buf = io.BytesIO()
    offs = []
    with tarfile.open(fileobj=buf, mode="w") as tf:
        for name, data, *_ in entries:
            offs.append(tf.offset)
            ti = tarfile.TarInfo(name)
            if data is None:
                ti.type = tarfile.DIRTYPE
                tf.addfile(ti)
            elif isinstance(data, tuple):
                ti.type, ti.linkname = data
                tf.addfile(ti)
            else:
                ti.size = len(data)
                tf.addfile(ti, io.BytesIO(data))
        end = tf.offset
    with open(path, "wb") as f:
        f.write(buf.getvalue())
    starts = [o for o, e in zip(offs, entries) if len(e) > 2 and e[2]]
    if index:
        with open(path + ".idx", "wb") as f:
            for o in starts + [end]:
                f.write(struct.pack("Q", o))
    return starts, end


def write_meta(path, counts, splits, *, exclude=(), dataset=None, extra=None):
    d = os.path.join(path, META)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".info.yaml"), "w") as f:
        yaml.safe_dump({"shard_counts": counts}, f)
    with open(os.path.join(d, "split.yaml"), "w") as f:
        yaml.safe_dump({"split_parts": splits, "exclude": list(exclude)}, f)
    with open(os.path.join(d, "dataset.yaml"), "w") as f:
        yaml.safe_dump(dataset or TEXT, f)
    for name, data in (extra or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(data)


TEXT = {
    "__module__": "megatron.energon",
    "__class__": "TextWebdataset",
    "field_map": {"text": "txt"},
}
CRUDE = {"__module__": "megatron.energon", "__class__": "CrudeWebdataset"}


def text_dataset(path, counts, *, tag="", splits=None, exclude=(), files=True, dataset=None, ext="txt", names=None, first=0):
    """Samples numbered through all shards: key s<number>, text <tag><number>."""
    os.makedirs(path, exist_ok=True)
    names = names or [f"shard_{k:03d}.tar" for k in range(len(counts))]
    i = first
    for name, n in zip(names, counts):
        if files:
            write_tar(
                os.path.join(path, name),
                [(f"s{i + j:06d}.{ext}", f"{tag}{i + j}".encode(), True) for j in range(n)],
            )
        i += n
    write_meta(
        path, dict(zip(names, counts)), splits or {"train": names, "val": names},
        exclude=exclude, dataset=dataset,
    )  # fmt: skip
    return names


def number(key):
    """Sample number of a __key__."""
    return int(key.rsplit("/s", 1)[1])


def metadataset(path, blend, *, split="train", kind="blend", version=2):
    """blend: list of dicts with path, weight..."""
    if version == 2:
        d = {"__module__": "megatron.energon", "__class__": "MetadatasetV2", "splits": {s: {kind: blend} for s in (split if isinstance(split, list) else [split])}}
    else:
        d = {"__module__": "megatron.energon", "__class__": "Metadataset", "splits": {s: {"datasets": blend} for s in (split if isinstance(split, list) else [split])}}
    with open(path, "w") as f:
        yaml.safe_dump(d, f)
    return path
