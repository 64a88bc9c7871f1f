"""Mirror /repo's working tree, by content, to /verif/.pkg/factrs as a loadable cargo package.

/repo's own manifest cannot be loaded offline: it names the path dependency `factrs-typetag`, a git submodule that
is not checked out.  As /opt/vp/lib/mkpkg.py does, the mirror's Cargo.toml loses the optional dependencies `typetag`
and `serde` and the feature `serde`; every other file is copied byte for byte.  A file is written only when its
content differs (so cargo's mtime fingerprint sees exactly the files that changed) and stale files are removed.
"""
import os, re, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PKG = os.path.join(HERE, ".pkg", "factrs")
KEEP_TOP = ("src", "factrs-proc", "assets", "README.md", "Cargo.toml")
SKIP_DIR = {".git", "target", "factrs-typetag", "node_modules"}


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.isdir(path) and not os.path.islink(path):
        raise SystemExit(f"mirror: {path} is a directory")
    with open(path, "wb") as f:
        f.write(data)


def derive(text):
    if not os.path.exists(f"{REPO}/factrs-typetag/Cargo.toml"):
        text = re.sub(r"(?m)^typetag\s*=.*\n", "", text)
        text = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", text)
        text = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", text)
    # examples and tests are not mirrored: drop their target tables (they are last in the manifest)
    text = re.sub(r"(?ms)^\[\[example\]\].*?(?=^\[|\Z)", "", text)
    return text


def main():
    want = set()
    for top in sorted(os.listdir(REPO)):
        if top not in KEEP_TOP:
            continue
        p = os.path.join(REPO, top)
        if os.path.isdir(p):
            for d, dirs, files in os.walk(p):
                dirs[:] = [x for x in dirs if x not in SKIP_DIR]
                for f in files:
                    want.add(os.path.relpath(os.path.join(d, f), REPO))
        else:
            want.add(top)
    for rel in sorted(want):
        with open(os.path.join(REPO, rel), "rb") as f:
            data = f.read()
        if rel == "Cargo.toml":
            data = derive(data.decode()).encode()
        put(os.path.join(PKG, rel), data)
    for d, dirs, files in os.walk(PKG, topdown=False):
        for f in files:
            if os.path.relpath(os.path.join(d, f), PKG) not in want:
                os.unlink(os.path.join(d, f))
        if not os.listdir(d) and d != PKG:
            os.rmdir(d)


if __name__ == "__main__":
    main()
