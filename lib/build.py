"""Builds the harness driver from /repo's working tree, and the TLC overrides.

Outputs are cached under /verif/.build by the hash of everything that goes in."""
import hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STL_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-fsanitize=thread"],
}
BASE = ["-std=gnu++17", "-fpermissive", "-w", "-DNDEBUG", "-fno-omit-frame-pointer",
        "-ffp-contract=off", "-frounding-math"]


class BuildError(Exception):
    pass


def sources():
    cc, hdr, dirs = [], [], {os.path.join(REPO, "src/include")}
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".cc", ".cpp", ".cxx")):
                cc.append(p)
            elif f.endswith((".h", ".hpp", ".hh", ".ipp", ".inl")):
                hdr.append(p)
                if "/include/" not in p:
                    dirs.add(root)
    return sorted(cc), sorted(hdr), sorted(dirs)


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def cached(name, make):
    """make(tmpdir) fills tmpdir; the directory then appears atomically as OUT/name."""
    final = os.path.join(OUT, name)
    if os.path.isdir(final):
        return final
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=OUT, prefix="tmp-")
    try:
        make(tmp)
        try:
            os.rename(tmp, final)
        except OSError:
            pass  # another run was faster
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return final


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def prune(prefix, keep=4):
    try:
        ds = [os.path.join(OUT, d) for d in os.listdir(OUT) if d.startswith(prefix)]
    except FileNotFoundError:
        return
    for d in sorted(ds, key=os.path.getmtime)[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def driver(san="asan", parser=True):
    """The driver with all of the library, or (faster) without its parser."""
    cc, hdr, dirs = sources()
    main = os.path.join(VERIF, "harness/driver.cc")
    kind = san if parser else san + "np"
    if not parser:
        cc = [p for p in cc if "/parser/" not in p]
        hdr = [p for p in hdr if "/parser/" not in p]
    flags = BASE + SAN[san] + [f"-I{d}" for d in dirs] + ([] if parser else ["-DNO_PARSER"])
    prune(f"driver-{kind}-")

    def make(tmp):
        def one(i_p):
            i, p = i_p
            o = os.path.join(tmp, f"{i}.o")
            # the two big ones dominate the build: no optimization for them
            opt = "-O0" if p == main or "/parser/" in p else "-O1"
            sh(["g++", *flags, opt, "-c", p, "-o", o])
            return o

        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate([main] + cc)))
        sh(["g++", *SAN[san], *objs, "-lfmt", "-lpthread", "-lstdc++fs", "-o",
            os.path.join(tmp, "driver")])
        for o in objs:
            os.unlink(o)

    d = cached(f"driver-{kind}-" + digest([main] + cc + hdr, flags), make)
    return os.path.join(d, "driver")


def overrides():
    src = os.path.join(VERIF, "spec/java/RatOverrides.java")

    def make(tmp):
        sh(["javac", "-nowarn", "-cp", JARS, "-d", tmp, src])

    return cached("cls-" + digest([src], "v1"), make)


if __name__ == "__main__":
    print(overrides())
    for s in sys.argv[1:]:
        print(driver(s.removesuffix("np"), not s.endswith("np")))
