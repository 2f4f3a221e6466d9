"""Content-hash incremental build driver (mtimes are ignored: a check must see any change of /repo's text)."""
import concurrent.futures, fcntl, hashlib, json, os, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4
ENV = dict(os.environ)
ENV.pop("LD_LIBRARY_PATH", None)
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


class BuildError(Exception):
    pass


_hash_memo = {}
_memo_lock = threading.Lock()


def fhash(path):
    with _memo_lock:
        if path in _hash_memo:
            return _hash_memo[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = None
    with _memo_lock:
        _hash_memo[path] = h
    return h


def sh(s):
    return hashlib.sha1(s.encode()).hexdigest()


def parse_deps(path):
    with open(path) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [p for p in txt.split() if p]


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.compiled = 0
        self.reused = 0

    def _compile(self, src, cc, flags, ext="o", extra_deps=()):
        key = sh(json.dumps([src, cc, flags, ext]))
        base = os.path.join(BUILD, "obj", os.path.basename(src).rsplit(".", 1)[0] + "-" + key[:16])
        obj, meta = base + "." + ext, base + ".json"
        if os.path.exists(obj) and os.path.exists(meta):
            try:
                with open(meta) as f:
                    deps = json.load(f)
                if all(fhash(p) == h for p, h in deps.items()):
                    self.reused += 1
                    return obj
            except (ValueError, OSError):
                pass
        cmd = [cc] + flags + ["-MMD", "-MF", base + ".d", "-c", src, "-o", obj + ".tmp"]
        if ext in ("pch", "gch"):
            cmd = [cc] + flags + ["-MMD", "-MF", base + ".d", "-x", "c++-header", src, "-o", obj + ".tmp"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, errors="replace")
        if p.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-6000:]))
        deps = {}
        for d in parse_deps(base + ".d") + list(extra_deps):
            if d.endswith(".tmp"):
                continue
            if not os.path.isabs(d):
                d = os.path.abspath(d)
            deps[d] = fhash(d)
        os.replace(obj + ".tmp", obj)
        with open(meta + ".tmp", "w") as f:
            json.dump(deps, f)
        os.replace(meta + ".tmp", meta)
        os.unlink(base + ".d")
        self.compiled += 1
        return obj

    def objects(self, items):
        """items: list of (src, cc, flags[, extra_deps]); returns objects in order."""
        futs = [self.pool.submit(self._compile, *i) for i in items]
        out, errs = [], []
        for f in futs:
            try:
                out.append(f.result())
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))
        return out

    def link(self, name, objs, cc, flags, shared=False):
        key = sh(json.dumps([[fhash_fresh(o) for o in objs], cc, flags, shared]))
        out = os.path.join(BUILD, "bin", name)
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return out
        rsp = out + ".rsp"
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        cmd = [cc] + (["-shared"] if shared else []) + ["@" + rsp, "-o", out + ".tmp"] + flags
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, errors="replace")
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, p.stdout[-6000:]))
        os.replace(out + ".tmp", out)
        with open(stamp, "w") as f:
            f.write(key)
        return out

    def archive(self, name, objs):
        key = sh(json.dumps([[o, fhash_fresh(o)] for o in objs]))
        out = os.path.join(BUILD, "bin", name)
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return out
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run(["llvm-ar-19", "crsT", out] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if p.returncode != 0:
            raise BuildError("archive %s failed:\n%s" % (name, p.stdout[-3000:]))
        with open(stamp, "w") as f:
            f.write(key)
        return out


def fhash_fresh(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()
