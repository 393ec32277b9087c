#!/usr/bin/env python3
"""Build the check drivers from /repo's working tree. Objects are cached by the hash of everything
that goes into them, in /verif/.build (ignored by git)."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HGDB_REPO", "/repo")
BUILD = os.environ.get("HGDB_BUILD", os.path.join(VERIF, ".build"))
CXX = "clang++-18"
STD = ["algorithm", "functional", "iomanip", "map", "memory", "optional", "set", "sstream",
       "string", "tuple", "unordered_map", "unordered_set", "vector"]

FLAVOURS = {
    # libstdc++ assertions turn out-of-range container accesses into aborts
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=function,vptr,alignment,pointer-overflow", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
    # instrumented memory accesses; the run time is ours (rt/tsan_rt.cc), not the sanitizer's
    "mc": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS"],
}
LINK = {"plain": [], "mc": [],
        "asan": ["-fsanitize=address,undefined", "-fno-sanitize=function,vptr,pointer-overflow"]}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("$ " + " ".join(cmd) + "\n" + r.stdout[-8000:])
    return r.stdout


def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(set(paths)):
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()[:32]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def overlay(gen):
    sh([sys.executable, os.path.join(HERE, "overlay.py"), REPO, gen + "/overlay.tmp"])
    for root, _, files in os.walk(gen + "/overlay.tmp"):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, gen + "/overlay.tmp")
            with open(p) as fd:
                write_if_changed(os.path.join(gen, "overlay", rel), fd.read())


def prepare(whole):
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    if not whole:
        overlay(gen)
    # the JSON schema compiled into the library (cmake's configure_file does this)
    with open(os.path.join(REPO, "src/jschema.hh.in")) as f:
        t = f.read()
    with open(os.path.join(REPO, "include/schema.json")) as f:
        schema = f.read()
    t = t.replace("${JSON_SCHEMA}", schema).replace("@JSON_SCHEMA@", schema)
    write_if_changed(os.path.join(gen, "jschema", "jschema.hh"), t)
    return gen


def includes(gen, orm):
    # orm: whole files and a stand-in for sqlite_orm, instead of files without the parts that use it
    inc = [HERE + "/fakews"]
    inc += [HERE + "/rt/fakeorm"] if orm else [gen + "/overlay/include", gen + "/overlay/src"]
    inc += [gen + "/jschema", REPO + "/include",
            REPO + "/src", REPO + "/tools", REPO + "/tools/vcd", HERE + "/rt", HERE + "/checks",
            "/usr/share/verilator/include/vltstd"]
    return inc


def base_flags(gen, flavour, orm):
    f = [CXX, "-std=c++20", "-w", "-pthread", "-DFMT_CONSTEVAL=", "-DASIO_STANDALONE",
         "-DPERF_COUNT"] + FLAVOURS[flavour]
    for s in STD:
        f += ["-include", s]
    for i in includes(gen, orm):
        f += ["-I", i]
    return f


def lib_sources(gen, orm):
    srcs = []
    for f in sorted(os.listdir(REPO + "/src")):
        if f.endswith(".cc"):
            p = gen + "/overlay/src/" + f
            srcs.append(p if os.path.exists(p) and not orm else REPO + "/src/" + f)
    return srcs


def compile_one(args):
    src, flags, flavour = args
    odir = os.path.join(BUILD, "obj", flavour)
    os.makedirs(odir, exist_ok=True)
    key = hashlib.sha256((src + "|" + " ".join(flags)).encode()).hexdigest()[:16]
    stem = os.path.join(odir, os.path.basename(src) + "." + key)
    obj, meta = stem + ".o", stem + ".json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(obj) and filehash(m["deps"]) == m["hash"]:
            return obj
    except (OSError, ValueError, KeyError):
        pass
    tmp = obj + ".%d.tmp" % os.getpid()
    dep = tmp + ".d"
    sh(flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    os.unlink(dep)
    os.rename(tmp, obj)
    with open(meta, "w") as f:
        json.dump({"deps": deps, "hash": filehash(deps)}, f)
    return obj


def key(job):
    return job[0], job[2], " ".join(job[1])


# driver -> (flavour, extra sources); the default is plain
def drivers():
    out = {}
    for f in sorted(os.listdir(HERE + "/checks")):
        if not f.endswith(".cc"):
            continue
        with open(HERE + "/checks/" + f) as fd:
            head = fd.read(4000)
        m = re.search(r"//\s*build:\s*(.*)", head)
        opt = {"flavour": "plain", "extra": [], "orm": False}
        if m:
            for tok in m.group(1).split():
                if tok in FLAVOURS:
                    opt["flavour"] = tok
                elif tok == "orm":
                    opt["orm"] = True
                elif tok.startswith("+"):
                    opt["extra"].append(tok[1:])
        out[f[:-3]] = opt
    return out


def build(names):
    allopts = drivers()
    whole = all(allopts[n]["orm"] for n in names)
    try:
        if os.environ.get("HGDB_WHOLE"):
            raise RuntimeError("whole files wanted")
        return build_with(names, allopts, whole)
    except RuntimeError as e:
        if whole:
            raise
        # perhaps the files cannot be cut in their present shape: take them whole
        for n in names:
            allopts[n]["orm"] = True
        try:
            return build_with(names, allopts, True)
        except RuntimeError as e2:
            raise RuntimeError(str(e) + "\n" + str(e2))


def build_with(names, allopts, whole):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen = prepare(whole)
        jobs, want = [], {}
        for n in names:
            o = allopts[n]
            fl = o["flavour"]
            flags = base_flags(gen, fl, o["orm"])
            srcs = [HERE + "/checks/" + n + ".cc"]
            lib = lib_sources(gen, o["orm"]) + [REPO + "/" + e for e in o["extra"]]
            rt = [HERE + "/rt/" + x for x in ("explore.cc", "fiber.cc", "vpi_stub.cc", "ws_glue.cc")]
            plainflags = [x for x in flags if x not in ("-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0")]
            js = [(s, flags, fl) for s in lib]
            # the run time itself and (in the mc flavour) the driver are not instrumented
            js += [(s, plainflags, fl) for s in rt + srcs]
            if fl == "mc":
                js.append((HERE + "/rt/tsan_rt.cc", plainflags, fl))
            want[n] = js
            jobs += js
        uniq = {}
        for j in jobs:
            uniq[key(j)] = j
        # biggest files first
        order = sorted(uniq.values(), key=lambda j: -os.path.getsize(j[0]))
        objs = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {key(j): ex.submit(compile_one, j)
                    for j in order}
            for k, f in futs.items():
                objs[k] = f.result()

        def link(n):
            fl = allopts[n]["flavour"]
            o = [objs[key(j)] for j in want[n]]
            exe = os.path.join(BUILD, "bin", n)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            h = filehash(o)
            try:
                with open(exe + ".hash") as f:
                    if f.read() == h and os.path.exists(exe):
                        return exe
            except OSError:
                pass
            tmp = exe + ".%d.tmp" % os.getpid()
            sh([CXX, "-pthread", "-rdynamic"] + LINK[fl] + o + ["-o", tmp, "-lfmt", "-lsqlite3", "-ldl"])
            os.rename(tmp, exe)
            with open(exe + ".hash", "w") as f:
                f.write(h)
            return exe
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return dict(zip(names, ex.map(link, names)))


if __name__ == "__main__":
    ns = sys.argv[1:] or list(drivers())
    try:
        for k, v in build(ns).items():
            print(k, v)
    except RuntimeError as e:
        print(e)
        sys.exit(1)
