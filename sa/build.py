"""Compile the repository's current working tree to textual LLVM IR with the flags the real build uses.

meson is asked for a compilation database in a private scratch directory (removed afterwards); every translation
unit of the wanted target is compiled with its own -D/-I/-std flags by clang at -O0, then memory-to-register
promotion is applied, so that the analyses see every statement of the source in a typed, resolved form."""
import concurrent.futures, json, os, pickle, re, shlex, shutil, subprocess, sys, tempfile
import ir

REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


TARGETS = {
    # name -> (output-directory prefixes of the compile commands, extra)
    "seatd": ["seatd.p/"],
    "launch": ["seatd-launch.p/"],
    "lib": ["libseat-private.a.p/", "libseat.so.1.p/"],
}


class Builder:
    def __init__(self, repo=None):
        self.repo = os.path.abspath(repo or REPO)
        self.tmp = tempfile.mkdtemp(prefix="verif-sa.")
        self.cc = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def commands(self):
        if self.cc is None:
            b = os.path.join(self.tmp, "b")
            env = dict(os.environ, CC="gcc")
            r = sh(["meson", "setup", b, self.repo, "--buildtype=debugoptimized", "--wrap-mode=nodownload",
                    "-Dwerror=false", "-Dlibseat-logind=systemd", "-Dlibseat-seatd=enabled", "-Dlibseat-builtin=enabled",
                    "-Dserver=enabled", "-Dexamples=enabled", "-Dman-pages=disabled"], env=env)
            if r.returncode != 0:
                raise BuildError("meson setup failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
            self.builddir = b
            self.cc = json.load(open(os.path.join(b, "compile_commands.json")))
        return self.cc

    def units(self, target):
        pref = TARGETS[target]
        out = []
        for c in self.commands():
            o = c["output"] if "output" in c else ""
            if any(o.startswith(p) for p in pref):
                out.append(c)
        if not out:
            raise BuildError("no translation units for target " + target)
        return out

    def compile(self, c):
        args = shlex.split(c["command"])
        keep = []
        i = 1
        while i < len(args):
            a = args[i]
            if a in ("-I", "-D", "-include", "-isystem", "-U"):
                keep += [a, args[i + 1]]
                i += 1
            elif a.startswith(("-I", "-D", "-std=", "-isystem", "-U")):
                keep.append(a)
            i += 1
        src = os.path.normpath(os.path.join(c["directory"], c["file"]))
        base = re.sub(r"[^\w.]", "_", c["output"])
        ll = os.path.join(self.tmp, base + ".ll")
        r = sh(["clang"] + keep + ["-w", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g",
                                   "-S", "-emit-llvm", src, "-o", ll + ".0"], cwd=c["directory"])
        if r.returncode != 0:
            raise BuildError("clang failed on " + src + ":\n" + r.stderr[-3000:])
        r = sh(["opt", "-passes=mem2reg", "-S", ll + ".0", "-o", ll])
        if r.returncode != 0:
            raise BuildError("opt failed on " + src + ":\n" + r.stderr[-3000:])
        tu = os.path.relpath(src, self.repo)
        return tu, ll

    def macros(self, tu_suffix, target):
        """value of object-like integer macros visible in a translation unit"""
        for c in self.units(target):
            if c["file"].endswith(tu_suffix):
                args = shlex.split(c["command"])
                keep = [a for a in args[1:] if a.startswith(("-I", "-D", "-std="))]
                r = sh(["clang"] + keep + ["-w", "-dM", "-E", os.path.normpath(os.path.join(c["directory"], c["file"]))],
                       cwd=c["directory"])
                if r.returncode != 0:
                    raise BuildError("clang -dM failed")
                out = {}
                for l in r.stdout.split("\n"):
                    m = re.match(r"#define (\w+)(\([^)]*\))? ?(.*)", l)
                    if m:
                        out[m.group(1)] = (m.group(2), m.group(3))
                return out
        raise BuildError("no unit " + tu_suffix)

    def program(self, target):
        us = self.units(target)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(self.compile, us))
        mods = []
        for tu, ll in res:
            mods.append(ir.Module(open(ll).read(), tu))
        p = ir.Program(mods, target)
        p.units = [tu for tu, _ in res]
        return p
