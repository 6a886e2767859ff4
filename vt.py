#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree, runs the explorations of a property on all cores,
confirms what they report, and writes the evidence file.

  vt.py setup                       compile the exploration core and check the reference models
  vt.py check C06 [--tier thorough] decide one property
  vt.py replay FILE                 re-execute a recorded violation
  vt.py run UNIT FLAVOUR SCEN ...   one scenario, for development
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VT_REPO", "/repo")
B = os.path.join(V, "build")
NCPU = os.cpu_count() or 8
MEMCAP = 24.0
T0 = time.time()
SAFE = ["-fno-strict-aliasing", "-fwrapv", "-fno-tree-vectorize", "-fno-tree-slp-vectorize"]
HM, SHA = "Authentication/HMAC-SHA-256", "Hash/SHA/SHA-2/SHA-256"
ASYM = "AsymmetricCryptography/"
GW = ["-Wl,--wrap=__gmpz_urandomm,--wrap=__gmpz_urandomb,--wrap=__gmp_randinit_mt", "-lgmp"]
X86 = ["-Dx86_INTRINSICS", "-maes", "-msse4.1"]
ARM = ["-DARM_INTRINSICS", "-march=armv8-a+crypto"]


def U(h, dirs, defs=(), hdefs=(), cross=None, link=(), extra=(), main=None, wrap=()):
    return dict(h=h, dirs=[dirs] if isinstance(dirs, str) else list(dirs), defs=list(defs), hdefs=list(hdefs), cross=cross,
                link=list(link), extra=list(extra), main=main, wrap=list(wrap))


AES = "BlockCiphers/AES/"
UNITS = {
    "hash": U("hash", SHA), "hash_hmac": U("hash", HM), "hmac": U("hmac", HM), "md5": U("md5", "Legacy/MD5"),
    "hex": U("hex", "Encoders/Hex"), "des": U("des", "Legacy/DES"),
    "chacha": U("chacha", "StreamCiphers/ChaCha"), "chacha12": U("chacha", "StreamCiphers/ChaCha", ["-DTWELVE_ROUNDS"]),
    "chacha8": U("chacha", "StreamCiphers/ChaCha", ["-DEIGHT_ROUNDS"]),
    "hc128": U("hc128", "StreamCiphers/HC-128"), "rabbit": U("rabbit", "StreamCiphers/Rabbit"),
    "sosemanuk": U("sosemanuk", "StreamCiphers/Sosemanuk"),
    "serpent": U("serpent", "BlockCiphers/Serpent"), "serpent_sos": U("serpent", "StreamCiphers/Sosemanuk"),
    "jl": U("jl", ASYM + "Joye_libert", link=GW),
    "lhe": U("he", [ASYM + "Labeled_homomorphic_encryption/LabeledHE", ASYM + "Joye_libert", "StreamCiphers/HC-128"], link=GW),
    "mulhe": U("he", [ASYM + "Labeled_homomorphic_encryption/muLabeledHE", ASYM + "Joye_libert", "StreamCiphers/HC-128"], hdefs=["-DMU"], link=GW),
    "ae": U("ae", [HM, AES + "AES/AES_CFB", "StreamCiphers/HC-128"]),
    "aex": U("aex", [HM, AES + "AES/AES_CFB", "StreamCiphers/HC-128", "Encoders/Hex"], main="Example_AuthenticatedEncryption/example_ae.cpp",
             wrap=["hmac_tag_validation", "aes_cfb_process_packet", "hc128_process_packet"]),
}
for m, dirs in (("ctr", ["AES/AES_CTR", "AES_x86/AES_CTR", "AES_ARM/AES_CTR"]),
                ("cfb", ["AES/AES_CFB", "AES_x86/AES_CFB_Carry-Over", "AES_ARM/AES_CFB_Carry-Over"]),
                ("aegis", ["AEGIS", "AEGIS_x86", "AEGIS_ARM"])):
    base = AES if m != "aegis" else "StreamCiphers/AEGIS/"
    UNITS[m] = U(m, base + dirs[0])
    UNITS[m + "_xp"] = U(m, base + dirs[1])
    UNITS[m + "_ap"] = U(m, base + dirs[2])
    UNITS[m + "_x86"] = U(m, base + dirs[1], X86)
    UNITS[m + "_arm"] = U(m, base + dirs[2], ARM, ["-DSLOW"], cross="arm")
R6 = (["-DROUND_REDUCED"], ["-DREF_ROUNDS=6"])
for m, dirs in (("ctr", ["AES/AES_CTR", "AES_x86/AES_CTR", "AES_ARM/AES_CTR"]), ("cfb", ["AES/AES_CFB", "AES_x86/AES_CFB_Carry-Over", "AES_ARM/AES_CFB_Carry-Over"])):
    for v, d in zip(("", "_xp", "_ap"), dirs):
        UNITS[m + v + "_r6"] = U(m, AES + d, *R6)      # the hardware paths have no round-reduced variant

FL = {"o2": ["-O2"] + SAFE, "o0": ["-O0", "-fno-strict-aliasing", "-fwrapv"],
      "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] + SAFE,
      "sched": ["-O0", "-fno-strict-aliasing", "-fwrapv"], "slow": ["-O2"] + SAFE}

# ------------------------------------------------------------------ building
locks, glock = {}, threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_obj(cxx, flags, src, post=None):
    """object file for src, cached by the hash of the preprocessed text"""
    e = sh([cxx, *flags, "-E", src])
    if e.returncode:
        raise BuildError("%s: %s" % (src, e.stderr.decode(errors="replace")[-3000:]))
    key = hashlib.sha256(("\0".join([cxx, *flags, str(post)]) + "\0").encode() + e.stdout).hexdigest()[:32]
    o = os.path.join(B, "obj", key + ".o")
    with glock:
        lk = locks.setdefault(key, threading.Lock())
    with lk:
        if not os.path.exists(o):
            t = "%s.%d.tmp.o" % (o, os.getpid())
            c = sh([cxx, *flags, "-c", src, "-o", t])
            if c.returncode:
                raise BuildError("%s: %s" % (src, c.stderr.decode(errors="replace")[-3000:]))
            if post:
                c = sh(["objcopy", *post, t])
                if c.returncode:
                    raise BuildError(c.stderr.decode())
            os.rename(t, o)
    return o


def mangled(objs, names):
    out = {}
    for l in sh(["nm", "--defined-only", *objs]).stdout.decode().split("\n"):
        m = re.match(r"\S+ [TW] (\S+)$", l)
        k = m and re.match(r"_Z(\d+)(\w+)", m.group(1))
        for n in names:
            if m and (m.group(1) == n or k and k.group(2)[:int(k.group(1))] == n):
                out[n] = m.group(1)
    if set(out) != set(names):
        raise BuildError("not found: %s" % (set(names) - set(out)))
    return out


# ---- GMP calls of the code under test as scheduling points (flavour sched)
GMPT = {"mpz_ptr": "w", "mpz_srcptr": "r", "gmp_randstate_ptr": "s"}


def gmp_stubs(objs, pool):
    """copies of the objects whose GMP calls go through stubs that report what the call accesses"""
    syms = set()
    for l in sh(["nm", "-u", *objs]).stdout.decode().split("\n"):
        m = re.match(r"\s+U (__gmp\w+)$", l)
        if m:
            syms.add(m.group(1))
    if not syms:
        return objs
    pre = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-"], input=b"#include <gmp.h>\n", stdout=subprocess.PIPE).stdout.decode()
    proto = {m.group(1): m.group(2) for m in re.finditer(r"(__gmp\w+)\s*\(([^()]*)\)", pre)}
    if "mpz_ptr" not in proto.get("__gmpz_mul", ""):
        raise BuildError("cannot read the prototypes of gmp.h")
    out = ["typedef unsigned long long u;", "void mc_gmp_hook(u *, const char *);"]
    for y in sorted(syms):
        kind = ""
        for a in proto.get(y, "").split(","):
            k = GMPT.get(a.replace("*", " ").split()[0] if a.split() else "", "-")
            kind += "i" if k == "w" and re.match(r"__gmpz_(init|realloc2|array_init)", y) else k
        out.append("__attribute__((used)) static const char k%s[] = \"%s\";" % (y, kind))
        save, rest = ["r9", "r8", "rcx", "rdx", "rsi", "rdi", "rax", "rax", "rax"], ["rax", "rdi", "rsi", "rdx", "rcx", "r8", "r9"]
        asm = ["push %" + x for x in save] + ["movups %xmm0, (%rsp)", "lea 24(%rsp), %rdi", "lea k" + y + "(%rip), %rsi", "call mc_gmp_hook", "movups (%rsp), %xmm0", "add $16, %rsp"] + ["pop %" + x for x in rest] + ["jmp " + y + "@PLT"]
        out.append("__attribute__((naked)) void mcg_%s(void) { __asm__ volatile(\"%s\"); }" % (y, "; ".join(asm)))
    text = "\n".join(out) + "\n"
    h = hashlib.sha256((text + "\0".join(objs)).encode()).hexdigest()[:32]
    d = os.path.join(B, "obj", "g" + h)
    with glock:
        lk = locks.setdefault(d, threading.Lock())
    with lk:
        if not os.path.isdir(d):
            t = "%s.%d.tmp" % (d, os.getpid())
            os.makedirs(t, exist_ok=True)
            open(t + "/stub.c", "w").write(text)
            open(t + "/syms", "w").write("".join("%s mcg_%s\n" % (y, y) for y in sorted(syms)))
            for c in [["gcc", "-O1", "-fPIC", "-c", t + "/stub.c", "-o", t + "/stub.o"]] + [["objcopy", "--redefine-syms=" + t + "/syms", o, "%s/%d.o" % (t, i)] for i, o in enumerate(objs)]:
                e = sh(c)
                if e.returncode:
                    raise BuildError(e.stderr.decode()[-3000:])
            os.rename(t, d)
    return ["%s/%d.o" % (d, i) for i in range(len(objs))] + [d + "/stub.o"]


MAIN = re.compile(r"^\s*(int|auto|signed|void)\s+main\s*\(", re.M)


def sources(d):
    out = []
    for s in sorted(glob.glob(os.path.join(R, d, "*.cpp"))):
        if not MAIN.search(open(s, encoding="utf-8", errors="replace").read()):
            out.append(s)
    return out


def build(unit, flavour, pool):
    """returns a callable that yields the binary's path once its objects are there"""
    u = UNITS[unit]
    arm = u["cross"] == "arm"
    cxx = "aarch64-linux-gnu-g++" if arm else "g++"
    inc = ["-I" + os.path.join(R, d) for d in u["dirs"]]
    fl = FL[flavour]
    common = ["-std=c++17", "-w"]
    hd = u["hdefs"] + (["-DSLOW"] if flavour == "slow" and "-DSLOW" not in u["hdefs"] else [])
    hfl = (["-O2"] + SAFE + ["-fno-omit-frame-pointer"] if flavour in ("asan", "sched") else fl)
    if flavour == "sched":
        rc, rfl = "clang++", ["-O0", "-fsanitize=thread", "-fno-strict-aliasing", "-fwrapv"]
        hd = hd + ["-DMC_SCHED"]
    else:
        rc, rfl = cxx, fl
    core_fl = ["-O2", "-std=c++17", "-w"]
    jobs = []
    for d in u["dirs"]:
        for s in sources(d):
            jobs.append(pool.submit(compile_obj, rc, common + rfl + u["defs"] + inc, s))
    if u["main"]:
        jobs.append(pool.submit(compile_obj, rc, common + rfl + inc, os.path.join(R, u["main"]), ("--redefine-sym", "main=_Z7ex_mainv")))
    nrepo = len(jobs)
    if u["wrap"]:   # functions the harness stands in front of, under whatever mangled name they have now
        names = mangled([j.result() for j in jobs], u["wrap"])
        hd = hd + ["-DSYM_%s=\"%s\"" % x for x in names.items()]
        u = dict(u, link=u["link"] + ["-Wl," + ",".join("--wrap=" + n for n in names.values())])
    # the harness sees the module's headers with the module's own defines
    jobs.append(pool.submit(compile_obj, cxx, common + hfl + (["-fsanitize=address"] if flavour == "asan" else []) + u["defs"] + hd + inc, os.path.join(V, "mc/h", u["h"] + ".cpp")))
    jobs.append(pool.submit(compile_obj, cxx, core_fl, os.path.join(V, "mc/core.cpp")))
    if flavour == "sched":
        jobs.append(pool.submit(compile_obj, "g++", core_fl, os.path.join(V, "mc/sched.cpp")))

    def link():
        objs = [j.result() for j in jobs]
        ld = [cxx, *([] if not arm else ["-static"])]
        extra = list(u["link"])
        if flavour == "asan":
            extra.append("-fsanitize=address")
        if flavour == "sched":
            extra += ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=pthread_mutex_lock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"]
            repo = objs[:nrepo]
            if "-lgmp" in u["link"]:
                repo = gmp_stubs(repo, pool)
            objs = objs[nrepo:] + repo
        key = hashlib.sha256("\0".join(ld + objs + extra).encode()).hexdigest()[:32]
        b = os.path.join(B, "bin", "%s-%s-%s" % (unit, flavour, key))
        with glock:
            lk = locks.setdefault(b, threading.Lock())
        with lk:
            if not os.path.exists(b):
                t = "%s.%d.tmp" % (b, os.getpid())
                c = sh(ld + objs + ["-o", t] + extra + ["-lpthread"])
                if c.returncode:
                    raise BuildError("link %s: %s" % (unit, c.stderr.decode(errors="replace")[-3000:]))
                os.rename(t, b)
        return b
    return link


# ------------------------------------------------------------------ jobs
# scenarios with few long executions: the memory in GB a process needs, and into how many processes the first choice is divided
HEAVY = {"huge": (1.5, 4), "large": (0.3, 5), "maxpkt": (5, 1), "hugepart": (0.1, 2), "largekey": (0.3, 6), "giga": (6.5, 1), "giga4": (9, 2), "gigaforged": (4.5, 1), "gigahex": (3.3, 1)}


def weight(unit, scen):
    if scen == "huge" and unit in ("hash", "hash_hmac", "hmac", "md5"):
        return 0.1
    if scen == "giga" and unit.startswith("ctr"):
        return 0.5
    if scen == "giga4" and unit in ("rabbit", "sosemanuk"):
        return 4.5
    return HEAVY.get(scen, (0.1,))[0]


class Job:
    def __init__(s, unit, flavour, scen, shard=None, mem=0.1, cpu=60, noref=False, tier="quick", seed=1):
        s.unit, s.flavour, s.scen, s.shard, s.mem, s.cpu, s.noref, s.tier, s.seed = unit, flavour, scen, shard, mem, cpu, noref, tier, seed

    def args(s):
        a = ["--scen", s.scen, "--tier", s.tier, "--seed", str(s.seed), "--cpu", str(s.cpu)]
        if s.shard:
            a += ["--shard", "/".join(map(str, s.shard)) + ("/1" if s.scen in HEAVY else "")]
        if s.noref:
            a.append("--noref")
        return a

    def name(s):
        return "%s/%s/%s%s" % (s.unit, s.flavour, s.scen, "" if not s.shard else " shard %d/%d" % tuple(s.shard))


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0",
           LC_ALL="C")
procs, plock, stop = set(), threading.Lock(), threading.Event()
DEADLINE = [None]


def launch(binary, job, extra, work, tag):
    """runs one process; returns (rc, result or None, path, stderr)"""
    out, pf = os.path.join(work, tag + ".json"), os.path.join(work, tag + ".path")
    cmd = [binary] + job.args() + ["--out", out, "--pathfile", pf] + extra
    if UNITS[job.unit]["cross"] == "arm":
        cmd = ["/usr/bin/qemu-aarch64"] + cmd
    with open(os.path.join(work, tag + ".err"), "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=ENV, cwd=work, start_new_session=True)
        with plock:
            procs.add(p)
        timed_out = False
        try:
            left = DEADLINE[0] - time.time() if DEADLINE[0] else None
            p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        finally:
            with plock:
                procs.discard(p)
    err = open(os.path.join(work, tag + ".err"), "rb").read()[-6000:].decode(errors="replace")
    res = None
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        pass
    path = ""
    try:
        d = open(pf, "rb").read()
        n = struct.unpack_from("<i", d, 8)[0]
        path = ",".join(map(str, struct.unpack_from("<%di" % n, d, 12)))
    except (OSError, struct.error):
        pass
    try:
        os.unlink(pf)
    except OSError:
        pass
    return ("timeout" if timed_out else p.returncode), res, path, err


def kill_all():
    stop.set()
    with plock:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


class Pool:
    """NCPU slots and a memory budget"""
    def __init__(s):
        s.cv = threading.Condition(); s.cpu = NCPU; s.mem = MEMCAP

    def acquire(s, m):
        m = min(m, MEMCAP)
        with s.cv:
            while s.cpu < 1 or s.mem < m:
                s.cv.wait()
            s.cpu -= 1; s.mem -= m

    def release(s, m):
        with s.cv:
            s.cpu += 1; s.mem += min(m, MEMCAP); s.cv.notify_all()


def describe(rc, res, err):
    if rc == 1 and res:
        return res["fail"]
    if rc == 77:
        return "a call did not return within its CPU time bound (runaway loop)"
    if isinstance(rc, int) and (rc < 0 or rc > 128):
        n = -rc if rc < 0 else rc - 128
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        f = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        what = "" if not m else " (" + m.group(1) + (" in " + f[0] if f else "") + ")"
        try:
            nm = signal.Signals(n).name
        except ValueError:
            nm = "signal %d" % n
        t = err.strip().splitlines()
        return "the process died with %s%s" % (nm, what or (": " + t[-1] if t else ""))
    return "exit status %s: %s" % (rc, err.strip()[-300:])


def bad(rc):
    """can this ending be a violation"""
    return rc == 1 or rc == 77 or (isinstance(rc, int) and (rc < 0 and rc != -9 or rc > 128 and rc != 137))


def confirm(binary, job, path, res, work):
    """re-execute; returns (mode, rc, res, err) or None"""
    j1 = Job(job.unit, job.flavour, job.scen, None, job.mem, job.cpu, job.noref, job.tier, job.seed)
    rc, r, p, err = launch(binary, j1, ["--replay", path], work, "confirm")
    if bad(rc):
        return {"replay": path}, rc, r, err
    for _ in range(2):
        rc, r, p, err = launch(binary, job, ["--fp", os.devnull], work, "confirm2")
        if bad(rc):
            return {"whole": True, "path": p}, rc, r, err
    return None


# ------------------------------------------------------------------ properties
ALLST = ["chacha", "chacha12", "chacha8", "hc128", "rabbit", "sosemanuk"]
CTR = ["ctr", "ctr_xp", "ctr_ap", "ctr_x86", "ctr_arm"]
CFB = ["cfb", "cfb_xp", "cfb_ap", "cfb_x86", "cfb_arm"]
CFB6 = ["cfb_r6", "cfb_xp_r6", "cfb_ap_r6"]
CTR6 = ["ctr_r6", "ctr_xp_r6", "ctr_ap_r6"]
AEG = ["aegis", "aegis_xp", "aegis_ap", "aegis_x86", "aegis_arm"]
IND = "memory buffers interleave"   # independence of leftover memory, placement, other sessions
STR = "history lengths split split3 equalsplit keybytes keybits ivbytes ivbits databytes reload rekey repeat buflen " + IND
SESS = ["hash", "hash_hmac", "hmac", "md5", "hex", "des"] + ALLST + ["serpent", "serpent_sos"] + CTR + CFB + ["cfb_r6"] + AEG
NATIVE = [u for u in SESS if not u.endswith("_arm")]


def L(units, scens, fl="o2", thorough=False):
    units = [units] if isinstance(units, str) else units
    return [(u, fl, s, thorough) for u in units for s in scens.split()]


PROPS = {
    "C01": L(["hash", "hash_hmac"], "lengths bytes bitpairs history large huge related lenpairs repeat " + IND) + L(["hash", "hash_hmac"], "lengths bytes history", "o0", True),
    "C02": L("md5", "lengths bytes split2 split3 compose bytewise history large related repeat huge hugepart buflen " + IND) + L("md5", "split2 history lengths", "o0"),
    "C03": L("hmac", "keylengths msglengths taglengths keybytes history large largekey huge related rekey repeat buflen " + IND) + L("hmac", "history msglengths keylengths", "o0"),
    "C04": L("hmac", "alltags tagbytes tagbitpairs tagshapes msgtamper keytamper verdicts manytags large largekey largeval related rekey repeat history buflen " + IND) + L("hmac", "tagshapes verdicts", "o0"),
    "C05": L("hex", "pairs triples positions lengths history buflen large related repeat gigahex " + IND) + L("hex", "pairs positions lengths history buflen", "o0"),
    "C06": L(CTR, "history lengths split keybytes keybits noncebytes databytes carry large rekey repeat huge buflen " + IND) + L(["ctr", "ctr_x86"], "maxpkt") + L([u for u in CTR if u != "ctr_arm"], "giga") + L(CTR6, "history lengths keybytes carry") + L(["ctr", "ctr_x86"], "history lengths", "o0"),
    "C07": L(CFB + CFB6, "history lengths split3 residues small keybytes keybits ivbytes databytes rekey repeat") + L(CFB, "large huge buflen " + IND) + L(["cfb", "cfb_x86"], "history residues", "o0"),
    "C08": L(CFB + CFB6, "selfsync fault") + L(CFB, "large residues repeat " + IND),
    "C10": L(AEG, "history lengths longlen keybytes databytes rekey repeat related large huge buflen " + IND) + L([u for u in AEG if u != "aegis_arm"], "giga4") + L(["aegis", "aegis_x86"], "history lengths", "o0"),
    "C11": L(AEG, "bits tagbytes tagpairs tagbits2 tagconst shapes wrongkey forgeries manytags related rekey repeat large history buflen " + IND) + L([u for u in AEG if u != "aegis_arm"], "gigaforged") + L(["aegis", "aegis_x86"], "bits shapes forgeries", "o0"),
    "C12": L(["chacha", "chacha12", "chacha8"], STR + " counters counterseq blockkey large huge") + L("chacha", "giga4") + L("chacha", "history lengths counters", "o0") + L(["chacha12", "chacha8"], "giga4", thorough=True),
    "C13": L("hc128", STR + " boundary longrun large huge") + L("hc128", "giga4") + L("hc128", "history boundary", "o0"),
    "C14": L("rabbit", STR + " carry1 carry2 blocks longrun keycarry large huge") + L("rabbit", "giga4") + L("rabbit", "history carry1 reload", "o0"),
    "C15": L("sosemanuk", STR + " keylen keylens longrun large huge") + L("sosemanuk", "giga4") + L("sosemanuk", "history lengths keylen", "o0"),
    "C16": L(["serpent", "serpent_sos"], "history keylen keylens keybits keybytes blockbytes blockbits columns grid rekey repeat buflen " + IND) + L(["serpent", "serpent_sos"], "history keylen", "o0"),
    "C17": L("des", "history keybits blockbits cross keybytes blockbytes parity weak grid compl_ lengths posbytes rekey repeat large buflen " + IND) + L("des", "history keybits grid", "o0"),
    "C18": L("des", "ctrlengths ctrcarry ctrnonce ctrround ctrdistinct large huge rekey repeat history buflen " + IND) + L("des", "ctrlengths ctrcarry", "o0"),
    "C19": L("jl", "small redraw redraws decall big interleave"),
    "C20": L("jl", "addall mulall encadd trees bigtrees bigadd interleave"),
    "C21": L("jl", "keygen_draws keygen_y keygen_yrun keygen_seeds keygen_sizes keygen_fresh interleave"),
    "C22": L("lhe", "enc labelbytes messages history memory ring1 ringc ring3 programs bigprograms alias interleave keygen"),
    "C23": L("mulhe", "enc labelbytes messages history memory ring1 ringc ring3 programs bigprograms alias interleave setup userkeys users"),
    "C24": L("ae", "bits bytes bitpairs lengths splice sequences orders foreign keylengths plain long_") + L("aex", "example"),
    "C25": L(NATIVE + ["jl", "lhe", "mulhe"], "interleave") + L(["ctr_arm", "cfb_arm", "aegis_arm"], "interleave") + L(
        ["hash", "hash_hmac", "hmac", "md5", "hex", "des", "serpent", "serpent_sos", "chacha", "hc128", "rabbit", "sosemanuk"] + [u for u in CTR + CFB + AEG if not u.endswith("_arm")] + ["jl", "lhe", "mulhe"], "sched", "sched"),
    "C26": L(SESS, "buffers") + L([u for u in SESS if not u.startswith("hash")], "buflen") + L(NATIVE, "buffers", "asan") + L([u for u in NATIVE if not u.startswith("hash")], "buflen", "asan")
        + L(["lhe", "mulhe"], "enc alias", "asan") + L("jl", "small big", "asan") + L("ae", "lengths plain", "asan") + L(["hash", "hash_hmac"], "lengths", "asan"),
    "C27": L(SESS, "memory") + L(NATIVE, "memory", "o0") + L(["lhe", "mulhe"], "memory history enc") + L(["lhe", "mulhe"], "memory", "o0") + L(ALLST, "reload") + L(NATIVE, "history repeat") + L([u for u in SESS if u not in ("hash", "hash_hmac", "md5", "hex")], "rekey") + L(["hash", "hash_hmac", "md5", "hex"] + AEG + ["hmac"], "related")
        + L([u for u in NATIVE if u not in ("hmac", "serpent", "serpent_sos", "cfb_r6")], "lengths@00 lengths@fe") + L("hmac", "msglengths@00 msglengths@fe keylengths@00 keylengths@fe taglengths@00 taglengths@fe") + L(["serpent", "serpent_sos"], "keylen@00 keylen@fe")
        + L([u for u in AEG if u != "aegis_arm"], "longlen@00 longlen@fe") + L(["ctr_arm", "cfb_arm", "aegis_arm"], "lengths@00"),
    "C28": L(["hash", "hash_hmac", "hmac", "md5", "des"] + ALLST + CTR + CFB + AEG, "large huge") + L("hex", "large") + L(["ctr", "ctr_x86"], "maxpkt") + L("md5", "hugepart") + L("hmac", "largekey")
        + L(["chacha"], "giga") + L(["chacha12", "chacha8", "hc128", "rabbit", "sosemanuk"], "giga", thorough=True) + L(ALLST + [u for u in AEG if u != "aegis_arm"], "giga4", thorough=True) + L("hex", "gigahex", thorough=True),
}
XB = {"ctr": CTR, "ctr_r6": CTR6, "cfb": CFB, "cfb_r6": CFB6, "aegis": AEG}
XSCEN = {"ctr": "history lengths split carry", "cfb": "history lengths residues split3", "cfb_r6": "history lengths", "ctr_r6": "history lengths", "aegis": "history lengths bits shapes"}
ALLPROPS = sorted(list(PROPS) + ["C09"])
TECH = {}


def nshards(job_scen):
    return HEAVY[job_scen][1] if job_scen in HEAVY else NCPU


def load_known():
    known = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m:
            known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def check(prop, tier, seed):
    thorough = tier == "thorough"
    DEADLINE[0] = T0 + (6 * 3600 if thorough else 860)
    work = os.path.join(B, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    for d in ("obj", "bin"):
        os.makedirs(os.path.join(B, d), exist_ok=True)
    try:
        return check2(prop, tier, seed, thorough, work)
    finally:
        kill_all()
        shutil.rmtree(work, ignore_errors=True)


def check2(prop, tier, seed, thorough, work):
    jobs = []
    if prop == "C09":
        for g, units in XB.items():
            for u in units:
                for s in XSCEN[g].split():
                    for i in range(NCPU):
                        jobs.append(Job(u, "slow", s, (i, NCPU), noref=True, tier=tier, seed=seed, cpu=300))
    else:
        seen = set()
        for u, fl, s, th in PROPS[prop]:
            if (th and not thorough) or (u, fl, s) in seen:
                continue
            seen.add((u, fl, s))
            n = nshards(s)
            for i in range(n):
                jobs.append(Job(u, fl, s, (i, n) if n > 1 else None, mem=weight(u, s), cpu=400 if s in HEAVY or thorough or fl != "o2" or u.endswith("_arm") else 90, tier=tier, seed=seed))
    jobs.sort(key=lambda j: (-j.mem, j.scen not in HEAVY, not j.unit.endswith("_arm"), j.flavour != "sched"))
    pool = cf.ThreadPoolExecutor(NCPU)
    links = {}
    for j in jobs:
        if (j.unit, j.flavour) not in links:
            links[(j.unit, j.flavour)] = build(j.unit, j.flavour, pool)
    lpool = cf.ThreadPoolExecutor(4)
    bins = {}
    try:
        fut = {k: lpool.submit(f) for k, f in links.items()}
        for k, f in fut.items():
            bins[k] = f.result()
    except BuildError as e:
        print("ERROR: cannot build %s\n%s" % (k, e))
        return 3
    finally:
        pool.shutdown(); lpool.shutdown()
    tb = time.time() - T0
    slots = Pool()
    results, trouble = [], []
    rlock = threading.Lock()
    fpdir = os.path.join(work, "fp")
    os.makedirs(fpdir, exist_ok=True)

    def one(n, j):
        if stop.is_set():
            return
        slots.acquire(j.mem)
        try:
            if stop.is_set():
                return
            extra = ["--fp", os.path.join(fpdir, "%d" % n)]
            if j.noref:
                extra += ["--transcript", os.path.join(work, "%d.tr" % n)]
            rc, res, path, err = launch(bins[(j.unit, j.flavour)], j, extra, work, "j%d" % n)
            if stop.is_set():
                return
            if rc in (-9, 137) and not stop.is_set():       # out of memory: once more, alone
                trouble.append((j, rc, res, path, err, "retry"))
                return
            if rc == 0 and res is not None:
                with rlock:
                    results.append((n, j, res))
                return
            with rlock:
                trouble.append((j, rc, res, path, err, "bad" if bad(rc) else "error"))
            kill_all()
        finally:
            slots.release(j.mem)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda t: one(*t), list(enumerate(jobs))))
    stop.clear()
    for t in [t for t in trouble if t[5] == "retry"]:
        trouble.remove(t)
        if any(x[5] == "bad" for x in trouble):
            continue
        j = t[0]
        rc, res, path, err = launch(bins[(j.unit, j.flavour)], j, ["--fp", os.path.join(fpdir, "r%d" % id(t))], work, "retry")
        if rc == 0 and res is not None:
            results.append((-1, j, res))
        else:
            trouble.append((j, rc, res, path, err, "bad" if bad(rc) else "error"))
    violations, findings = [], {}
    for j, rc, res, path, err, kind in trouble:
        if kind == "error":
            print("ERROR: %s ended with status %s\n%s" % (j.name(), rc, err[-1500:]))
            if not any(t[5] == "bad" for t in trouble):
                return 3
            continue
        if res and res.get("path"):
            path = res["path"]
        c = confirm(bins[(j.unit, j.flavour)], j, path, res, work)
        if c is None:
            print("ERROR: %s reported '%s' (path %s), which did not recur when re-executed" % (j.name(), describe(rc, res, err), path))
            return 3
        how, rc2, res2, err2 = c
        violations.append((j, how, path, describe(rc2, res2, err2), (res2 or {}).get("log", ""), err2))
        break
    # findings reported under a stable key
    known = load_known()
    for n, j, res in results:
        for x in res.get("notes", []):
            if x.startswith("FINDING "):
                _, key, msg = x.split(" ", 2)
                findings.setdefault(key, (j, msg))
    for key, (j, msg) in sorted(findings.items()):
        if (prop, key) not in known:
            violations.append((j, {"finding": key}, "", msg, "", ""))
    if prop == "C09" and not violations:
        v = cross(jobs, bins, work)
        if v == 3:
            return 3
        violations += v
    rc = 0
    for i, (j, how, path, msg, log, err) in enumerate(violations):
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", "%s-%d-%d.json" % (prop, os.getpid(), i))
        json.dump(dict(property=prop, unit=j.unit, flavour=j.flavour, scenario=j.scen, tier=j.tier, seed=j.seed, shard=j.shard, noref=j.noref, how=how, path=path, message=msg,
                       trace=log, stderr=err[-3000:], command="python3 vt.py replay " + rp), open(rp, "w"), indent=1)
        print("%s: %s" % (j.name(), msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    for key, (j, msg) in sorted(findings.items()):
        if (prop, key) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, msg))
    # evidence
    tot = lambda k: sum(r[k] for _, _, r in results)
    states = 0
    byscen = {}
    for n, j, r in results:
        b = byscen.setdefault("%s/%s/%s" % (j.unit, j.flavour, j.scen), dict(executions=0, transitions=0, fps=[], notes=[]))
        b["executions"] += r["execs"]; b["transitions"] += r["transitions"]
        f = os.path.join(fpdir, "%d" % n)
        if os.path.exists(f):
            b["fps"].append(f)
        for x in r["notes"]:
            if not x.startswith("FINDING") and x not in b["notes"]:
                b["notes"].append(x)
    fpc = fpcount_bin()
    for b in byscen.values():
        f = b.pop("fps")
        b["states"] = int(sh([fpc] + f).stdout or 0) if f else 0
        states += b["states"]
        if not b["notes"]:
            del b["notes"]
    samples = []
    for n, j, r in results:
        if r["samples"] and len(samples) < 12 and (not j.shard or j.shard[0] == 0):
            samples.append("%s/%s: %s" % (j.unit, j.flavour, r["samples"][min(1, len(r["samples"]) - 1)]))
    cov = dict(states=states, transitions=tot("transitions"), traces_validated_against_impl=tot("execs"), comparisons=tot("checks"), samples=samples or ["none"],
               exhaustive=not violations, scenarios=byscen, builds=sorted({"%s/%s" % k for k in bins}),
               bounds="every sequence of choices of every scenario listed was executed on the real code (see DESIGN.md for what each scenario enumerates)")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - T0, 2), violations=len(violations),
              assumptions=["the reference models in mc/ref agree with the published specifications (checked against published test vectors by setup)",
                           "contents outside the enumerated sets are represented by generated byte strings"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d transitions, %d states, %d scenarios, build %.1fs, total %.1fs%s" % (
        prop, tier, cov["traces_validated_against_impl"], cov["transitions"], states, len(byscen), tb, time.time() - T0, "" if rc else ": holds"))
    if os.environ.get("VT_TIMES"):
        t = {}
        for n, j, r in results:
            k = "%s/%s/%s" % (j.unit, j.flavour, j.scen)
            t[k] = t.get(k, 0) + r["wall"]
        for k, w in sorted(t.items(), key=lambda x: -x[1])[:25]:
            print("   %7.1f cpu-s  %s" % (w, k))
    return rc


def cross(jobs, bins, work):
    """C09: the transcripts of all builds of a group must be equal"""
    out = []
    idx = {(j.unit, j.scen, j.shard): n for n, j in enumerate(jobs)}
    for g, units in XB.items():
        for s in XSCEN[g].split():
            for i in range(NCPU):
                ref = None
                for u in units:
                    n = idx[(u, s, (i, NCPU))]
                    d = open(os.path.join(work, "%d.tr" % n), "rb").read()
                    if ref is None:
                        ref = (u, n, d)
                        continue
                    if d == ref[2]:
                        continue
                    k = next((k for k in range(0, min(len(d), len(ref[2])), 8) if d[k:k + 8] != ref[2][k:k + 8]), min(len(d), len(ref[2]))) // 8
                    j = jobs[n]
                    rc, r, path, err = launch(bins[(j.unit, j.flavour)], j, ["--stop-at", str(k)], work, "stop")
                    if not path:
                        print("ERROR: %s and %s differ in %s at execution %d, which could not be re-executed" % (ref[0], u, s, k))
                        return 3
                    out.append((j, {"cross": [ref[0], u], "replay": path}, path, "builds %s and %s differ in scenario %s, choices [%s]" % (ref[0], u, s, path), "", ""))
                    return out
    return out


def fpcount_bin():
    b = os.path.join(B, "bin", "fpcount")
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(os.path.join(V, "mc/fpcount.cpp")):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        t = "%s.%d" % (b, os.getpid())
        c = sh(["g++", "-O2", "-std=c++17", "-w", os.path.join(V, "mc/fpcount.cpp"), "-o", t, "-Wl,--unresolved-symbols=ignore-all"])
        if c.returncode:
            raise BuildError(c.stderr.decode())
        os.rename(t, b)
    return b


def replay(f):
    d = json.load(open(f))
    work = os.path.join(B, "work", "replay-%d" % os.getpid())
    for x in (work, os.path.join(B, "obj"), os.path.join(B, "bin")):
        os.makedirs(x, exist_ok=True)
    DEADLINE[0] = time.time() + 3000
    units = d["how"].get("cross") or [d["unit"]]
    with cf.ThreadPoolExecutor(NCPU) as pool:
        bs = [build(u, d["flavour"], pool)() for u in units]
    tr, rc = [], 0
    for u, b in zip(units, bs):
        j = Job(u, d["flavour"], d["scenario"], tuple(d["shard"]) if d["shard"] and "replay" not in d["how"] else None, 1, 400, d["noref"], d["tier"], d["seed"])
        extra = ["--replay", d["how"]["replay"]] if "replay" in d["how"] else []
        if "cross" in d["how"]:
            extra = extra + ["--transcript", os.path.join(work, u + ".tr")]
        rc, res, path, err = launch(b, j, extra, work, "r" + u)
        if res:
            print(res["log"])
            print("\n".join(res["notes"]))
        print("%s: rc=%s %s" % (u, rc, "" if rc == 0 else describe(rc, res, err)))
        if "cross" in d["how"]:
            tr.append(open(os.path.join(work, u + ".tr"), "rb").read())
        elif "finding" in d["how"]:
            rc = int(any(x.startswith("FINDING " + d["how"]["finding"]) for x in (res or {}).get("notes", [])))
    shutil.rmtree(work, ignore_errors=True)
    if tr:
        rc = int(tr[0] != tr[1])
        print("transcripts", "differ" if rc else "are equal")
    return 1 if rc else 0


def setup():
    for d in ("obj", "bin"):
        os.makedirs(os.path.join(B, d), exist_ok=True)
    c = sh(["g++", "-O2", "-std=c++17", "-w", os.path.join(V, "mc/selftest.cpp"), "-o", os.path.join(B, "bin/selftest")])
    if c.returncode:
        print(c.stderr.decode())
        return 1
    c = sh([os.path.join(B, "bin/selftest")])
    print(c.stdout.decode()[-500:])
    if c.returncode:
        return 1
    fpcount_bin()
    compile_obj("g++", ["-O2", "-std=c++17", "-w"], os.path.join(V, "mc/core.cpp"))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    if a[0] == "setup":
        return setup()
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "build":
        for x in ("obj", "bin"):
            os.makedirs(os.path.join(B, x), exist_ok=True)
        with cf.ThreadPoolExecutor(NCPU) as pool:
            print(build(a[1], a[2], pool)())
        return 0
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        return check(a[1], tier, seed)
    print("unknown command")
    return 3


if __name__ == "__main__":
    try:
        r = main()
    except BuildError as e:
        print("ERROR: build failed: %s" % e)
        r = 3
    sys.stdout.flush()
    os._exit(r)
