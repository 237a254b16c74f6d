"""Turns units (contracts on mechanically extracted functions) into Verus files,
runs the verifier and reads its answer.  See DESIGN.md, "How a proof is run"."""
import glob, json, os, re, subprocess, sys, time, tempfile, threading, hashlib, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Undecided(Exception):
    pass


class Fn:
    """One extracted function or fragment under contract.

    file, path, select   where the text comes from (see vx)
    header               Verus signature + contract; `$p0` .. are the real parameter names
    impl                 `impl ...` head if the text uses `self`
    loops                {ordinal: invariant text}; the number must match the source
    closures             {ordinal: closure head + contract}
    at                   {marker: proof text}
    """

    def __init__(self, name, file, path, header, select="", impl=None, loops=None, closures=None, at=None, props=None,
                 methods=(), calls=(), index=(), macros=(), formats=(), drop_lets=(), targets_cfg=False, keep_for=False,
                 eqs=False, subst=(), probe=True, wrap=None, post="", attrs="#[verifier::loop_isolation(false)]", noprobe=(), bind=(), final=None, pre="", cuts=(), ret=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.loops = loops or {}
        self.closures = closures or {}
        self.at = at or {}

    def request(self):
        return dict(file=src_file(self.file), path=self.path, select=self.select, methods=[list(x) for x in self.methods],
                    calls=[list(x) for x in self.calls], index=[list(x) for x in self.index], macros=[list(x) for x in self.macros],
                    formats=[list(x) for x in self.formats], drop_lets=list(self.drop_lets), targets_cfg=self.targets_cfg, keep_for=self.keep_for, eqs=self.eqs, bind=list(self.bind), cuts=[list(x) for x in self.cuts])


class Ty:
    def __init__(self, file, path, attrs="", subst=(), targets_cfg=False, mod=None):
        self.file, self.path, self.attrs, self.subst, self.targets_cfg, self.mod = file, path, attrs, subst, targets_cfg, mod

    def request(self):
        return dict(file=os.path.join(REPO, self.file), path=self.path, what="type", targets_cfg=self.targets_cfg)


class Unit:
    def __init__(self, name, props, fns, prelude=(), spec="", types=(), rlimit=30, lemmas="", uses="", seeds=2, mods={}):
        self.__dict__.update(locals())
        del self.__dict__["self"]


VX = os.path.join(VERIF, "vx", "target", "release", "vx")


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for r, d, f in os.walk(p):
                d[:] = sorted(x for x in d if x not in ("target", ".git"))
                for n in sorted(f):
                    q = os.path.join(r, n)
                    h.update(os.path.relpath(q, p).encode() + b"\0")
                    try:
                        h.update(open(q, "rb").read())
                    except OSError:
                        pass
        elif os.path.exists(p):
            h.update(p.encode() + open(p, "rb").read())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.p = os.path.join(VERIF, "work", name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_env():
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_vx():
    with Lock("vx"):
        stamp = os.path.join(VERIF, "vx", "target", ".stamp")
        h = tree_hash([os.path.join(VERIF, "vx", "src"), os.path.join(VERIF, "vx", "Cargo.toml")])
        if os.path.exists(VX) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        p = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(VERIF, "vx"), env=cargo_env(), capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("vx does not build:\n" + p.stderr[-4000:])
        open(stamp, "w").write(h)


def hx_bin(targets=False):
    """(re)builds the harness against /repo's current tree"""
    d = os.path.join(VERIF, "hx", "target-targets" if targets else "target")
    with Lock("hx-targets" if targets else "hx"):
        os.makedirs(d, exist_ok=True)
        stamp = os.path.join(d, ".stamp")
        exe = os.path.join(d, "debug", "hx")
        rh = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")])
        h = rh + tree_hash([os.path.join(VERIF, "hx", "src"), os.path.join(VERIF, "hx", "Cargo.toml")])
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
            return exe
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = d
        if os.path.exists(stamp):
            # the file times of a copied tree prove nothing: throw the old build of the crate away
            os.unlink(stamp)
            for pk in ("krates", "hx"):
                subprocess.run(["cargo", "clean", "--offline", "-q", "-p", pk], cwd=os.path.join(VERIF, "hx"), env=env, capture_output=True)
        cmd = ["cargo", "build", "--offline", "-q"] + (["--features", "targets"] if targets else [])
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "hx"), env=env, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("the harness does not build against /repo:\n" + p.stderr[-4000:])
        open(stamp, "w").write(h)
        return exe


def src_file(f):
    """a file of /repo, or (`expanded#mod/mod`) a module of the crate as the compiler sees it after expanding macros"""
    if f.startswith("expanded#"):
        return expanded() + f[len("expanded"):]
    return os.path.join(REPO, f)


def expanded():
    """the crate with every macro expanded by rustc, from /repo's current tree"""
    h = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")])[:24]
    d = os.path.join(VERIF, "work", "expand")
    out = os.path.join(d, h + ".rs")
    with Lock("expand"):
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            for o in glob.glob(os.path.join(d, "*.rs")):
                os.unlink(o)
            env = cargo_env()
            env.update(CARGO_TARGET_DIR=os.path.join(d, "target"), RUSTC_BOOTSTRAP="1")
            # a cfg of its own for every run: cargo's freshness test must not skip the compiler
            p = subprocess.run(["cargo", "rustc", "--offline", "--locked", "-q", "--lib", "--features", "serialize", "--", "-Zunpretty=expanded", "--cfg", f"vx_{time.time_ns()}"],
                               cwd=REPO, env=env, capture_output=True, text=True)
            if p.returncode or "mod cm" not in p.stdout:
                raise Undecided("macro expansion failed: " + p.stderr[-1500:])
            open(out + ".tmp", "w").write(p.stdout)
            os.rename(out + ".tmp", out)
        return out


def vx_run(reqs):
    p = subprocess.run([VX], input=json.dumps(reqs), capture_output=True, text=True)
    if p.returncode:
        raise Undecided("extractor failed: " + p.stderr[-1500:])
    return json.loads(p.stdout)


def sig_params(sig):
    """parameter patterns of a printed signature, without self"""
    i = sig.index("(", sig.index("fn "))
    # skip generics <...(..)...> rarely present before '('
    d = 0
    j = i
    while True:
        c = sig[j]
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and sig[j - 1] != "-"):
            d -= 1
            if d == 0:
                break
        j += 1
    inner = sig[i + 1:j]
    out, d, cur = [], 0, ""
    for k, c in enumerate(inner):
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and inner[k - 1] != "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    names = []
    for o in out:
        o = o.strip()
        if re.match(r"^(&\s*('\w+\s+)?)?(mut\s+)?self\b", o):
            continue
        n = o.split(":")[0].strip()
        names.append(re.sub(r"^mut\s+", "", n))
    return names


def body_of(text):
    """`fn vx_body() { ... }` -> the block"""
    i = text.index("{")
    return text[i:].rstrip()


AT = re.compile(r"[ \t]*vx_at!\s*\(\s*(\w+)\s*\)\s*;[ \t]*\n?")


def ret_type(h):
    i = h.find("-> (r: ")
    if i < 0:
        return ""
    j, d = i + 4, 1
    while d:
        d += {"(": 1, ")": -1}.get(h[j], 0)
        j += 1
    return ": " + h[i + 7:j - 1]


def gen_fn(f, res, probe):
    if "error" in res:
        raise Undecided(f"{f.path} [{f.select}]: {res['error']}")
    t = re.sub(r"\b(?:super::)+", "", body_of(res["text"]))  # everything is at the root of the generated file
    nl = len(f.loops)
    if res["loops"] != nl:
        raise Undecided(f"{f.path} [{f.select}]: {res['loops']} loops in the source, {nl} under contract")
    if res["closures"] != len(f.closures):
        raise Undecided(f"{f.path} [{f.select}]: {res['closures']} closures in the source, {len(f.closures)} under contract")
    for a, b in f.subst:
        n = len(re.findall(a, t))
        if n == 0:
            raise Undecided(f"{f.path} [{f.select}]: text `{a}` not found")
        t = re.sub(a, b, t)
    for k, inv in f.loops.items():
        pat = re.compile(r"\{\s*vx_loop_%d!\s*\(\s*\)\s*;" % k)
        if not pat.search(t):
            raise Undecided(f"{f.path}: loop {k} not found")
        t = pat.sub(lambda m: "\n" + inv + "\n{", t)
    for k, c in f.closures.items():
        pat = re.compile(r"\{\s*vx_closure_%d!\s*\(\s*\)\s*;" % k)
        if not pat.search(t):
            raise Undecided(f"{f.path}: closure {k} not found")
        t = pat.sub(lambda m: "\n" + c + "\n{", t)
    have = set(AT.findall(t))
    for m in f.at:
        if m not in have:
            raise Undecided(f"{f.path} [{f.select}]: proof anchor `{m}` not found")
    probes = [0]

    def rep(m):
        s = f.at.get(m.group(1), "")
        k = m.group(1)
        b = re.match(r"l(\d+)_before$", k)
        if b and not f.keep_for:
            s = f"let ghost vx_s{b.group(1)} = vx_it{b.group(1)}.s();\n" + s
        if probe and f.probe and k not in f.noprobe and (k == "start" or re.match(r"l\d+_(start|after)$", k)):
            probes[0] += 1
            pr = f"\nif vx_probe() {{ assert(false); /*VXPROBE {f.name} {k}*/ }}\n"
            hd = re.match(r"(\s*(hide\([^)]*\);|broadcast use [^;]*;))*", s).group(0)  # these have to come first
            s = hd + pr + s[len(hd):] if k == "start" else s + pr
            if not any(re.match(r"l\d+_(start|after)$", x) for x in have):
                s += "assume(false);\n"  # probe file only: nothing else is probed in this function
        return s + ("\n" if s else "")

    t = AT.sub(rep, t)
    left = re.search(r"\bvx_(at|loop_\d+|closure_\d+)!", t)
    if left:
        raise Undecided(f"{f.path}: marker {left.group(0)} left")
    if f.ret is not None:  # a fragment that is a run of statements: what the rest of the function uses of it
        t = t.rstrip()[:-1].rstrip() + "\n" + f.ret + "\n}"
    if f.final is not None:
        t = "{\n" + f.pre + "\nlet vx_r" + ret_type(f.header) + " = " + t + ";\n" + f.final + "\nvx_r\n}"
    h = f.header
    for i, n in enumerate(sig_params(res["sig"])):
        h = h.replace(f"$p{i}", n)
        t = t.replace(f"$p{i}", n)
    if "$p" in h:
        raise Undecided(f"{f.path}: parameters changed")
    s = f"// ---- {f.file} :: {f.path} [{f.select}]\n#[verifier::spinoff_prover] {f.attrs}\n{h}\n{t}\n"
    if f.wrap:
        s = f.wrap.replace("$BODY", t).replace("$HEADER", h)
    if f.impl:
        s = f"{f.impl} {{\n{s}\n}}\n"
    return s + f.post, probes[0]


def generate(u, probe=False):
    reqs = [t.request() for t in u.types] + [f.request() for f in u.fns]
    out = vx_run(reqs)
    parts = []
    parts.append("#![allow(unused, non_snake_case, non_camel_case_types, unreachable_code, irrefutable_let_patterns)]\nuse vstd::prelude::*;\n" + u.uses + "\nverus! {\n")
    for p in ("base",) + tuple(u.prelude):
        parts.append(open(os.path.join(VERIF, "units", "prelude", p + ".rs")).read())
    mods = {}
    for t, r in zip(u.types, out):
        if "error" in r:
            raise Undecided(r["error"])
        x = r["text"]
        for a, b in t.subst:
            if not re.search(a, x):
                raise Undecided(f"type {t.path}: `{a}` not found")
            x = re.sub(a, b, x)
        if t.mod:
            mods.setdefault(t.mod, []).append(t.attrs + "\n" + x)
        else:
            parts.append(t.attrs + "\n" + x)
    for m, xs in mods.items():
        parts.append(f"pub mod {m} {{\nuse vstd::prelude::*;\nuse super::*;\n{u.mods.get(m, '')}\n" + "\n".join(xs) + "\n}\n")
    parts.append(u.spec)
    ranges, probes = [], 0
    for f, r in zip(u.fns, out[len(u.types):]):
        s, np = gen_fn(f, r, probe)
        probes += np
        line = "".join(parts).count("\n") + len(parts)  # parts are joined with "\n"
        parts.append(s)
        ranges.append((line + 1, line + 1 + s.count("\n"), f))
    # a solver of its own for each function and lemma: they run in parallel
    parts.append(re.sub(r"(?m)^((?:pub )?(?:broadcast )?proof fn )", r"#[verifier::spinoff_prover] \1", u.lemmas))
    parts.append("\n} // verus!\nfn main() {}\n")
    return "\n".join(parts), ranges, probes, out


FAILS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
         "decreases not satisfied", "could not prove termination", "possible division by zero", "constructed value may fail", "unreachable",
         "loop invariant", "failed this", "possible bit shift", "assert_by", "cannot show", "precondition", "unable to prove post-condition")


def run_verus(path, seed=None, rlimit=30, air=None, extra=(), threads=2, timeout=600):
    cmd = ["verus", "--edition", "2024", "--output-json", "--time-expanded", "--multiple-errors", "30", "--triggers-mode", "silent", "--rlimit", str(rlimit), "--num-threads", str(threads)]
    if seed is not None:
        cmd += ["--smt-option", f"smt.random_seed={seed}"]
    if air:
        cmd += ["--log", "air", "--log-dir", air]
    cmd += list(extra) + [path, "--error-format=json"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=timeout)
        so, se, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return dict(cmd=" ".join(cmd), kind="undecided", why="verifier timeout", errors=[], verified=0, smt_ms=0, wall=time.time() - t0)
    try:
        j = json.loads(so)
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    diags = []
    for l in se.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                diags.append(d)
    errs, bad = [], []
    for d in diags:
        msg = d["message"]
        line = next((s["line_start"] for s in d["spans"] if s.get("is_primary")), d["spans"][0]["line_start"] if d["spans"] else 0)
        lines = [s["line_start"] for s in d["spans"]]
        e = dict(msg=msg, line=line, lines=lines, rendered=d.get("rendered", ""))
        if d.get("code") is None and any(msg.startswith(f) or f in msg for f in FAILS) and "rlimit" not in msg and "Resource limit" not in msg:
            errs.append(e)
        else:
            bad.append(e)
    if bad or "verified" not in vr or vr.get("encountered-vir-error"):
        kind = "undecided"
        why = "; ".join(e["msg"] + f" (line {e['line']})" for e in bad[:3]) or se[-800:]
    elif vr.get("success"):
        kind, why = "ok", ""
    else:
        kind, why = "failed", ""
    smt = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    return dict(cmd=" ".join(cmd), kind=kind, why=why, errors=errs, bad=bad, verified=vr.get("verified", 0), nerr=vr.get("errors", 0), smt_ms=smt, wall=time.time() - t0, rc=rc,
                times=[(x["function"], x["time"]) for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for x in m.get("function-breakdown", [])])


def obligations(airdir):
    """assertions handed to the solver, per function, from the AIR log"""
    n = {}
    for p in sorted(glob.glob(os.path.join(airdir, "*.air"))):
        cur = None
        for l in open(p, errors="replace"):
            if l.startswith(";; Function-"):
                m = re.match(r";; Function-Def (\S+)", l)
                cur = m.group(1).split("::", 1)[-1] if m else None
                if cur:
                    n.setdefault(cur, 0)
            elif cur and re.match(r"\s*\(assert\s*$", l):
                n[cur] += 1
    return n


def scan_trusted(text):
    """every assumption left in the generated file, mechanically"""
    out = []
    for m in re.finditer(r"external_body\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?((?:proof|exec|axiom)?\s*(?:fn|struct|enum)\s+\w+)", text):
        out.append("assumed contract (external_body): " + re.sub(r"\s+", " ", m.group(1)).strip())
    for m in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        out.append("assumed specification of a dependency: " + m.group(1))
    for m in re.finditer(r"\baxiom fn (\w+)", text):
        out.append("axiom: " + m.group(1))
    for m in re.finditer(r"\buninterp spec fn (\w+)", text):
        out.append("uninterpreted: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append("assume/admit in the text")
    return sorted(set(out))


def prove(u, threads=4, want_probe=True):
    """verify one unit on the current tree"""
    r = dict(unit=u.name, kind="ok", why="", errors=[], fns=[f"{f.file}::{f.path}" + (f" [{f.select}]" if f.select else "") for f in u.fns], obligations=0, discharged=0, per_fn={}, smt_ms=0, cmds=[], trusted=[], wall=0)
    t0 = time.time()
    w = os.path.join(VERIF, "work", f"{u.name}-{os.getpid()}")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        text, ranges, _, _ = generate(u)
        path = os.path.join(w, u.name + ".rs")
        open(path, "w").write(text)
        keep = os.path.join(VERIF, "work", u.name + ".rs")
        open(keep, "w").write(text)
        r["trusted"] = scan_trusted(text)
        pr = {}

        def probe_run():
            try:
                pt, pranges, np, _ = generate(u, probe=True)
                pp = os.path.join(w, u.name + "_probe.rs")
                open(pp, "w").write(pt)
                open(os.path.join(VERIF, "work", u.name + "_probe.rs"), "w").write(pt)
                lines = [i + 1 for i, l in enumerate(pt.split("\n")) if "VXPROBE" in l]
                v = run_verus(pp, rlimit=min(u.rlimit, 8), threads=threads)
                hit = {x for e in v["errors"] for x in e["lines"]}
                # out of resources on a function: false was not derived there either
                out = [e for e in v.get("bad", []) if "esource limit" in e["msg"] or "rlimit" in e["msg"]]
                for e in out:
                    for a, b, f in pranges:
                        if any(a <= l <= b for l in e["lines"]):
                            hit.update(range(a, b + 1))
                if out and len(out) == len(v["bad"]):
                    v["kind"] = "failed"
                pr["missing"] = [l for l in lines if l not in hit]
                pr["missing_txt"] = [pt.split("\n")[l - 1].strip() for l in pr["missing"]]
                pr["n"] = len(lines)
                pr["kind"] = v["kind"]
                pr["exc"] = v["why"]
            except Exception as e:
                pr["kind"] = "undecided"
                pr["exc"] = str(e)

        th = None
        if want_probe:
            th = threading.Thread(target=probe_run)
            th.start()
        air = os.path.join(w, "air")
        v = run_verus(path, rlimit=u.rlimit, air=air, threads=threads)
        r["cmds"].append(v["cmd"].replace(path, f"work/{u.name}.rs").replace(air, "air"))
        r["smt_ms"] += v["smt_ms"]
        r["times"] = v.get("times", [])
        tries = 0
        while v["kind"] == "failed" and tries < u.seeds:
            # solver instability is not a violation: the same obligations with other seeds and more resources
            tries += 1
            v2 = run_verus(path, seed=17 * tries, rlimit=u.rlimit * 2, threads=threads)
            r["smt_ms"] += v2["smt_ms"]
            if v2["kind"] == "ok":
                v = v2
        ob = obligations(air)
        r["per_fn"] = ob
        r["obligations"] = sum(ob.values())
        r["kind"], r["why"], r["verified_fns"] = v["kind"], v["why"], v["verified"]
        failed = []
        for e in v["errors"]:
            f = next((f for a, b, f in ranges if any(a <= l <= b for l in e["lines"])), None)
            failed.append(dict(fn=f.name if f else "lemma", props=(f.props if f and f.props else u.props), obligation=e["msg"], rendered=e["rendered"]))
        r["errors"] = failed
        r["discharged"] = r["obligations"] - len(failed) if v["kind"] in ("ok", "failed") else 0
        if v["kind"] == "undecided":
            r["obligations"] = 0
        if r["kind"] == "ok" and r["obligations"] == 0:
            r["kind"], r["why"] = "undecided", "no obligation was generated"
        if th:
            th.join()
            r["probes"] = pr.get("n", 0)
            if r["kind"] == "ok":
                if pr.get("kind") == "undecided":
                    r["kind"], r["why"] = "undecided", "vacuity probe did not run: " + pr.get("exc", "")
                elif pr.get("missing"):
                    r["kind"], r["why"] = "undecided", "vacuous: a probe that must fail was proved: " + "; ".join(pr["missing_txt"][:4])
    except Undecided as e:
        r["kind"], r["why"] = "undecided", str(e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    r["wall"] = time.time() - t0
    return r


def load_units():
    import importlib.util
    us = []
    d = os.path.join(VERIF, "units")
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    sys.path.insert(0, d)
    for n in sorted(os.listdir(d)):
        if n.endswith(".py") and not n.startswith("_"):
            spec = importlib.util.spec_from_file_location("unit_" + n[:-3], os.path.join(d, n))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            us += m.UNITS
    return us
