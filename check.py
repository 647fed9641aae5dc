#!/usr/bin/env python3
"""Solver-based check of one property against /repo's current source.

  check.py ID              run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py ID -k NAME ...  only these harnesses (development; no evidence written)
  check.py --replay FILE   run a recorded counterexample natively
  check.py --setup         check the tools are there

props/<ID>.rs is split into one file per hooked module of /repo's crates; `cargo kani` compiles
the real crates from /repo with these included, symbolically executes each harness and lets the
SAT solver decide every assertion.  See DESIGN.md.
"""
import glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
MODS = {
    "openjp2": "bio cio codec consts dwt event ht_dec image invert j2k jp2 malloc math mct mqc openjpeg pi "
               "sparse_array stream t1 t2 tcd tgt".split(),
    "laya": "http resolve iiif parse hyper_compat".split(),
}
MODPATH = {"parse": "iiif::parse"}
CRATE = {"jp2": "openjp2", "laya": "laya"}
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUDGET = 6 * 3600 if THOROUGH else 840   # seconds for the whole check
FLAGS = []
NATIVE = "stable-x86_64-unknown-linux-gnu"


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


def env(gen, native=None, extra=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
            del e[k]
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["LAYA_VERIF_DIR"] = gen
    e["RUSTFLAGS"] = ("--cfg laya_verif " + extra).strip()
    if native:
        e["RUSTUP_TOOLCHAIN"] = native
    return e


class Proof:
    def __init__(self, name, mod, opts):
        self.name, self.mod, self.opts = name, mod, opts
        self.tier = opts.get("tier", "quick")
        u = opts.get("unwind", "0")
        q, _, t = u.partition("/")
        self.unwind = int(t if (THOROUGH and t) else q)
        self.solver = opts.get("solver", "")
        self.stubs = [x.split("=>") for x in opts.get("stub", "").split(",") if x]
        self.bounds = opts.get("bounds", "")
        self.timeout = int(opts.get("timeout", "0"))
        self.fs = opts.get("fs", "")                      # CBMC: largest array split into its elements
        self.nodebug = opts.get("profile") == "nodebug"   # as release builds: no debug assertions, no overflow checks


def parse_prop(pid):
    """Split props/<ID>.rs at its `//@` lines."""
    text = open(os.path.join(ROOT, "props", pid + ".rs")).read()
    kind, secs, proofs, cur, pend = "jp2", {}, [], None, None
    meta, stubsets = {}, {}
    for ln in text.splitlines():
        m = re.match(r"\s*//@\s*(\w+)\s*(.*)", ln)
        if m:
            w, rest = m.groups()
            if w == "crate":
                kind = rest.strip()
            elif w == "module":
                cur = rest.strip()
                secs.setdefault(cur, [])
            elif w == "proof":
                pend = dict(re.findall(r"(\w+)=(\"[^\"]*\"|\S+)", rest))
                pend = {k: v.strip('"') for k, v in pend.items()}
                if "stubs" in pend:
                    pend["stub"] = ",".join(stubsets[x] for x in pend["stubs"].split("+"))
            elif w == "stubs":
                k, _, v = rest.partition(" ")
                stubsets[k] = v.strip()
            elif w == "flags":
                FLAGS.extend(rest.split())
            elif w in ("assume", "functions", "note"):
                meta.setdefault(w, []).append(rest.strip())
            else:
                sys.exit("bad directive: " + ln)
            continue
        if cur is None:
            continue
        secs[cur].append(ln)
        if pend is not None:
            m = re.match(r"\s*pub fn (\w+)\(\)", ln)
            if m:
                proofs.append(Proof(m.group(1), cur, pend))
                pend = None
    if not THOROUGH:
        proofs = [p for p in proofs if p.tier == "quick"]
    else:
        proofs = [p for p in proofs if p.tier != "quickonly"]
    return kind, secs, proofs, meta


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    old = open(path).read() if os.path.exists(path) else None
    if old != s:
        open(path, "w").write(s)


def generate(pid, kind, secs, proofs):
    gen = os.path.join(BUILD, "gen", pid)
    crate = CRATE[kind]
    pre = "#[cfg(not(kani))] use crate::verif::kani;\nuse crate::verif::vh;\npub const THOROUGH: bool = %s;\n" % (
        "true" if THOROUGH else "false")
    for c, mods in MODS.items():
        for m in mods:
            body = ""
            if c == crate and m in secs:
                body = pre + "\n".join(secs[m]) + "\n"
            write(f"{gen}/{c}/{m}.rs", body)
        lib = ""
        if c == crate:
            lib = open(os.path.join(ROOT, "lib", "shim.rs")).read()
            for m in secs:
                if m != "lib":
                    src = MODPATH.get(m, m)
                    lib += f"pub use crate::{src}::verif as {m};\n"
            if "lib" in secs:
                lib += "\n".join(secs["lib"]) + "\n"
        write(f"{gen}/{c}/lib.rs", lib)
    h, r = "", "pub fn run(name: &str, vals: Vec<Vec<u8>>) {\n    %s::verif::kani::set(vals);\n    match name {\n" % crate
    for p in proofs:
        path = f"{crate}::verif::{p.mod}::{p.name}" if p.mod != "lib" else f"{crate}::verif::{p.name}"
        h += "#[cfg(kani)]\n#[kani::proof]\n"
        if p.unwind:
            h += f"#[kani::unwind({p.unwind})]\n"
        if p.solver:
            h += f"#[kani::solver({p.solver})]\n"
        for a, b in p.stubs:
            h += f"#[kani::stub({a}, {b})]\n"
        h += f"fn {p.name}() {{ {path}(); }}\n"
        r += f'        "{p.name}" => {path}(),\n'
    r += '        _ => { eprintln!("unknown harness {name}"); std::process::exit(78) }\n    }\n}\n'
    write(f"{gen}/harness.rs", h)
    write(f"{gen}/replay.rs", r)
    return gen


def forget(target):
    """cargo judges freshness by mtime only: make it recompile the repository's crates."""
    for pat in ("openjp2", "laya", "vh_jp2", "vh_laya"):
        for g in glob.glob(f"{target}/**/.fingerprint/{pat}-*", recursive=True) + \
                glob.glob(f"{target}/**/build/{pat}/*/fingerprint", recursive=True):
            shutil.rmtree(g, ignore_errors=True)


def run(cmd, e, cwd, timeout):
    try:
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", start_new_session=True)
        out, _ = p.communicate(timeout=max(timeout, 5))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out or ""


def kani(kind, gen, names, timeout_each, total, extra=(), jobs=None, tag="main", nodebug=False, fs=""):
    hd = os.path.join(ROOT, "harness", kind)
    target = os.path.join(BUILD, "kani-" + kind + ("-nodebug" if nodebug else ""))
    if nodebug:
        forget(target)
        tag += "-nodebug"
    if fs:
        tag += "-fs" + fs
    js = os.path.join(gen, f"out-{tag}.json")
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "--target-dir", target, "--lib", "-Z", "unstable-options", "-Z", "stubbing", "-Z", "float-lib",
           "--harness-timeout", f"{int(timeout_each)}s", "--no-assertion-reach-checks"]
    if jobs:
        cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", js]
    for n in names:
        cmd += ["--harness", n]
    cmd += ["--exact"] + FLAGS + list(extra)
    if fs:
        cmd += ["--cbmc-args", "--max-field-sensitivity-array-size", fs]
    e = env(gen)
    if nodebug:
        e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
        e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
    rc, out = run(cmd, e, hd, total)
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except ValueError:
            pass
    return rc, out, data


INCONCLUSIVE = ("unwind", "unsupported_construct", "internal_error")


def classify(res):
    """-> (status, failing checks, unsat covers)"""
    bad, unwind, unsat, ncov = [], [], [], 0
    for c in res["checks"]:
        st, cat = c["status"].lower(), c["category"]
        if cat == "cover":
            ncov += 1
            if st != "satisfied":
                unsat.append(c)
        elif st == "failure":
            (unwind if cat in INCONCLUSIVE else bad).append(c)
    if bad:
        return "fail", bad, unwind
    if unwind:
        return "inconclusive", [], unwind
    if res["status"].lower() != "success":
        return "error", [], []
    if unsat or not ncov:
        return "vacuous", [], unsat
    return "ok", [], []


def playback(kind, gen, p, total, unwind=None):
    """Re-run one failing harness for concrete values: list of (description, [hex])."""
    extra = ["-Z", "concrete-playback", "--concrete-playback=print"]
    if unwind:
        extra = ["--unwind", str(unwind)] + extra
    rc, out, _ = kani(kind, gen, [p.name], total, total + 60, extra, tag="pb", nodebug=p.nodebug, fs=p.fs)
    res = []
    for blk in re.split(r"Concrete playback unit test for", out)[1:]:
        m = re.search(r"/// Check for `(.*?)`: \"(.*)\"", blk)
        kind_, desc = (m.group(1), m.group(2)) if m else ("?", "?")
        if kind_ == "cover":
            continue
        vals = []
        body = blk.split("vec![", 1)[1] if "vec![" in blk else ""
        for v in re.findall(r"^\s*vec!\[([0-9, ]*)\]", body, re.M):
            vals.append("".join("%02x" % int(x) for x in v.replace(" ", "").split(",") if x))
        res.append((kind_, desc, vals))
    return res, out


def build_replay(kind, gen, profile):
    hd = os.path.join(ROOT, "harness", kind)
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", os.path.join(BUILD, "native-" + kind + "-" + profile)]
    tc, extra = NATIVE, ""
    if profile == "release":
        cmd += ["--release"]
    if profile == "asan":
        tc, extra = "nightly", "-Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    forget(os.path.join(BUILD, "native-" + kind + "-" + profile))
    e = env(gen, tc, extra)
    rc, out = run(cmd, e, hd, 600)
    if rc != 0:
        log(f"replay build ({profile}) failed:\n" + out[-3000:])
        return None
    sub = {"dev": "debug", "release": "release", "asan": "x86_64-unknown-linux-gnu/debug"}[profile]
    return os.path.join(BUILD, f"native-{kind}-{profile}", sub, "replay")


def run_replay(binary, path):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    scratch = os.path.join(BUILD, "scratch")
    os.makedirs(scratch, exist_ok=True)
    rc, out = run([binary, path], e, scratch, 30)
    if rc is None:
        return "hang", out
    if rc == 0:
        return "held", out
    if rc in (77, 78):
        return "assume", out
    return f"broken (exit {rc})", out


def confirm(pid, kind, gen, p, fails, unwind=None, only_hang=False):
    """Replay the solver's values natively. Returns replay path or None."""
    models, out = playback(kind, gen, p, min(max(left() - 120, 60), 420), unwind)
    if not models:
        log(f"  {p.name}: no concrete values from the solver")
        log(out[-2500:])
        return None
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    bins = {}
    for i, (k, desc, vals) in enumerate(models[:12]):
        path = os.path.join(ROOT, "evidence", "replays", f"{pid}-{p.name}-{i}.txt")
        open(path, "w").write(f"property {pid}\nharness {p.name}\ncheck {k}: {desc}\n" + "".join(f"val {v}\n" for v in vals))
        for prof in ("dev", "release", "asan"):
            if only_hang and prof != "dev":
                continue
            if prof not in bins:
                bins[prof] = build_replay(kind, gen, prof)
            if not bins[prof]:
                continue
            st, o = run_replay(bins[prof], path)
            log(f"  replay {p.name} [{desc}] profile {prof}: {st}")
            if st.startswith("broken") or st == "hang":
                tail = "\n".join(o.strip().splitlines()[:12])
                open(path, "a").write(f"# reproduced natively, profile {prof}: {st}\n" +
                                      "".join("# " + l + "\n" for l in tail.splitlines()))
                log("    " + tail.replace("\n", "\n    "))
                return path
    return None


def known(pid):
    res = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"finding:\s*property=(\S+)\s+harness=(\S+)\s+(.*)", ln)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    if sys.argv[1] == "--setup":
        for c in (["cargo", "kani", "--version"], ["cbmc", "--version"]):
            rc, out = run(c, env(BUILD), ROOT, 60)
            log(" ".join(c), "->", out.strip())
            if rc:
                sys.exit(2)
        return 0
    if sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        pid = re.search(r"property (\S+)", open(path).read()).group(1)
        kind, secs, proofs, meta = parse_prop(pid)
        gen = generate(pid, kind, secs, proofs)
        for prof in ("dev", "release", "asan"):
            b = build_replay(kind, gen, prof)
            log(prof, *(run_replay(b, path) if b else ("no build",)))
        return 0
    pid = sys.argv[1]
    only = sys.argv[3:] if len(sys.argv) > 2 and sys.argv[2] == "-k" else None
    kind, secs, proofs, meta = parse_prop(pid)
    gen = generate(pid, kind, secs, proofs)
    if only:
        proofs = [p for p in proofs if p.name in only]
    forget(os.path.join(BUILD, "kani-" + kind))
    by = {p.name: p for p in proofs}
    each = max([p.timeout for p in proofs] + [0]) or (3600 * 3 if THOROUGH else 480)
    ver, stats, engine = [], {}, None
    for nd, fs in sorted({(p.nodebug, p.fs) for p in proofs}):
        ns = [n for n, p in by.items() if (p.nodebug, p.fs) == (nd, fs)]
        if not ns:
            continue
        rc, out, data = kani(kind, gen, ns, each, left() - 60, jobs=8, nodebug=nd, fs=fs)
        if data is None:
            log("\n".join(l for l in re.sub(r"(?ms)^warning:.*?(?=^(?:warning|error|note:|thread|\\Z))", "", out).splitlines())[-4000:])
            log(f"ERROR property={pid}: the harnesses did not compile or the engine gave no result")
            return 2
        ver += data["verification_results"]["results"]
        stats.update({c["harness_id"]: c for c in data["cbmc"]})
        engine = data["tools"]
    got = {r["harness_id"]: r for r in ver}
    problems, violations, rows, finds = [], [], [], []
    fdict = {}
    known_h = known(pid)
    retry = []
    for n, p in by.items():
        r = got.get(n)
        if r is None:
            problems.append(f"{n}: no result (timeout or crash)")
            rows.append({"harness": n, "result": "none"})
            continue
        st, bad, aux = classify(r)
        s = stats.get(n, {}).get("cbmc_stats", {}) or {}
        nchk = [c for c in r["checks"] if c["category"] != "cover"]
        row = {
            "harness": n, "result": st, "unwind": p.unwind, "bounds": p.bounds,
            "checks_decided": sum(c["status"].lower() in ("success", "failure", "unreachable") for c in nchk),
            "checks_reachable_and_proved": sum(c["status"].lower() == "success" for c in nchk),
            "witnesses_satisfied": sum(c["category"] == "cover" and c["status"].lower() == "satisfied" for c in r["checks"]),
            "vccs_generated": s.get("vccs_generated", 0), "vccs_sent_to_solver": s.get("vccs_remaining", 0),
            "ssa_steps": s.get("size_program_expression", 0),
            "solver": stats.get(n, {}).get("configuration", {}).get("solver"),
            "solver_s": s.get("runtime_decision_procedure_s", 0), "symex_s": s.get("runtime_symex_s", 0),
            "wall_s": r["duration_ms"] / 1000,
        }
        rows.append(row)
        for c in r["checks"]:
            f = c.get("location", {}).get("file", "")
            if "/repo/" in f or f.startswith(("src/", "openjp2-rs/")):
                if "verif" not in c["function"]:
                    fdict.setdefault(c["function"], 0)
                    fdict[c["function"]] += 1
        log(f"  {n}: {st}  {row['wall_s']:.1f}s solver={row['solver_s'] if row['solver_s'] is None else round(row['solver_s'], 1)}s "
            f"checks={row['checks_decided']} covers={row['witnesses_satisfied']}")
        if st == "fail":
            for c in bad[:8]:
                log(f"     FAILED {c['description']} at {c['location'].get('file')}:{c['location'].get('line')} in {c['function']}")
        for c in aux[:6]:
            log(f"     {c['category']}: {c['description']} {c['location'].get('file')}:{c['location'].get('line')} in {c['function']}")
        if st == "fail":
            row["failed"] = [c["description"] for c in bad]
            if violations:
                row["result"] = "fail (not replayed: a violation is already confirmed)"
                continue
            path = confirm(pid, kind, gen, p, bad) if not (only and os.environ.get("NOREPLAY")) else None
            kf = [w for h, w in known_h if h == n]
            if path and kf:
                finds.append((kf[0], path))
            elif path:
                violations.append((n, path))
            else:
                problems.append(f"{n}: counterexample did not reproduce natively: {bad[0]['description']}")
        elif st == "inconclusive":
            retry.append(p)
        elif st == "vacuous":
            problems.append(f"{n}: a reachability witness is unsatisfiable: {[c['description'] for c in aux]}")
        elif st == "error":
            problems.append(f"{n}: engine status {r['status']}")
    # A loop ran past its bound: look deeper, and for non-termination.
    for p in retry:
        if violations or left() < 120:
            problems.append(f"{p.name}: unwinding bound {p.unwind} not sufficient")
            continue
        u = p.unwind * 2
        log(f"  {p.name}: retry with unwind {u}")
        rc, out, d = kani(kind, gen, [p.name], left() - 90, left() - 60, ["--unwind", str(u)], jobs=1, tag="retry", nodebug=p.nodebug)
        rr = d["verification_results"]["results"] if d else []
        if not rr:
            problems.append(f"{p.name}: no result at unwind {u}")
            continue
        st, bad, aux = classify(rr[0])
        log(f"  {p.name}: at unwind {u}: {st}")
        if st == "ok":
            for row in rows:
                if row["harness"] == p.name:
                    row["result"], row["unwind"] = "ok", u
            continue
        path = confirm(pid, kind, gen, p, bad, unwind=u, only_hang=(st != "fail")) if st in ("fail", "inconclusive") else None
        if path:
            violations.append((p.name, path))
        else:
            problems.append(f"{p.name}: undecided at unwind {u} ({st})")
    wall = time.time() - T0
    if not only:
        ok = [r for r in rows if r.get("result") == "ok"]
        ev = {
            "property": pid, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Bounded symbolic execution (Kani/CBMC) of the real functions compiled from /repo's current "
                               "source; every check below was decided by the SAT solver for all values within the bounds of "
                               "its harness; unwinding assertions are on, so no loop was silently truncated. "
                               + " ".join(meta.get("note", [])),
                "harnesses": rows,
                "harnesses_total": len(by), "harnesses_held": len(ok),
                "queries_discharged": sum(r.get("vccs_sent_to_solver") or 0 for r in rows),
                "checks_decided": sum(r.get("checks_decided", 0) for r in rows),
                "solver_s": round(sum(r.get("solver_s") or 0 for r in rows), 2),
                "symex_s": round(sum(r.get("symex_s") or 0 for r in rows), 2),
                "functions_encoded": sorted(fdict),
                "engine": engine,
                "undecided": problems,
                "known_findings_reproduced": [w for w, _ in finds],
            },
            "assumptions": meta.get("assume", []),
            "wall_s": round(wall, 1), "violations": len(violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for h, w in known_h:
        if h in by and not any(w == x for x, _ in finds) and not any(n == h for n, _ in violations):
            log(f"note: known finding no longer reproduces: {w}")
    for w, path in finds:
        log(f"KNOWN-FINDING: property={pid} {w}")
    for n, path in violations:
        log(f"VIOLATION property={pid} replay={path}")
    for pr in problems:
        log("UNDECIDED " + pr)
    log(f"{pid}: {len(by)} harnesses, {len(violations)} violations, {len(problems)} undecided, {wall:.0f}s")
    if violations:
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    sys.exit(main())
