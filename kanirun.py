"""Runs the Kani harnesses of one property (all values of their machine-integer inputs) and replays
every counterexample on the native build."""
import json, os, re, time

def cargo(env, tgt, crate, names, extra):
    e = {k: v for k, v in env.items() if k != "RUSTC_WRAPPER" and (k != "RUSTFLAGS" or crate == "kmul")}
    e["RUST_BACKTRACE"] = "0"
    cmd = ["cargo", "kani", "--target-dir", os.path.join(tgt, crate), "--no-memory-safety-checks", "-Z", "unstable-options", "--exact"]
    if crate == "kmul": cmd += ["-Z", "stubbing"]
    for n in names: cmd += ["--harness", n]
    return cmd + extra, e

def value(ty, b):
    n = int.from_bytes(bytes(b), "little", signed=ty[0] == "i")
    return (n & 1) if ty == "bool" else n

def run(hs, *a):
    """one crate after the other; a crate that stubs private functions fails to compile alone"""
    out = []
    for crate in sorted({h.get("crate", "kani") for h in hs}):
        out += run_crate(crate, [h for h in hs if h.get("crate", "kani") == crate], *a)
    return out

def run_crate(crate, hs, sh, env, tgt, here, save, replay, left, jobs, seed, found):
    """list of results, one per harness, in the form of check's run_case"""
    R = {h["name"]: {"case": h["replay"] + "/" + h["name"], "confirmed": [], "incon": [], "errors": [], "bound": h["bound"], "fns": h["fns"],
                     "kani": {"properties": 0, "checks": 0, "time_s": 0.0, "replayed": 0}} for h in hs}
    cmd, e = cargo(env, tgt, crate, [h["name"] for h in hs], ["-j", str(jobs), "--output-format", "terse"])
    rc, o, err = sh(cmd, max(30, left() - 60), e, os.path.join(here, crate))
    out = o + "\n" + err
    cur, blocks = {}, {}
    th = "0"
    for l in out.splitlines():
        m = re.match(r"Thread (\d+): *(?:Checking harness (\S+?)\.\.\.)?", l)
        if m:
            th = m.group(1)
            if m.group(2): cur[th] = m.group(2); blocks.setdefault(m.group(2), [])
            continue
        m = re.match(r"Checking harness (\S+?)\.\.\.", l)
        if m: cur[th] = m.group(1); blocks.setdefault(m.group(1), []); continue
        if th in cur: blocks[cur[th]].append(l)
    if not blocks:
        for h in hs:
            r = R[h["name"]]
            if h.get("soft"): r["incon"].append("the stubbed functions do not exist: " + out[-300:]); native(h, r, sh, replay, save, seed, found)
            else: r["errors"].append("kani did not run: " + out[-400:])
        return list(R.values())
    for h in hs:
        r, b = R[h["name"]], "\n".join(blocks.get(h["name"], []))
        m = re.search(r"\*\* (\d+) of (\d+) failed", b)
        t = re.search(r"Verification Time: ([0-9.]+)s", b)
        if not m or not t:
            r["incon"].append("kani gave no verdict (time or memory)")
            native(h, r, sh, replay, save, seed, found); continue
        r["kani"].update(properties=int(m.group(2)), checks=int(m.group(2)), time_s=round(float(t.group(1)), 2))
        bad = re.findall(r"Failed Checks: (.*)\n(?: *File: \"(.*?)\")?", b)
        prop = [x for x in bad if "PROP" in x[0]]
        model = [x for x in bad if "kshim" in x[1] or "unwinding assertion" in x[0] or "not modelled" in x[0] or "not currently supported" in x[0]]
        other = [x for x in bad if x not in prop and x not in model]
        if h.get("refuse"): other = []
        if prop or other:
            cmd, e = cargo(env, tgt, crate, [h["name"]], ["-Z", "concrete-playback", "--concrete-playback", "print"])
            rc, o, err = sh(cmd, max(30, left() - 20), e, os.path.join(here, crate))
            tests = re.findall(r"let concrete_vals[^=]*= vec!\[(.*?)\n *\];", o, re.S)
            for i, tst in enumerate(tests[:8]):
                vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"^ *vec!\[([\d, ]*)\]", tst, re.M)]
                ints = [(n, value(ty, v)) for (n, ty), v in zip(h["inputs"], vals)]
                f = save(h["replay"], f"kani{i}", ints, [])
                rc, o2, _ = sh([replay, "run", h["replay"], f], 60)
                if rc == 1:
                    r["confirmed"].append(((prop or other)[0][0], f, (o2.splitlines() or ["?"])[0])); found.append(time.time()); break
            if not r["confirmed"]:
                (r["errors"] if tests and not h.get("soft") else r["incon"]).append(f"kani counterexample not reproduced: {(prop or other)[0]}")
        if model: r["incon"].append(f"outside the fixed-width model: {model[0][0][:120]}")
        native(h, r, sh, replay, save, seed, found)
    return list(R.values())

def native(h, r, sh, replay, save, seed, found):
    rc, o, _ = sh([replay, "rand", h["replay"], "300", str(seed), "4"], 60)
    first = (o.splitlines() or ["?"])[0]
    if rc == 1 and not r["confirmed"]:
        ints = [tuple(l.split()[1:3]) for l in o.splitlines() if l.startswith("int ")]
        ch = [tuple(l.split()[1:3]) for l in o.splitlines() if l.startswith("choice ")]
        f = save(h["replay"], "rand", ints, ch)
        r["confirmed"].append((first, f, first)); found.append(time.time())
    elif rc == 0:
        m = re.match(r"PASS (\d+) SKIP (\d+) CHECKS (\d+)", first)
        if m: r["native"] = {"pass": int(m.group(1)), "skip": int(m.group(2)), "checks": int(m.group(3))}
    elif rc not in (0, 1): r["errors"].append(f"native validation ended rc={rc}: {first}")
