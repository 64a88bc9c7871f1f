"""C22: generate macro invocations (programs), compile them next to the explicit builder, compare what both build.

The forms are drawn from the grammar
    fac![ residual , keys [, noise [, robust]] [,] ]
with keys = a path | a call | [k, ...] | (k, ...), residual / noise / robust = any expression.  A form that the
compiler rejects although the same program with explicit builders compiles is a violation, like a factor that differs.
"""
import json, os, random, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
GEN = os.path.join(HERE, "out", "gen", "fac_forms.rs")

# residual kind -> (field of Args, residual expression, output dimension, symbols of its keys)
KINDS = {
    "R1": ("r1", None, 1, "P"),
    "R2": ("r2", None, 3, "QC"),
    "R3": ("r3", None, 2, "RBP"),
    "R4": ("r4", None, 5, "ASQB"),
    "R5": ("r5", None, 4, "DAPCR"),
    "R6": ("r6", None, 6, "QCERBB"),
    "PriorSO2": ("zs", "PriorResidual::new(a.zs.clone())", 1, "S"),
    "PriorSE3": ("zq", "PriorResidual::new(a.zq.clone())", 6, "Q"),
    "PriorBias": ("ze", "PriorResidual::new(a.ze.clone())", 6, "E"),
    "BetweenSE2": ("zp", "BetweenResidual::new(a.zp.clone())", 3, "PP"),
    "BetweenSO3": ("zr", "BetweenResidual::new(a.zr.clone())", 3, "RR"),
    "BetweenV3": ("zc", "BetweenResidual::new(a.zc.clone())", 3, "CC"),
}


def noise_expr(r, n, style):
    t = f"::<{n}>" if r.random() < 0.5 else ""
    arg = ", ".join(f"a.n[{i}]" for i in range(n))
    return {
        "none": None,
        "sigma": f"GaussianNoise{t}::from_scalar_sigma(a.n[0])",
        "cov": f"GaussianNoise{t}::from_scalar_cov(a.n[1])",
        "diag": f"GaussianNoise::<{n}>::from_diag_sigmas({arg})",
        "diagcov": f"GaussianNoise::<{n}>::from_diag_covs({arg})",
        "mat": f"GaussianNoise::<{n}>::from_matrix_cov(a.cov::<{n}>().as_view())",
        "unit": f"UnitNoise::<{n}>",
        "var": "noise",
        "block": "{ let s = a.n[2] * 2.0; GaussianNoise::<%d>::from_scalar_sigma(s) }" % n,
        "if": f"if a.n[0] > 0.5 {{ GaussianNoise::<{n}>::from_scalar_sigma(a.n[3]) }} else {{ GaussianNoise::<{n}>::from_scalar_cov(a.n[4]) }}",
        "clone": "noise.clone()",
        "qualified": f"factrs::noise::UnitNoise::<{n}>",
        "paren": f"(GaussianNoise::<{n}>::from_scalar_cov(a.n[2]))",
        "counted": "{ count += 1; GaussianNoise::<%d>::from_scalar_cov(a.n[3]) }" % n,
        "inf": f"GaussianNoise::<{n}>::from_matrix_inf(a.cov::<{n}>().as_view())",
    }[style]


NOISE = ["none", "sigma", "cov", "diag", "diagcov", "mat", "unit", "var", "block", "if", "clone", "qualified", "paren", "inf", "counted"]
ROBUST = {
    "none": None, "huber": "Huber::new(a.n[6])", "default": "Huber::default()", "l2": "L2", "l1": "L1",
    "cauchy": "Cauchy::new(a.n[6])", "geman": "GemanMcClure::new(a.n[6])", "welsch": "Welsch::new(a.n[6])",
    "tukey": "Tukey::new(a.n[6])", "fair": "Fair::new(a.n[6])", "var": "robust", "block": "{ let k = a.n[6]; Cauchy::new(k) }",
    "qualified": "factrs::robust::Tukey::new(a.n[6])", "paren": "(Fair::new(a.n[6] + 1.0))",
    "if": "if a.n[0] > 0.5 { Huber::new(a.n[6]) } else { Huber::new(a.n[5]) }", "welschdefault": "Welsch::default()",
    "counted": "{ count += 1; GemanMcClure::new(a.n[6]) }",
}
KEYS1 = ["path", "call", "array", "tuple"]
KEYSN = ["array", "tuple"]
RES = ["var", "clone", "block", "counted"]


def make_form(r, i, kind=None, keys=None, noise=None, robust=None, res=None):
    kind = kind or r.choice(list(KINDS))
    field, expr, dim, syms = KINDS[kind]
    n = len(syms)
    keys = keys or r.choice(KEYS1 if n == 1 else KEYSN)
    noise = noise or r.choice(NOISE)
    robust = robust or r.choice(list(ROBUST))
    if noise == "none":
        robust = "none"
    res = res or r.choice(RES)
    base = expr or f"a.{field}.clone()"
    rexp = {"var": "res", "clone": base, "block": "{ let q = %s; q }" % base, "counted": "{ count += 1; %s }" % base}[res]
    nexp, bexp = noise_expr(r, dim, noise), ROBUST[robust]
    kex = []
    for j, s in enumerate(syms):
        kex.append(r.choice([f"{s}(a.k[{j}])", f"k{j}", f"{s}({i % 7 + 11 * j})"] if not (n == 1 and keys == "path") else ["k0"]))
        if n == 1 and keys == "call":
            kex[0] = r.choice([f"{s}(a.k[{j}])", f"{s}({i % 7})", f"{s}(a.k[0] + 1)"])
    if keys in ("array", "tuple") and r.random() < 0.25:
        j = r.randrange(n)
        kex[j] = "{ count += 1; %s }" % kex[j]
    tail = r.choice(["", ","])
    if keys == "array":
        ktxt = "[" + ", ".join(kex) + r.choice(["", ","]) + "]"
    elif keys == "tuple":
        ktxt = "(" + ", ".join(kex) + ("," if n == 1 else r.choice(["", ","])) + ")"
    else:
        ktxt = kex[0]
    parts = [rexp, ktxt] + ([nexp] if nexp else []) + ([bexp] if bexp else [])
    macro = "fac![" + ", ".join(parts) + tail + "]"
    if r.random() < 0.3:
        macro = "fac!(" + ", ".join(parts) + tail + ")"
    plain = lambda s: s and s.replace("count += 1; ", "")
    nexp, bexp, kex = plain(nexp), plain(bexp), [plain(k) for k in kex]
    builder = f"FactorBuilder::new{n}({base}, {', '.join(kex)})"
    if nexp:
        builder += f".noise({nexp})"
    if bexp:
        builder += f".robust({bexp})"
    builder += ".build()"
    setup = "".join(f"let k{j} = {s}(a.k[{j}]); " for j, s in enumerate(syms))
    if "noise" in (nexp or "").split(".")[0].split():
        setup += f"let noise = GaussianNoise::<{dim}>::from_scalar_sigma(a.n[5]); "
    if bexp == "robust":
        setup += "let robust = Huber::new(a.n[6]); "
    return dict(i=i, kind=kind, keys=keys, noise=noise, robust=robust, res=res, macro=macro, builder=builder,
                setup=setup, base=base, kex=kex, counted=macro.count("count += 1"), usesres=res == "var")


def render(forms, control=False):
    out = ["// generated by fac_check.py", "pub fn forms() -> Vec<Form> { vec!["]
    for f in forms:
        out.append(f'  Form {{ text: {json.dumps(f["macro"])}, kind: {json.dumps(f["kind"])}, f: form_{f["i"]} }},')
    out.append("] }")
    lines = {}
    for f in forms:
        out.append(f'#[allow(unused)] fn form_{f["i"]}(a: &Args) -> Built {{')
        out.append("  let mut count = 0usize;")
        out.append(f'  let macro_made = {{ {f["setup"]}' + (f'let res = {f["base"]};' if f["usesres"] else ""))
        if control:
            out.append(f'    {f["builder"]} }};')
        else:
            out.append(f'    {f["macro"]} }};')
        lines[len(out)] = f
        out.append(f'  let explicit = {{ {f["setup"]} {f["builder"]} }};')
        keys = ", ".join(f"({k}).into()" for k in f["kex"])
        want = 0 if control else f["counted"]
        out.append(f'  {f["setup"]} Built {{ macro_made, explicit, keys: vec![{keys}], evaluated: count, expected: {want} }}')
        out.append("}")
    return "\n".join(out) + "\n", lines


def write(text):
    os.makedirs(os.path.dirname(GEN), exist_ok=True)
    try:
        if open(GEN).read() == text:
            return
    except OSError:
        pass
    open(GEN, "w").write(text)


def forms_for(seed, n):
    r = random.Random(f"fac-{seed}")
    out = []
    add = lambda **k: out.append(make_form(r, len(out), **k))
    # every documented shape at least once
    for kind in KINDS:
        for ks in (KEYS1 if len(KINDS[kind][3]) == 1 else KEYSN):
            add(kind=kind, keys=ks, noise="none", robust="none")
    for nz in NOISE[1:]:
        add(noise=nz, robust="none")
        add(noise=nz)
    for rb in ROBUST:
        add(noise="sigma", robust=rb)
    # every noise with a kernel that shows, every kernel with some noise, every arity and key style with both
    shows = [x for x in ROBUST if x not in ("none", "l2")]
    for nz in NOISE[1:]:
        add(noise=nz, robust=r.choice(shows))
    for rb in shows:
        add(robust=rb, noise=r.choice(NOISE[1:]))
    for kind in KINDS:
        for ks in (KEYS1 if len(KINDS[kind][3]) == 1 else KEYSN):
            add(kind=kind, keys=ks, noise=r.choice(NOISE[1:]), robust=r.choice(shows))
    while len(out) < n:
        add()
    return out


def cargo(e, json_out=False):
    cmd = ["cargo", "build", "--release", "--offline", "--quiet", "--bin", "c22"]
    if json_out:
        cmd += ["--message-format", "json"]
    return subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=e, capture_output=True, text=True)


def compile_forms(forms, e, control=False):
    text, lines = render(forms, control)
    write(text)
    r = cargo(e)
    if r.returncode == 0:
        return True, [], ""
    r = cargo(e, True)
    bad = {}
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        for sp in m["message"]["spans"]:
            while sp:
                ln = sp["line_start"]
                if sp["file_name"].endswith("fac_forms.rs"):
                    for q in (ln, ln - 1):
                        if q in lines:
                            bad.setdefault(lines[q]["i"], (lines[q], m["message"]["message"]))
                            break
                sp = (sp.get("expansion") or {}).get("span")
    return False, list(bad.values()), r.stderr[-3000:]


def violation(prop, form, msg, e):
    os.makedirs(os.path.join(HERE, "out", "replays"), exist_ok=True)
    rep = os.path.join(HERE, "out", "replays", f"{prop}-compile.json")
    json.dump(dict(property=prop, sub="compile", form=form, message=msg, seed=e.get("VERIF_SEED", "1")), open(rep, "w"), indent=1)
    print(f"the macro form does not compile: {form['macro']}")
    print(f"  compiler: {msg}")
    print(f"  the same factor with the explicit builder compiles: {form['builder']}")
    print(f"VIOLATION property={prop} replay={rep}")


def evidence(prop, e, n, wall, viol, note):
    json.dump(dict(property=prop, tier=e.get("VERIF_TIER", "quick"), seed=int(e.get("VERIF_SEED", "1") or 1), level="exploration",
                   coverage=dict(evaluations=n, distinct_nontrivial=n, rule=note, samples=[]), assumptions=[], wall_s=wall, violations=viol),
              open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)


def setup(e):
    ok, _, err = compile_forms(forms_for(e.get("VERIF_SEED", "1"), 160), e)
    # a rejected form is the check's business; setup only warms the build
    return 0


def main(prop, args, e):
    t0 = time.time()
    tier = e.get("VERIF_TIER", "quick")
    if len(args) > 1 and args[0] == "--replay":
        rep = json.load(open(args[1]))
        if rep.get("sub") == "compile":
            ok, bad, err = compile_forms([rep["form"]], e)
            if ok:
                print("replay: the form compiles")
                return 0
            okc, _, errc = compile_forms([rep["form"]], e, True)
            if not okc:
                sys.stderr.write(errc)
                return 2
            violation(prop, rep["form"], bad[0][1] if bad else err, e)
            return 1
    n = 400 if tier == "thorough" else 160
    forms = forms_for(e.get("VERIF_SEED", "1") or "1", n)
    if len(args) > 1 and args[0] == "--replay":
        rep = json.load(open(args[1]))
        forms = forms_for(str(rep.get("seed", 1)), rep.get("forms", n))
    ok, bad, err = compile_forms(forms, e)
    if not ok:
        okc, _, errc = compile_forms(forms, e, True)
        if not okc:
            sys.stderr.write(errc)
            print(f"check of {prop} could not be built")
            return 2
        # shrink: the simplest single form that fails on its own
        cand = sorted([b[0] for b in bad] or forms, key=lambda f: (f["kind"][0] == "R", len(f["macro"])))
        for f in cand[:12]:
            o, b, er = compile_forms([f], e)
            if not o:
                violation(prop, f, b[0][1] if b else er[-500:], e)
                evidence(prop, e, len(forms), time.time() - t0, 1, "compiled macro forms")
                return 1
        # only in combination: report the first
        violation(prop, cand[0], (bad[0][1] if bad else err), e)
        evidence(prop, e, len(forms), time.time() - t0, 1, "compiled macro forms")
        return 1
    ee = dict(e, VERIF_FORMS=str(len(forms)))
    extra = list(args) if args[:1] == ["--replay"] else []
    rc = subprocess.run([os.path.join(HERE, "target", "release", "c22"), *extra], env=ee).returncode
    if rc == 0 and not extra:
        f = os.path.join(HERE, "evidence", f"{prop}.json")
        d = json.load(open(f))
        d["coverage"]["programs"] = len(forms)
        d["coverage"]["program_samples"] = [x["macro"] for x in forms[:3] + forms[-5:]]
        d["wall_s"] = time.time() - t0
        json.dump(d, open(f, "w"), indent=1)
    return rc if rc in (0, 1) else 2
