import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.report import *
from vlib.build import build, tool
from vlib.survey import *

FAMS = [(3, 1, 1, 4), (3, 1, 2, 4), (5, 1, 1, 3), (5, 1, 2, 2), (7, 1, 1, 3), (3, 2, 1, 2), (11, 1, 1, 2), (13, 1, 1, 2), (3, 3, 1, 1), (17, 1, 1, 2), (5, 2, 1, 1)]


def main_():
    c = Check("C17", "exploration",
              "Seeded random configurations are written in several YAML styles, key orders and forms and must be decoded, put into text and message "
              "form and taken back with every value unchanged, optional keys having their defaults; with a required key left out or an unusable number they "
              "must be refused. hycu-threaded, run on configurations in many styles and places, must compute exactly the census and "
              "the blocks that their values mean, below exactly the given paths; unusable ones must end with failure and without results. "
              "Distinct = distinct configurations (by text) and refusals.",
              ["data/census is right", "the block enumeration for given values is right (C05, C06)"])
    q = TIER == "quick"
    exe = build([("threaded", "rel"), ("merger", "rel"), ("config", "rel")])
    th, mg, cf = exe[("threaded", "rel")], exe[("merger", "rel")], exe[("config", "rel")]
    shim = tool("libshim")
    R = random.Random(SEED * 2539 + 17)
    env = {"LD_PRELOAD": shim, "VSHIM_SLEEP_DIV": 50}

    def q1(r, s):
        return "'%s'" % s.replace("'", "''") if r.random() < 0.5 else '"%s"' % s

    def keys(r, f, style):
        """(key, text) of a family"""
        n = lambda x: r.choice([str(x), str(x), "'%d'" % x, '"%d"' % x])
        kv = [("Prime", n(f.p)), ("PrimeExponent", n(f.r)), ("Genus", n(f.g)), ("ResultPath", q1(r, f.path)), ("PackageSize", n(f.package))]
        if f.explicit:
            kv.append(("CountExponent", n(f.n)))
        if f.marked:
            kv.append(("WithMarkedPoint", r.choice(["true", "yes", "on", "True"])))
        elif r.random() < 0.5:
            kv.append(("WithMarkedPoint", r.choice(["false", "no", "off"])))
        r.shuffle(kv)
        return kv

    def text(r, fams, moduli):
        fl = lambda kv: "{" + ", ".join("%s: %s" % x for x in kv) + "}"
        out = []
        if moduli:
            body = []
            for f in fams:
                kv = keys(r, f, 0)
                body.append("  - " + (fl(kv) if r.random() < 0.3 else "\n    ".join("%s: %s" % x for x in kv)))
            out.append("Moduli:\n" + "\n\n".join(body) + "\n")
        else:
            out.append("".join("%s:%s%s\n" % (a, " " * r.randint(1, 3), b) for a, b in keys(r, fams[0], 0)))
        if r.random() < 0.5:
            out.insert(r.choice([0, len(out)]), r.choice(["StoreType: EC\n", "StoreType: 'EC'\n", "# remark\nStoreType: EC # the default\n"]))
        if r.random() < 0.2:
            out.insert(0, "---\n")
        return "".join(out)

    def effect(k):
        r = random.Random(SEED * 99991 + k)
        base = c.sub("e%d" % k)
        moduli = r.random() < 0.6
        fams = []
        words = ["a", "q7 g2", "x", "deep", "1", "\u00e4", "a.b", "c#d", "k:v", "-", "~", "no"]
        for i in range(r.randint(1, 4) if moduli else 1):
            p, rr, g, nm = r.choice(FAMS)
            q_ = p ** rr
            path = "/".join(r.choice(words) for _ in range(r.randint(1, 3))) + "/f%d" % i
            small = q_ ** (2 * g) < 1000
            fams.append(Family(p, rr, g, r.random() < 0.5, r.choice([None if g <= nm else nm, r.randint(1, nm)]), path=path, package=r.choice([q_ * q_, q_, 1000, 2 ** 31 - 1, r.randint(20, 500)] + ([1, 2, 3, 7] if small else []))))
        t = text(r, fams, moduli)
        open(base + "/c.yaml", "w").write(t)
        # where it is run and how the output path is given
        cwd, outarg = r.choice([(None, base + "/out"), (base, "out"), (base, "./out"), (base, "no such/deep/out"), (base, base + "/x/../out")])
        if "../" in outarg:
            os.makedirs(base + "/x")
        cfgarg = r.choice([base + "/c.yaml"] + (["c.yaml", "./c.yaml"] if cwd else []))
        args = r.choice([[cfgarg, outarg], ["--config-file", cfgarg, "--output-path", outarg], ["-c", cfgarg, "--output-path", outarg]])
        n = r.choice([["-n", "2"], ["-n3"], ["--nmb-threads", "1"], ["--nmb-threads=2"], [], ["--nmb-threads=-1"], ["--nmb-threads", "17"]])
        cmd = [th] + (n + args if r.random() < 0.5 else args + n)
        rr_ = run_retry(cmd, timeout=100, env=env, cwd=cwd)
        c.ev()
        rep = {"cmd": cmd, "cwd": cwd, "config": t}
        if rr_.timed_out or rr_.rc != 0:
            c.violation("fails", "configuration %s: ends with %s: %s" % (json.dumps(t), "no end" if rr_.timed_out else rr_.rc, rr_.err[-500:]), rep)
            return
        out = os.path.join(cwd or "/", outarg)
        dirs = {os.path.relpath(d, out) for d, _, fs in os.walk(out) if any(x.endswith((".hycu_store", ".hycu_record")) for x in fs)}
        if dirs != {f.path for f in fams}:
            c.violation("paths", "configuration %s: results in %s instead of %s" % (json.dumps(t), sorted(dirs), sorted(f.path for f in fams)), rep)
            return
        stray = [x for d, _, fs in os.walk(base) for x in fs if x.endswith((".hycu_store", ".hycu_record")) and not os.path.realpath(d).startswith(os.path.realpath(out) + "/")]
        if stray:
            c.violation("paths", "configuration %s: results outside the output path: %s" % (json.dumps(t), stray[:3]), rep)
            return
        for f in fams:
            try:
                cnt, bl = totals(os.path.join(out, f.path))
            except Bad as e:
                c.violation("format", str(e), rep)
                return
            d = differ(cnt, f.census())
            if d:
                c.violation("census", "configuration %s: %r: %s" % (json.dumps(t), f, d), rep)
                return
            e = run([cf, "mode", "blocks", "p", str(f.p), "r", str(f.r), "g", str(f.g), "marked", str(int(f.marked)), "package", str(f.package)])
            want = Counter(parse_record(e.out))
            if e.rc != 0:
                raise HarnessError("blocks: %d %s" % (e.rc, e.err[-300:]))
            if bl != want:
                c.violation("package_size", "configuration %s: %r: %d blocks, and not those of its package size (%d)" % (json.dumps(t), f, sum(bl.values()), sum(want.values())), rep)
                return
            c.add("families"); c.add("blocks", len(bl))
        c.nontrivial(t)
        c.sample("%s -> census of %d families in the right places" % (json.dumps(t)[:300], len(fams)))
        shutil.rmtree(base, ignore_errors=True)

    base_kv = {"Prime": "3", "PrimeExponent": "1", "Genus": "1", "CountExponent": "1", "ResultPath": "r", "PackageSize": "5"}

    def refuse(k, name, kv, form, prog="threaded"):
        base = c.sub("r%d" % k)
        one = "".join("%s: %s\n" % x for x in kv.items())
        if form == "single":
            t = one
        elif form == "only":
            t = "Moduli:\n  - " + one.replace("\n", "\n    ").rstrip() + "\n"
        else:  # after a good one
            t = "Moduli:\n  - " + Family(3, 1, 1, package=9, path="good").yaml().replace("\n", "\n    ").rstrip() + "\n  - " + one.replace("\n", "\n    ").rstrip() + "\n"
        open(base + "/c.yaml", "w").write(t)
        cmd = [th, "-n", "2", base + "/c.yaml", base + "/out"]
        r = run_retry(cmd, timeout=20, env=env)
        c.ev()
        rep = {"cmd": cmd, "config": t}
        res = [os.path.join(d, x) for d, _, fs in os.walk(base) for x in fs if x.endswith((".hycu_store", ".hycu_record")) and "/good" not in d]
        if r.timed_out:
            c.violation("refusal_no_end", "%s (%s): does not end" % (name, form), rep)
        elif r.rc == 0:
            c.violation("accepted", "%s (%s): ends with success" % (name, form), rep)
        elif res:
            c.violation("refused_with_results", "%s (%s): left %s" % (name, form, res[:3]), rep)
        else:
            c.add("refusals"); c.nontrivial((name, form))
        shutil.rmtree(base, ignore_errors=True)

    todo = [lambda s=s: harness(c, [cf, "seed", str(SEED * 16 + s), "n", "2500" if q else "60000"], timeout=100 if q else 800, label="config") for s in range(2 if q else 8)]
    k = 0
    for i in range(120 if q else 3000):
        k += 1
        todo.append(lambda k=k: effect(k))
    for key in base_kv:
        cases = []
        if key != "CountExponent":
            cases.append(("without " + key, {a: b for a, b in base_kv.items() if a != key}))
        if key != "ResultPath":
            for bad in ["0", "00", "-1", "-3", "seven", "", "2.5", "[3]", "99999999999999999999"] + (["1", "2", "4", "9", "15", "21", "25", "1000000"] if key == "Prime" else []):
                cases.append(("%s: %s" % (key, bad), dict(base_kv, **{key: bad})))
        for name, kv in cases:
            for form in ("single", "only", "second"):
                k += 1
                todo.append(lambda j=(k, name, kv, form): refuse(*j))
    for name, kv in [("store type", {"StoreType": "CE", **base_kv}), ("store type", {"StoreType": "ec", **base_kv}), ("store type", {"StoreType": "", **base_kv}), ("store type", {"StoreType": "E", **base_kv}),
                     ("marked point", dict(base_kv, WithMarkedPoint="perhaps")), ("marked point", dict(base_kv, WithMarkedPoint="7"))]:
        k += 1
        todo.append(lambda j=(k, name + str(kv), kv, "single"): refuse(*j))
    for name, t in [("a list", {"- Prime": "3"}), ("nothing", {})]:
        k += 1
        todo.append(lambda j=(k, name, t, "single"): refuse(*j))
    parallel(todo)
    c.finish()


main(main_)
