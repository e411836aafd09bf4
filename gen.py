"""Writes the type definitions of C15 (and C08) for one run: Rust source under build/gen-<ID>."""
import os, random


def put(c, pid, name, text):
    d = os.path.join(c.B, "gen-" + pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    if not os.path.exists(p) or open(p).read() != text:
        open(p + ".tmp", "w").write(text)
        os.replace(p + ".tmp", p)


BODIES = ["u8", "u16", "Vec<u8>", "bool", "[u8; 3]", "Vec<u16>", "Option<u8>", "Fix2", "Inner", "Empty", "BitList<U9>", "BitVector<U5>", "Var2"]


def c15(c, pid):
    rnd = random.Random(int(c.SEED))
    fixed = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 126, 127, 128]
    more = rnd.sample([n for n in range(1, 129) if n not in fixed], 3)
    counts = list(range(1, 129)) if c.THOROUGH else sorted(fixed + more)
    out = []
    for n in counts:
        perm = [(i * 37 + 11) % 128 for i in range(n)]
        at = rnd.randrange(len(BODIES))
        vs = ", ".join("V%d(%s) = %d" % (perm[i], BODIES[(at + i) % len(BODIES)], i) for i in range(n))
        out.append("un!(U%dV { %s });" % (n, vs))
    out.append("gens! { %s }" % " ".join("U%dV;" % n for n in counts))
    put(c, pid, "unions.rs", "\n".join(out) + "\n")
    return {"coverage": {"union_variant_counts": counts}}


# ------------------------------------------------------------------------------------------------ C08
class Ty:
    """Rust type text, lower bound on the encoded length, fixed-size?, a value expression for skipped uses"""

    def __init__(self, rust, low, fixed, gen=None, words=None):
        self.rust, self.low, self.fixed, self.gen = rust, low, fixed, gen
        # offset words a decoder has to look at in a minimal encoding
        self.words = words if words is not None else 0 if fixed else 2 if "Vec<Vec" in rust or "," in rust else 1


FIXED = [Ty("u8", 1, True), Ty("u16", 2, True), Ty("u32", 4, True), Ty("bool", 1, True), Ty("[u8; 3]", 3, True), Ty("BitVector<U5>", 1, True), Ty("(u8, u16)", 3, True), Ty("[u8; 1]", 1, True)]
VAR = [Ty("Vec<u8>", 0, False), Ty("Vec<u16>", 0, False), Ty("Option<u8>", 1, False), Ty("Vec<Vec<u8>>", 0, False), Ty("BitList<U9>", 1, False),
       Ty("(u8, Vec<u8>)", 5, False), Ty("Bytes", 0, False), Ty("Option<Vec<u8>>", 1, False)]
# custom field codecs of c08.rs: (module, rust type, schema, view, make, low, fixed)
WITH = [
    ("rev2", "u16", "S::U(2)", "Val::u(&{}.to_be_bytes())", "u16::sym(d)", 2, True),
    ("rev3", "[u8; 3]", "S::U(3)", "Val::B({}.iter().rev().copied().collect())", "<[u8; 3]>::sym(d)", 3, True),
    ("two", "Vec<u8>", "S::U(2)", "Val::B({}.clone())", "sx::bytes(2)", 2, True),
    ("revv", "Vec<u8>", "S::Bytes", "Val::B({}.iter().rev().copied().collect())", "<Vec<u8>>::sym(d)", 0, False),
    ("vu16", "u16", "S::Union(vec![Some(S::U(2))])", "Val::Un(0, Some(Box::new({}.val())))", "u16::sym(d)", 3, False),
    ("leg_u16", "Option<u16>", "S::Legacy(Box::new(S::U(2)))", "{}.val()", "<Option<u16>>::sym(d)", 4, False),
    ("leg_vec", "Option<Vec<u16>>", "S::Legacy(Box::new(<Vec<u16>>::schema()))", "{}.val()", "<Option<Vec<u16>>>::sym(d)", 4, False),
]
NAMES = ["bytes", "len", "buf", "item", "offset", "slice", "start", "end", "i", "encoder", "decoder", "builder", "r#type", "var", "other", "selector", "body",
         "inner", "result", "value", "x", "s", "fixed_len", "index", "a", "b", "c", "name", "r#match", "_u", "__z", "length", "field", "name2", "items", "offsets", "ssz"]
SKIPTY = [("Plain", "Plain(9)"), ("Vec<u8>", "vec![1, 2]"), ("u64", "77"), ("Option<u8>", "Some(3)"), ("bool", "true"), ("std::marker::PhantomData<Plain>", "std::marker::PhantomData")]


class C08:
    def __init__(self, rnd):
        self.r = rnd
        self.out = []
        self.table = []  # (type text, byte lengths, list bound)
        self.nest_f, self.nest_v = [], []
        self.n = 0

    def leaf(self, fixed):
        r = self.r
        nest = self.nest_f if fixed else self.nest_v
        if nest and r.random() < 0.25:
            return r.choice(nest)
        return r.choice(FIXED if fixed else VAR)

    def field(self, k):
        """one field: dict(attr, ty, skip_e, skip_d, es, ev, sym, low, fixed)"""
        r = self.r
        f = dict(opts=[], se=False, sd=False, gen=False, nested=False)
        if k == "s":
            t, v = r.choice(SKIPTY)
            f.update(ty=t, sym=v, se=True, sd=True, es=None, ev=None, low=0, fixed=True, words=0)
        elif k in "FVed" or k in "ED":
            fixed = {"F": True, "V": False}.get(k, r.random() < 0.5)
            t = self.leaf(fixed)
            while k in "ed" and t.gen:
                t = self.leaf(fixed)
            if k == "d" and t.rust == "BitVector<U5>":
                t = FIXED[0]
            if k == "d" and t.rust == "BitList<U9>":
                t = VAR[0]
            f.update(ty=t.rust, sym="<%s>::sym(d)" % t.rust, es="<%s as M>::schema()" % t.rust, ev="{}.val()", low=t.low, fixed=t.fixed, words=t.words, nested=bool(t.gen))
        else:
            m, ty, es, ev, mk, low, fx = r.choice([w for w in WITH if w[6] == (k == "w")])
            f.update(ty=ty, sym=mk, es=es, ev=ev, low=low, fixed=fx, words=0 if fx else 1)
            f["opts"].append('with = "%s"' % m)
        if k == "e":
            f["se"] = True
        if k == "d":
            f["sd"] = True
        if f["se"]:
            f["opts"].append("skip_serializing")
        if f["sd"]:
            f["opts"].append("skip_deserializing")
        r.shuffle(f["opts"])
        return f

    def pick(self, p):
        return [self.field(k) for k in p]

    def lengths(self, low, fixed, nvar):
        if fixed:
            ls = {0, low - 1, low, low + 1}
        else:
            more = {0: 5, 1: 5, 2: 5, 3: 2, 4: 0}.get(nvar, -1)
            ls = {0, low - 1 if nvar < 5 else 3} | {low + i for i in range(more + 1) if i != 4}
        return sorted(x for x in ls if x >= 0)

    def emit(self, name, inst, deftext, es, ds, ev, dv, blank, make, low, fixed, nvar, sym_ok):
        """name: head of the type, inst: the instantiated type"""
        self.out.append(deftext)
        self.out.append("impl D for %s {\n    fn es() -> S { %s }\n    fn ds() -> S { %s }\n    fn ev(&self) -> Val { %s }\n    fn dv(&self) -> Val { %s }\n    fn blank(&self) -> bool { %s }\n    #[allow(unused_variables)]\n    fn make(d: usize) -> Self { %s }\n}"
                        % (inst, es, ds, ev, dv, blank, make))
        d = 3 if nvar <= 1 else 2 if nvar <= 3 else 1
        self.table.append((inst, self.lengths(low, fixed, nvar), d))
        if sym_ok:
            self.out.append("symmetric!(%s);" % inst)
            if low <= 9 and nvar <= 2:
                (self.nest_f if fixed else self.nest_v).append(Ty(inst, low, fixed, gen=True, words=nvar + (not fixed)))

    def generics(self, fs):
        """replace some field types by parameters; returns (params, where, args)"""
        r = self.r
        live = [f for f in fs if not f["opts"]]
        if not live or r.random() > 0.35:
            return "", "", ""
        pick = r.sample(live, min(len(live), r.choice([1, 1, 2])))
        ps, ws, args = [], [], []
        for j, f in enumerate(pick):
            if f["ty"] == "[u8; 3]" and "const" not in "".join(ps):
                ps.append("const N: usize")
                args.append("3")
                f["dty"] = "[u8; N]"
                continue
            q = "TU"[j]
            bound = r.choice(["ssz::Encode + ssz::Decode", "Encode + Decode", "Both"])
            if r.random() < 0.5:
                ps.append("%s: %s" % (q, bound))
            else:
                ps.append(q)
                ws.append("%s: %s" % (q, bound))
            args.append(f["ty"])
            f["dty"] = q if r.random() < 0.7 or f["fixed"] else q
        # (const parameters last)
        order = sorted(range(len(ps)), key=lambda i: ps[i].startswith("const"))
        return "<%s>" % ", ".join(ps[i] for i in order), (" where " + ", ".join(ws)) if ws else "", "<%s>" % ", ".join(args[i] for i in order)

    @staticmethod
    def attr(f):
        return "    #[ssz(%s)]\n" % ", ".join(f["opts"]) if f["opts"] else ""

    def parts(self, fs, acc):
        e = [(f, a) for f, a in zip(fs, acc) if not f["se"]]
        d = [(f, a) for f, a in zip(fs, acc) if not f["sd"]]
        blank = " && ".join(["true"] + ["dflt(&self.%s)" % a for f, a in zip(fs, acc) if f["sd"]] + ["self.%s.blank()" % a for f, a in zip(fs, acc) if f["nested"] and not f["sd"]])
        return e, d, blank

    def container(self, p):
        r = self.r
        self.n += 1
        name = "C%d" % self.n
        fs = self.pick(p)
        names = r.sample(NAMES, len(fs)) if r.random() < 0.6 else ["f%d" % i for i in range(len(fs))]
        gp, wh, ga = self.generics(fs)
        e, d, blank = self.parts(fs, names)
        t = "#[derive(Encode, Decode, PartialEq)]\n"
        if r.random() < 0.3:
            t += '#[ssz(struct_behaviour = "container")]\n'
        t += "pub struct %s%s%s {\n" % (name, gp, wh)
        for f, n in zip(fs, names):
            if r.random() < 0.15:
                t += "    /// a comment\n"
            t += self.attr(f) + "    pub %s: %s,\n" % (n, f.get("dty", f["ty"]))
        t += "}"
        sch = lambda l: "S::Cont(vec![%s])" % ", ".join(f["es"] for f, _ in l)
        val = lambda l: "Val::L(vec![%s])" % ", ".join(f["ev"].format("self." + a) for f, a in l)
        make = "%s { %s }" % (name, ", ".join("%s: %s" % (n, f["sym"]) for f, n in zip(fs, names)))
        fixed = all(f["fixed"] for f, _ in d)
        low = sum(f["low"] + (0 if f["fixed"] else 4) for f, _ in d)
        nvar = sum(f["words"] for f, _ in d)
        self.emit(name, name + ga, t, sch(e), sch(d), val(e), val(d), blank, make, low, fixed, nvar, not any(f["se"] != f["sd"] for f in fs) and len(d) > 0)

    def transparent(self, p, tup):
        r = self.r
        self.n += 1
        name = "W%d" % self.n
        fs = self.pick(p)
        acc = [str(i) for i in range(len(fs))] if tup else r.sample(NAMES, len(fs))
        gp, wh, ga = self.generics(fs)
        e, d, blank = self.parts(fs, acc)
        assert len(e) == 1 and len(d) == 1, p
        t = '#[derive(Encode, Decode, PartialEq)]\n#[ssz(struct_behaviour = "transparent")]\n'
        if tup:
            t += "pub struct %s%s(\n%s)%s;" % (name, gp, "".join(self.attr(f) + "    pub %s,\n" % f.get("dty", f["ty"]) for f in fs), wh)
            make = "%s(%s)" % (name, ", ".join(f["sym"] for f in fs))
        else:
            t += "pub struct %s%s%s {\n%s}" % (name, gp, wh, "".join(self.attr(f) + "    pub %s: %s,\n" % (n, f.get("dty", f["ty"])) for f, n in zip(fs, acc)))
            make = "%s { %s }" % (name, ", ".join("%s: %s" % (n, f["sym"]) for f, n in zip(fs, acc)))
        f, g = e[0], d[0]
        self.emit(name, name + ga, t, f[0]["es"], g[0]["es"], f[0]["ev"].format("self." + f[1]), g[0]["ev"].format("self." + g[1]), blank, make, g[0]["low"], g[0]["fixed"], g[0]["words"],
                  not any(f["se"] != f["sd"] for f in fs))

    def enum(self, n, kind):
        """kind: union | transparent"""
        r = self.r
        self.n += 1
        name = ("U%d" if kind == "union" else "P%d") % self.n
        ts = [self.leaf(r.random() < 0.4 if kind == "union" else False) for _ in range(n)]
        fs = [dict(ty=t.rust, opts=[], fixed=t.fixed) for t in ts]
        gp, wh, ga = self.generics(fs)
        vs = ["V%d" % (97 * i % 101) for i in range(n)]
        t = '#[derive(Encode, Decode, PartialEq)]\n#[ssz(enum_behaviour = "%s")]\npub enum %s%s%s {\n%s}' % (kind, name, gp, wh, "".join("    %s(%s),\n" % (v, f.get("dty", f["ty"])) for v, f in zip(vs, fs)))
        sc = ["<%s as M>::schema()" % f["ty"] for f in fs]
        es = "S::Union(vec![%s])" % ", ".join("Some(%s)" % s for s in sc) if kind == "union" else "S::First(vec![%s])" % ", ".join(sc)
        ev = "match self { %s }" % ", ".join("%s::%s(x) => Val::Un(%d, Some(Box::new(x.val())))" % (name, v, i) for i, v in enumerate(vs))
        make = "match sx::choose(%d) { %s, _ => unreachable!() }" % (n, ", ".join("%d => %s::%s(<%s>::sym(d))" % (i, name, v, f["ty"]) for i, (v, f) in enumerate(zip(vs, fs))))
        low = min(t.low for t in ts) + (kind == "union")
        self.emit(name, name + ga, t, es, es, ev, ev, "true", make, low, False, max(t.words for t in ts), True)

    def tag(self, n, disc):
        self.n += 1
        name = "T%d" % self.n
        vs = ["V%d" % (97 * i % 131) for i in range(n)]
        ds = self.r.sample(range(200), n)
        t = '#[derive(Encode, Decode, PartialEq)]\n#[ssz(enum_behaviour = "tag")]\n%spub enum %s {\n%s}' % ("#[repr(u8)]\n" if disc else "", name, "".join("    %s%s,\n" % (v, " = %d" % x if disc else "") for v, x in zip(vs, ds)))
        ev = "match self { %s }" % ", ".join("%s::%s => Val::B(vec![%d])" % (name, v, i) for i, v in enumerate(vs))
        make = "match sx::choose(%d) { %s, _ => unreachable!() }" % (n, ", ".join("%d => %s::%s" % (i, name, v) for i, v in enumerate(vs)))
        self.emit(name, name, t, "S::Tag(%d)" % n, "S::Tag(%d)" % n, ev, ev, "true", make, 1, True, 0, n <= 8)


PATTERNS = ["", "F", "V", "s", "ss", "FV", "VF", "VsV", "FsF", "sVFs", "VVV", "VsVsV", "wF", "Fw", "xV", "Vx", "FxF", "Vw", "wV", "wsx", "xsx", "xx", "ww", "sw", "xs", "sF", "Fs", "sV", "Vs",
            "eF", "dF", "Fe", "Fd", "eV", "dV", "Ve", "Vd", "FeV", "VdF", "VeV", "VdV", "edFV", "VFde", "FFe", "dFF", "VVs", "wFxV", "xFwV",
            "FFFFFFFFFFFF", "VFVFVFVF", "FFFFFFFFFFFV", "VFFFFFFFFFFF", "FVFwFxFsF", "VVVVVV"]
TRANS = ["F", "V", "sF", "Fs", "sV", "Vs", "ssVss", "w", "x", "sw", "ws", "sx", "xs", "ed", "de", "sed", "esd", "des"]


def c08_defs(seed, thorough):
    g = C08(random.Random(seed * 7919 + 8))
    r = g.r
    for i, n in enumerate([1, 2, 3, 5, 127, 128]):
        g.tag(n, i % 2 == 1)
    for p in PATTERNS:
        g.container(p)
    for p in TRANS:
        g.transparent(p, False)
        g.transparent(p, True)
    for n in (1, 2, 3, 4, 6):
        g.enum(n, "union")
        g.enum(n, "transparent")
    for _ in range(250 if thorough else 90):
        k = r.random()
        if k < 0.6:
            g.container("".join(r.choice("FFVVVsedwx") for _ in range(r.randrange(1, 8))))
        elif k < 0.75:
            p = ["s"] * r.randrange(0, 3) + [r.choice("FVwx")]
            r.shuffle(p)
            g.transparent("".join(p), r.random() < 0.5)
        else:
            g.enum(r.randrange(1, 6), r.choice(["union", "transparent"]))
    return g


def c08(c, pid):
    g = c08_defs(int(c.SEED), c.THOROUGH)
    t = "\n".join(g.out) + "\ndefs! {\n" + "".join("    %s, [%s], %d;\n" % (n, ", ".join(map(str, ls)), d) for n, ls, d in g.table) + "}\n"
    put(c, pid, "defs.rs", t)
    bad, cov = probes(c, pid, c08_probes())
    return {"violations": bad, "coverage": {"definitions": len(g.table), "compile_probes": cov}}


def c08_probes():
    """(label, Rust source, whether it must compile)"""
    out = []
    many = lambda n, f: ", ".join("V%d%s" % (i, f) for i in range(n))
    for d in ("Encode", "Decode"):
        drv = "#[derive(ssz_derive::%s)] " % d
        en = lambda b, body: drv + '#[ssz(enum_behaviour = "%s")] pub enum E { %s }' % (b, body)
        st = lambda body: drv + '#[ssz(struct_behaviour = "transparent")] pub struct X%s' % body
        skip = "#[ssz(skip_serializing, skip_deserializing)] "
        for n in (0, 129, 130, 200, 255, 256, 257, 300):
            out.append(("%s of a union with %d variants" % (d, n), en("union", many(n, "(u8)")), False))
            out.append(("%s of a tag enum with %d variants" % (d, n), en("tag", many(n, "")), False))
        for n in (1, 2, 127, 128):
            out.append(("%s of a union with %d variants" % (d, n), en("union", many(n, "(u8)")), True))
            out.append(("%s of a tag enum with %d variants" % (d, n), en("tag", many(n, "")), True))
        out.append(("%s of an enum without a behaviour" % d, drv + "pub enum E { A(u8), B(u16) }", False))
        out.append(("%s of a field-less enum without a behaviour" % d, drv + "pub enum E { A, B }", False))
        out.append(("%s of an enum with an unknown behaviour" % d, en("container", "A(u8), B(u16)"), False))
        out.append(("%s of a union variant without a field" % d, en("union", "A(u8), B"), False))
        out.append(("%s of a union variant with two fields" % d, en("union", "A(u8), B(u8, u8)"), False))
        out.append(("%s of a transparent enum variant without a field" % d, en("transparent", "A(Vec<u8>), B"), False))
        out.append(("%s of a transparent enum variant with two fields" % d, en("transparent", "A(Vec<u8>), B(Vec<u8>, Vec<u8>)"), False))
        out.append(("%s of a tag enum variant with a field" % d, en("tag", "A, B(u8)"), False))
        for body in (" {}", "();", ";", " { a: u8, b: u8 }", "(u8, u8);", "(u8, Vec<u8>, u8);", "(%su8);" % skip, " { %sa: u8, %sb: u8 }" % (skip, skip), " { a: u8, %sb: u8, c: u8 }" % skip):
            out.append(("%s of the transparent struct X%s" % (d, body), st(body), False))
        for body in ("(u8);", " { a: Vec<u8> }", "(%su8, u16);" % skip, " { a: u8, %sb: u16 }" % skip):
            out.append(("%s of the transparent struct X%s" % (d, body), st(body), True))
        # the skip of the other direction does not count
        mine, other = ("skip_serializing", "skip_deserializing") if d == "Encode" else ("skip_deserializing", "skip_serializing")
        out.append(("%s of a transparent struct with two live fields, one skipped in the other direction" % d, st("(#[ssz(%s)] u8, u16);" % other), False))
        out.append(("%s of a transparent struct with one live field, also skipped in the other direction" % d, st("(#[ssz(%s)] u8, #[ssz(%s)] u16);" % (mine, other)), True))
        out.append(("%s of a container without fields" % d, drv + "pub struct X {}", True))
        out.append(("%s of a container whose fields are all skipped" % d, drv + "pub struct X { %sa: u8 }" % skip, True))
    return out


def probes(c, pid, ps):
    """compile-time verdicts of the derive macros (exit status of rustc)"""
    import json
    from concurrent.futures import ThreadPoolExecutor
    e = c.env_base()
    e["RUSTFLAGS"] = ""
    with c.Lock("native"):
        r = c.subprocess.run(["cargo", "build", "--offline", "--message-format=json", "-p", "ethereum_ssz", "-p", "ethereum_ssz_derive", "--target-dir", os.path.join(c.B, "native")],
                             env=e, cwd=c.HARNESS, stdout=c.subprocess.PIPE, stderr=c.subprocess.PIPE, text=True)
    ext = {}
    for line in r.stdout.split("\n"):
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact" and j["target"]["name"] in ("ssz", "ssz_derive"):
            ext[j["target"]["name"]] = [f for f in j["filenames"] if f.endswith((".rlib", ".so"))][0]
    if len(ext) != 2:
        raise c.Failed("the crates do not build:\n" + r.stderr[-3000:])
    d = os.path.join(c.B, "probe-" + pid)
    os.makedirs(d, exist_ok=True)

    def one(a):
        i, (label, src, want) = a
        f = os.path.join(d, "p%d.rs" % i)
        open(f, "w").write("#![allow(dead_code)]\n" + src + "\n")
        o = c.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p%d" % i, "--emit", "metadata", "--out-dir", d, "--extern", "ssz=" + ext["ssz"],
                   "--extern", "ssz_derive=" + ext["ssz_derive"], "-L", "dependency=" + os.path.join(c.B, "native", "debug", "deps"), f], env=e, timeout=120)
        return label, want, o.returncode == 0, o.stdout

    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, enumerate(ps)))
    if not any(ok for _, want, ok, _ in rs if want):
        raise c.Failed("no probe compiles:\n" + [o for _, want, ok, o in rs if want][0][-2000:])
    bad = ["%s is %s at compile time" % (l, "accepted" if ok else "rejected") for l, want, ok, _ in rs if want != ok]
    return bad, {"accepted": sum(ok for _, _, ok, _ in rs), "rejected": sum(not ok for _, _, ok, _ in rs)}
