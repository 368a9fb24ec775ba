# P31 and P32: the Python bindings agree with the library.  Generated descriptions
# (JSON) are turned into calls of the bindings; the oracle is a reference
# printer/precedence table for expressions, the arguments given, and the C
# library itself called through an independent set of prototypes.
import os, sys, json, time, random, struct, hashlib, subprocess, tempfile, math, traceback, collections, gc

ASAN = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
V = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TIER = os.environ.get("VERIF_TIER", "quick")
NW = 8
PROP = os.environ.get("VERIF_PYPROP", "P31")
OF = {"P31": ["expression", "values"], "P32": ["parameter", "distribution", "interval", "space", "tuner", "tree", "misc"]}
BUDGET = {"quick": int(os.environ.get("VERIF_P31_S", "60")), "thorough": 600}[TIER]       # seconds of search per worker
BATCH = 80                                           # examples per generator run
RULE = ("a description of an expression with its parameters, a value, an object with its arguments, or a history of "
        "calls is generated and carried out through the bindings; non-trivial: an expression with at least two "
        "operators, at least two values, or a call that reached the library with generated arguments and was compared")

class Fail(Exception):
    pass

def need(c, msg):
    if not c:
        raise Fail(msg)

# ----------------------------------------------------------------- worker side
def worker_main(idx, seed, out, replay=None):
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ["VERIF_PYREPO"])
    sys.path.append("/opt/ccs-venv/lib/python3.12/site-packages")
    global ct, ccs, PContext, lib
    import ctypes as ct
    import cconfigspace as ccs
    from parglare.parser import Context as PContext
    lib = ct.CDLL(os.environ["LIBCCONFIGSPACE_SO_"])
    g = globals()
    define_raw(g)
    rec = Rec()
    if replay is not None:
        rec.begin(replay["kind"], replay["desc"])
        kept = live()
        KINDS[replay["kind"]][1](replay["desc"], rec)
        leftover(kept)
        return
    import warnings
    warnings.simplefilter("ignore")
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    t0 = time.time()
    batch = gerr = 0
    base = [None]
    gc.collect(); gc.freeze()
    cur = os.open(out + ".cur", os.O_RDWR | os.O_CREAT, 0o600)
    while time.time() - t0 < BUDGET:
        ks = [(k, v) for k, v in kinds().items() if k in OF[PROP]]
        for kind, (strat, chk, w) in ks[idx % len(ks):] + ks[:idx % len(ks)]:
            if time.time() - t0 >= BUDGET and batch:
                break
            def run(desc):
                txt = json.dumps({"kind": kind, "desc": desc}).encode()
                os.pwrite(cur, struct.pack("<I", len(txt)) + txt, 0)
                rec.begin(kind, desc)
                try:
                    kept = live() if base[0] is None else base[0]
                    base[0] = None
                    chk(desc, rec)
                    base[0] = leftover(kept)
                except Exception as e:
                    rec.fail = dict(kind=kind, desc=desc, why="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
                    raise
                rec.end()
            f = hseed(seed * 1000003 + idx * 10007 + batch)(settings(
                max_examples=max(5, int(BATCH * w)), database=None, deadline=None, report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)(given(strat)(run)))
            try:
                f()
            except BaseException as e:
                if rec.fail is None and gerr < 20 and not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    gerr += 1; batch += 1; continue # the generator gave up on a batch
                if rec.fail is None:
                    rec.broken = "%s: %s" % (kind, traceback.format_exc()[-2000:])
                rec.dump(out)
                return
            batch += 1
    rec.dump(out)

# What the library holds once the wrappers of a case are gone.
def live():
    # the parser holds on to its last parse; have it hold the same one each time
    from cconfigspace.expression_parser import parser
    parser.parse("1", context=PContext(extra=None))
    gc.collect()
    lib.ccs_clear_thread_error()
    return lib.vf_live()

def leftover(kept):
    n = live()
    need(n <= kept, "the library still holds %d blocks of memory once every wrapper is gone" % (n - kept))
    return n

class Rec:
    def __init__(s):
        s.n = s.nt = 0; s.labels = collections.Counter(); s.seen = set(); s.samples = []; s.fail = None; s.broken = None
    def begin(s, kind, desc):
        s.kind = kind; s.desc = desc; s.isnt = False; s.l = set([kind])
    def label(s, l): s.l.add(l)
    def nontrivial(s, c=True): s.isnt = s.isnt or bool(c)
    def end(s):
        s.n += 1
        for l in s.l: s.labels[l] += 1
        if s.isnt:
            s.nt += 1
            h = hashlib.blake2b(json.dumps([s.kind, s.desc]).encode(), digest_size=8).hexdigest()
            if h not in s.seen:
                s.seen.add(h)
                if s.labels[s.kind] % 97 == 5 and len(s.samples) < 12:
                    s.samples.append("%s %s" % (s.kind, json.dumps(s.desc)[:1200]))
    def dump(s, out):
        json.dump(dict(n=s.n, nt=s.nt, labels=s.labels, seen=sorted(s.seen), samples=s.samples, fail=s.fail, broken=s.broken), open(out, "w"))

# --------------------------------------------------------------- values
def dec(v):
    k = v[0]
    if k == "n": return None
    if k == "b": return bool(v[1])
    if k == "i": return v[1]
    if k == "f": return float.fromhex(v[1]) if v[1] not in ("nan",) else float("nan")
    if k == "s": return v[1]
    if k == "x": return ccs.inactive
    raise Fail("bad description")

def enc(v):
    if v is None: return ["n"]
    if isinstance(v, bool): return ["b", int(v)]
    if isinstance(v, int): return ["i", v]
    if isinstance(v, float): return ["f", "nan" if math.isnan(v) else v.hex()]
    if isinstance(v, str): return ["s", v]
    if v is ccs.inactive: return ["x"]
    return ["o", type(v).__name__, v.handle.value]

def same(a, b): return enc(a) == enc(b)

def outcome(f):
    try:
        return ("value", f())
    except ccs.Error as e:
        return ("error", e._code.value)

# ------------------------------------------------- independent prototypes
def define_raw(g):
    class RD(ct.Structure):
        _fields_ = [("v", ct.c_uint64), ("t", ct.c_int32), ("fl", ct.c_uint32)]
    class RI(ct.Structure):
        _fields_ = [("t", ct.c_int32), ("pad", ct.c_int32), ("lo", ct.c_uint64), ("up", ct.c_uint64), ("li", ct.c_int32), ("ui", ct.c_int32)]
    g["RD"] = RD; g["RI"] = RI

def P(h): return ct.c_void_p(h.value if hasattr(h, "value") else h)
def H(o): return P(o.handle)
def Z(n): return ct.c_size_t(n)

def rdec(d):
    if d.t == 0: return None
    if d.t == 1: return struct.unpack("<q", struct.pack("<Q", d.v))[0]
    if d.t == 2: return struct.unpack("<d", struct.pack("<Q", d.v))[0]
    if d.t == 3: return bool(d.v & 0xffffffff)
    if d.t == 4: return ct.string_at(d.v).decode()
    if d.t == 5: return ccs.inactive
    raise Fail("unexpected value type %d" % d.t)

def rnum(t, u): return struct.unpack("<q" if t == 1 else "<d", struct.pack("<Q", u))[0]

def rok(name, *a):
    f = getattr(lib, name); f.restype = ct.c_int32
    r = f(*a)
    need(r >= 0, "%s gave %d" % (name, r))
    return r

def rfail(name, *a):
    f = getattr(lib, name); f.restype = ct.c_int32
    r = f(*a)
    if r < 0: lib.ccs_clear_thread_error()
    return r

def rvalues(name, h, pre=()):
    n = ct.c_size_t(0)
    rok(name, h, *pre, Z(0), None, ct.byref(n))
    a = (RD * max(1, n.value))()
    if n.value: rok(name, h, *pre, n, a, None)
    return [rdec(a[i]) for i in range(n.value)]

def rrc(o):
    r = ct.c_int32(0); rok("ccs_object_get_refcount", H(o), ct.byref(r)); return r.value

# ------------------------------------------------------------- expressions
PREC = {"||": 0, "&&": 1, "==": 2, "!=": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5,
        "u+": 6, "u-": 6, "u!": 6, "#": 7}
BIN = [k for k, v in PREC.items() if v <= 5]
CLS = {"||": "Or", "&&": "And", "==": "Equal", "!=": "NotEqual", "<": "Less", ">": "Greater", "<=": "LessOrEqual",
       ">=": "GreaterOrEqual", "+": "Add", "-": "Substract", "*": "Multiply", "/": "Divide", "%": "Modulo",
       "u+": "Positive", "u-": "Negative", "u!": "Not", "#": "In"}
TYPES = ["||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "u+", "u-", "u!", "#", "list", "lit", "var"]

def neg(v):
    x = dec(v)
    return v[0] in "if" and math.copysign(1, x) < 0

def ltext(v, r):
    k = v[0]; x = dec(v)
    if k == "n": return "none"
    if k == "b": return "true" if x else "false"
    if k == "i":
        return ("-" if x < 0 else "") + "0" * r.choice([0, 0, 0, 2]) + str(abs(x))
    if k == "f":
        c = r.randrange(4)
        if c == 0: return "%.17e" % x
        if c == 1: return ("%.17E" % x).replace("E+", "E")
        s = repr(x)
        return s
    q = r.choice("\"'")
    o = ""
    for c in x:
        o += {"\\": "\\\\", "\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f", q: "\\" + q}.get(c, c)
    return q + o + q

def ws(r):
    return r.choice(["", "", " ", " ", "  ", "\n", "\t "])

def text(n, names, r, minp=0):
    k = n[0]
    if k == "lit": t, p = ltext(n[1], r), 6 if neg(n[1]) else 9
    elif k == "var": t, p = names[n[1]], 9
    elif k == "#":
        t = text(n[1], names, r, 7) + ws(r) + "#" + ws(r) + "[" + ws(r) + (ws(r) + "," + ws(r)).join(names[x[1]] if x[0] == "var" else ltext(x[1], r) for x in n[2]) + ws(r) + "]"
        p = 7
    elif k in ("u+", "u-", "u!"):
        t, p = k[1] + ws(r) + text(n[1], names, r, 6), 6
    else:
        p = PREC[k]
        # a space where two word characters would otherwise run together
        t = text(n[1], names, r, p) + ws(r) + k + ws(r) + text(n[2], names, r, p + 1)
    if p < minp or r.randrange(8) == 0:
        t = "(" + ws(r) + t + ws(r) + ")"
    return t

def norm(n):
    k = n[0]
    if k == "lit":
        if neg(n[1]):
            return ["u-", ["lit", enc(-dec(n[1]))]]
        return n
    if k == "var": return n
    if k == "#": return ["#", norm(n[1]), [norm(x) for x in n[2]]]
    return [k] + [norm(x) for x in n[1:]]

def nops(n):
    if n[0] in ("lit", "var"): return 0
    if n[0] == "#": return 1 + nops(n[1])
    return 1 + sum(nops(x) for x in n[1:])

def vars_of(n, s):
    if n[0] == "var": s.add(n[1])
    elif n[0] == "#":
        vars_of(n[1], s)
        for x in n[2]: vars_of(x, s)
    elif n[0] != "lit":
        for x in n[1:]: vars_of(x, s)
    return s

def build(n, params, r):
    k = n[0]; E = ccs.Expression
    def operand(x):
        if x[0] == "lit" and r.randrange(2): return dec(x[1])
        return build(x, params, r)
    if k == "lit": return E.Literal(value=dec(n[1]))
    if k == "var": return E.Variable(parameter=params[n[1]])
    if k == "#": return E.In(left=operand(n[1]), right=E.List(values=[operand(x) for x in n[2]]))
    if k[0] == "u": return getattr(E, CLS[k])(node=operand(n[1]))
    return getattr(E, CLS[k])(left=operand(n[1]), right=operand(n[2]))

def shape(e, names):
    t = TYPES[e.type]
    rt = ct.c_int32(-1); rok("ccs_expression_get_type", H(e), ct.byref(rt))
    need(rt.value == e.type, "type of an expression")
    if t == "lit":
        need(isinstance(e, ccs.Expression.Literal), "class of a literal")
        return ["lit", enc(e.value)]
    if t == "var":
        need(isinstance(e, ccs.Expression.Variable), "class of a variable")
        return ["var", names.index(e.parameter.name)]
    ns = e.nodes
    need(len(ns) == e.num_nodes, "num_nodes")
    if t == "list": return [shape(x, names) for x in ns]
    need(isinstance(e, getattr(ccs.Expression, CLS[t])), "class of %s is %s" % (t, type(e).__name__))
    return [t] + [shape(x, names) for x in ns]

def mkspace(d, cls, name="space"):
    s = cls(name=name)
    ps = [ccs.CategoricalParameter(name=p["name"], values=[dec(v) for v in p["vals"]]) for p in d]
    s.add_parameters(ps)
    return s, ps

def chk_expr(d, rec):
    names = [p["name"] for p in d["params"]]
    n = d["tree"]
    r = random.Random(d["style"])
    cs, ps = mkspace(d["params"], ccs.ConfigurationSpace)
    rec.nontrivial(nops(n) >= 2)
    t = text(n, names, r)
    b = build(n, ps, r)
    want = norm(n)
    def parse(x):
        try:
            return ccs.parser.parse(x, context=PContext(extra=cs))
        except ccs.Error:
            raise
        except Exception as e:
            raise Fail("cannot parse %r: %s" % (x, str(e).splitlines()[0] if str(e) else type(e).__name__))
    p = parse(t)
    got = norm(shape(p, names))
    need(got == want, "%r is parsed as %s, expected %s" % (t, got, want))
    need(norm(shape(b, names)) == want, "node by node: %s" % shape(b, names))
    s = str(b)
    q = parse(s)
    got = norm(shape(q, names))
    need(got == want, "printed as %r which is parsed as %s, expected %s" % (s, got, want))
    vs = [dec(p_["vals"][p_["at"] % len(p_["vals"])]) for p_ in d["params"]]
    used = vars_of(n, set())
    kw = dict(context=cs, values=vs) if vs else {}
    o = []
    if n[0] != "list":
        for x in (p, b, q):
            o.append(outcome(lambda: enc(x.eval(**kw))))
        need(o[0] == o[1] == o[2], "evaluates to %s parsed, %s built, %s printed and parsed" % tuple(o))
        # the library itself
        res = RD()
        arr = (RD * max(1, len(vs)))()
        keep = []
        for i, x in enumerate(vs): arr[i] = rmk(x, keep)
        rr = rfail("ccs_expression_eval", H(b), H(cs) if vs else None, arr if vs else None, ct.byref(res))
        raw = ("error", rr) if rr < 0 else ("value", enc(rdec(res)))
        need(raw == o[1], "eval gives %s, the library %s" % (o[1], raw))
        rec.label("evaluation failed" if o[0][0] == "error" else "evaluated")
    need(sorted(names.index(x.name) for x in b.parameters) == sorted(used), "parameters of the expression")
    need(all(x in ps for x in b.parameters), "parameter objects of the expression")
    b.check_context(cs)
    if used:
        rec.label("with variables")
        o2 = outcome(lambda: b.check_context(ccs.ConfigurationSpace(name="other")))
        need(o2 == ("error", ccs.Result.ERROR_INVALID_PARAMETER), "check_context of a foreign context: %s" % (o2,))
    if n[0] == "#":
        l = b.nodes[1]
        for i, x in enumerate(n[2]):
            w = dec(x[1]) if x[0] == "lit" else vs[x[1]]
            need(same(l.eval(i, **kw), w), "list element %d" % i)
        rec.label("list")
    # text and object give the same result as clause, condition and objective
    use = d["use"] % 4
    if use == 1 and vs:
        c2 = ccs.ConfigurationSpace(name="two"); c2.add_parameters(ps)
        a1 = outcome(lambda: cs.add_forbidden_clause(t)); a2 = outcome(lambda: c2.add_forbidden_clauses([b]))
        need(a1 == a2, "forbidden clause: text %s object %s" % (a1, a2))
        need([norm(shape(x, names)) for x in cs.forbidden_clauses] == [norm(shape(x, names)) for x in c2.forbidden_clauses] ==
             ([want] if a1[0] == "value" else []), "forbidden clauses")
        need(cs.num_forbidden_clauses == len(c2.forbidden_clauses), "number of clauses")
        if a1[0] == "value":
            need(norm(shape(cs.forbidden_clause(0), names)) == want, "forbidden_clause(0)")
            rec.label("clause")
    if use == 2 and vs:
        free = [i for i in range(len(ps)) if i not in used]
        if free:
            i = free[0]
            c2 = ccs.ConfigurationSpace(name="two"); c2.add_parameters(ps)
            a1 = outcome(lambda: cs.set_condition(names[i], t)); a2 = outcome(lambda: c2.set_condition(ps[i], b))
            need(a1 == a2, "condition: text %s object %s" % (a1, a2))
            for c in (cs, c2):
                for k, x in enumerate(c.conditions):
                    need((x is not None) == (k == i and a1[0] == "value"), "conditions")
                x = c.condition(i)
                need((norm(shape(x, names)) if x is not None else None) == (want if a1[0] == "value" else None), "condition")
                need([x.name for x in c.conditional_parameters] == ([names[i]] if a1[0] == "value" else []), "conditional parameters")
                need([x.name for x in c.unconditional_parameters] == [names[k] for k in range(len(ps)) if k != i or a1[0] != "value"], "unconditional parameters")
            rec.label("condition")
    if use == 3 and vs:
        os_, ps2 = mkspace(d["params"], ccs.ObjectiveSpace)
        ty = d["style"] & 1
        os_.add_objective(t, ty)
        os_.add_objectives([build(n, ps2, r)], types=[1 - ty])
        need(os_.num_objective == 2, "number of objectives")
        need([(norm(shape(e, names)), x) for e, x in os_.objectives] == [(want, ty), (want, 1 - ty)], "objectives")
        e, x = os_.get_objective(1)
        need(norm(shape(e, names)) == want and x == 1 - ty, "get_objective")
        rec.label("objective")

def rmk(x, keep):
    d = RD()
    if x is None: d.t = 0
    elif isinstance(x, bool): d.t = 3; d.v = int(x)
    elif isinstance(x, int): d.t = 1; d.v = x & (2**64 - 1)
    elif isinstance(x, float): d.t = 2; d.v = struct.unpack("<Q", struct.pack("<d", x))[0]
    elif isinstance(x, str):
        b = ct.create_string_buffer(x.encode()); keep.append(b)
        d.t = 4; d.v = ct.addressof(b); d.fl = 1
    elif x is ccs.inactive: d.t = 5
    return d

# ------------------------------------------------------------------ values
def chk_value(d, rec):
    vs = [dec(v) for v in d["vals"]]
    rec.nontrivial(len(vs) >= 2)
    for v in vs:
        x = ccs.Datum(v)
        need(same(x.value, v), "Datum(%r).value is %r" % (v, x.value))
        r = RD.from_buffer_copy(bytes(x))
        need(same(rdec(r), v), "the library would see %r for %r" % (rdec(r), v))
        if v is not ccs.inactive:
            o = outcome(lambda: ccs.Expression.Literal(value=v))
            if o[0] == "value":
                need(same(o[1].value, v), "literal %r" % (v,))
                need(same(o[1].eval(), v), "eval of literal %r" % (v,))
        if v is ccs.inactive: continue
        t = ccs.Tree(arity=2, value=v)
        need(same(t.value, v), "tree value %r" % (v,))
        need(same(t.values[0], v), "tree values %r" % (v,))
        rd = RD(); rok("ccs_tree_get_value", H(t), ct.byref(rd))
        need(same(rdec(rd), v), "tree value in the library %r" % (v,))
    # a map against a dictionary
    m = ccs.Map(); ref = {}
    for op in d["ops"]:
        k = dec(d["vals"][op[1] % len(vs)]); kk = json.dumps(d["vals"][op[1] % len(vs)])
        v = dec(d["vals"][op[2] % len(vs)])
        if op[0] % 3 < 2:
            m[k] = v; ref[kk] = v
        else:
            o = outcome(lambda: m.__delitem__(k))
            need(o == (("value", None) if kk in ref else ("error", ccs.Result.ERROR_INVALID_VALUE)), "del gives %s" % (o,))
            ref.pop(kk, None)
        need(len(m) == len(ref), "length of the map")
        for v0 in d["vals"]:
            kk = json.dumps(v0)
            need(m.has_key(dec(v0)) is (kk in ref), "has_key(%r) is %r" % (v0, m.has_key(dec(v0))))
            need(same(m[dec(v0)], ref.get(kk)), "map[%r]" % (v0,))
    ks = [json.dumps(enc(k)) for k in m.keys()]
    need(sorted(ks) == sorted(ref), "keys %s, expected %s" % (ks, list(ref)))
    for k, v in zip(ks, m.values()): need(same(ref[k], v), "values of the map")
    if d["ops"]:
        m2 = ccs.Object.deserialize(buffer=m.serialize())
        need(isinstance(m2, ccs.Map) and len(m2) == len(ref), "a map read back")
        for v0 in d["vals"]: need(same(m2[dec(v0)], m[dec(v0)]), "map read back at %r" % (v0,))
        rec.label("map")
    # object values
    o1 = ccs.Rng(); rc = rrc(o1)
    m[1] = o1
    need(type(m[1]) is ccs.Rng and m[1].handle.value == o1.handle.value, "object in a map")
    need(rrc(o1) == rc + 1, "references of an object in a map")
    del m[1]
    need(rrc(o1) == rc, "references of an object taken out of a map")

# -------------------------------------------------------------- parameters
def uniq(vs):
    o, s = [], set()
    for v in vs:
        k = json.dumps(v)
        if v[0] == "b": k = json.dumps(["i-b", v[1]])
        if k not in s and v[0] != "x" and v != ["f", "nan"]: s.add(k); o.append(v)
    return o

def num(k, lo, up, q, df):
    if k == "i":
        return ccs.IntNumericalParameter, dict(lower=lo, upper=up, quantization=q, default=df)
    return ccs.FloatNumericalParameter, dict(lower=lo, upper=up, quantization=q, default=df)

def mkparam(d):
    k = d["k"]
    if k in ("i", "f"):
        cls, kw = num(k, dec(d["lo"]), dec(d["up"]), dec(d["q"]), dec(d["df"]))
        return cls(name=d["name"], **kw)
    if k == "s": return ccs.StringParameter(name=d["name"])
    vs = [dec(v) for v in uniq(d["vals"])]
    if k == "d": vs = sorted(set(float(v) if d["fl"] else int(v) for v in vs if isinstance(v, (int, float)) and not isinstance(v, bool)
                                 and (abs(v) < 2**52)))
    cls = {"c": ccs.CategoricalParameter, "o": ccs.OrdinalParameter, "d": ccs.DiscreteParameter}[k]
    return cls(name=d["name"], values=vs, default_index=d["di"] % max(1, len(vs)))

def same_param(p, q):
    need(type(p) is type(q), "%s became %s" % (type(p).__name__, type(q).__name__))
    need(p.name == q.name and p.type == q.type, "name or type changed")
    need(same(p.default_value, q.default_value), "default changed")
    if p.type == ccs.ParameterType.NUMERICAL:
        need([enc(x) for x in (p.lower, p.upper, p.quantization)] == [enc(x) for x in (q.lower, q.upper, q.quantization)] and p.data_type == q.data_type, "bounds changed")
    elif p.type != ccs.ParameterType.STRING:
        need([enc(x) for x in p.values] == [enc(x) for x in q.values], "values changed")

def chk_param(d, rec):
    k = d["k"]
    o = outcome(lambda: mkparam(d))
    if o[0] == "error":
        rec.label("parameter refused")
        need(o[1] in (ccs.Result.ERROR_INVALID_VALUE, ccs.Result.ERROR_INVALID_TYPE, ccs.Result.ERROR_INVALID_NAME), "error %d" % o[1])
        return
    p = o[1]
    rec.nontrivial(); rec.label("parameter " + k)
    need(p.name == d["name"], "name %r" % p.name)
    nm = ct.c_char_p(); rok("ccs_parameter_get_name", H(p), ct.byref(nm)); need(nm.value.decode() == d["name"], "name in the library")
    ty = ct.c_int32(); rok("ccs_parameter_get_type", H(p), ct.byref(ty)); need(ty.value == p.type, "type")
    rd = RD(); rok("ccs_parameter_get_default_value", H(p), ct.byref(rd)); need(same(rdec(rd), p.default_value), "default %r" % (p.default_value,))
    probe = [dec(v) for v in d["probe"]]
    if k in ("i", "f"):
        need(same(p.lower, dec(d["lo"])) and same(p.upper, dec(d["up"])) and same(p.quantization, dec(d["q"])) and same(p.default_value, dec(d["df"])), "bounds, quantization or default")
        probe += [p.lower, p.upper, p.default_value]
    elif k != "s":
        raw = rvalues({"c": "ccs_categorical_parameter_get_values", "o": "ccs_ordinal_parameter_get_values", "d": "ccs_discrete_parameter_get_values"}[k], H(p))
        need([enc(x) for x in raw] == [enc(x) for x in p.values], "values")
        if k != "d": need([enc(x) for x in p.values] == uniq(d["vals"]), "values %s" % (p.values,))
        need(same(p.default_value, p.values[d["di"] % len(p.values)]), "default")
        probe += p.values
        if k == "o":
            vs = p.values
            for i in range(min(4, len(vs))):
                for j in range(min(4, len(vs))):
                    c = p.compare(vs[i], vs[j])
                    need((c > 0) - (c < 0) == (i > j) - (i < j), "compare(%r, %r) is %d" % (vs[i], vs[j], c))
    keep = []
    exp = []
    for v in probe:
        b = ct.c_int32(7); a = rmk(v, keep)
        rok("ccs_parameter_check_value", H(p), a, ct.byref(b))
        exp.append(b.value != 0)
        need(p.check_value(v) is exp[-1], "check_value(%r)" % (v,))
    need(p.check_values(probe) == exp, "check_values")
    if k != "s":
        dd = p.default_distribution
        r1 = ccs.Rng(); r2 = ccs.Rng(); r1.seed = d["seed"]; r2.seed = d["seed"]
        n = 3
        a = (RD * n)(); rok("ccs_parameter_samples", H(p), H(dd), H(r2), Z(n), a)
        need([enc(x) for x in p.samples(n, distribution=dd, rng=r1)] == [enc(rdec(x)) for x in a], "samples")
        x = RD(); rok("ccs_parameter_sample", H(p), H(dd), H(r2), ct.byref(x))
        need(same(p.sample(distribution=dd, rng=r1), rdec(x)), "sample")
    same_param(p, ccs.Object.from_handle(p.handle))
    same_param(p, ccs.Object.deserialize(buffer=p.serialize()))
    need(p == ccs.Parameter.from_handle(p.handle), "a parameter equals itself")

# ------------------------------------------------------------ distributions
def mkdist(d):
    k = d["k"]
    sc = ccs.ScaleType.LOGARITHMIC if d.get("log") else ccs.ScaleType.LINEAR
    if k == "ui": return ccs.UniformIntDistribution(lower=dec(d["lo"]), upper=dec(d["up"]), scale=sc, quantization=dec(d["q"]))
    if k == "uf": return ccs.UniformFloatDistribution(lower=dec(d["lo"]), upper=dec(d["up"]), scale=sc, quantization=dec(d["q"]))
    if k == "ni": return ccs.NormalIntDistribution(mu=dec(d["mu"]), sigma=dec(d["sg"]), scale=sc, quantization=dec(d["q"]))
    if k == "nf": return ccs.NormalFloatDistribution(mu=dec(d["mu"]), sigma=dec(d["sg"]), scale=sc, quantization=dec(d["q"]))
    if k == "r": return ccs.RouletteDistribution(areas=d["areas"])
    subs = [mkdist(x) for x in d["subs"]]
    if k == "mix": return ccs.MixtureDistribution(distributions=subs, weights=d["areas"][:len(subs)] if d["w"] else None)
    return ccs.MultivariateDistribution(distributions=subs)

def chk_dist(d, rec):
    o = outcome(lambda: mkdist(d))
    if o[0] == "error":
        rec.label("distribution refused"); return
    rec.nontrivial(); rec.label("distribution " + d["k"])
    same_dist(o[1], d, rec)
    q = ccs.Object.from_handle(o[1].handle)
    need(type(q) is type(o[1]), "class from a handle")
    same_dist(q, d, rec)
    q = ccs.Object.deserialize(buffer=o[1].serialize())
    need(type(q) is type(o[1]), "class read back")
    same_dist(q, d, rec, copied=True)

def close(a, b): return len(a) == len(b) and all(abs(x - y) <= 1e-9 for x, y in zip(a, b))

def same_dist(x, d, rec, copied=False):
    k = d["k"]
    if k in ("ui", "uf"):
        need(same(x.lower, dec(d["lo"])) and same(x.upper, dec(d["up"])) and same(x.quantization, dec(d["q"])), "bounds")
        need(x.scale_type == (1 if d.get("log") else 0) == x.scale, "scale")
    elif k in ("ni", "nf"):
        need(same(x.mu, dec(d["mu"])) and same(x.sigma, dec(d["sg"])) and same(x.quantization, dec(d["q"])), "normal properties")
        need(x.scale_type == (1 if d.get("log") else 0), "scale")
    elif k == "r":
        s = sum(d["areas"]); need(x.num_areas == len(d["areas"]), "number of areas"); need(close(x.areas, [a / s for a in d["areas"]]), "areas")
    else:
        need(x.num_distributions == len(d["subs"]) == len(x.distributions), "number of distributions")
        if k == "mix":
            w = d["areas"][:len(d["subs"])] if d["w"] else [1.0] * len(d["subs"])
            need(close(x.weights, [a / sum(w) for a in w]), "weights %s" % x.weights)
        for y, e in zip(x.distributions, d["subs"]): same_dist(y, e, rec)
    n = ct.c_size_t(); rok("ccs_distribution_get_dimension", H(x), ct.byref(n))
    need(x.dimension == n.value, "dimension")
    t = (ct.c_int32 * n.value)(); rok("ccs_distribution_get_data_types", H(x), t)
    need(list(t) == x.data_types, "data types")
    b = (RI * n.value)(); rok("ccs_distribution_get_bounds", H(x), b)
    py = x.bounds
    py = [py] if isinstance(py, ccs.Interval) else list(py)
    need(len(py) == n.value, "bounds of %d dimensions: %d" % (n.value, len(py)))
    for i in range(n.value): same_interval(py[i], b[i])
    ivs = (RI * n.value)(); over = (ct.c_int32 * n.value)()
    for i in range(n.value): ivs[i] = b[i]; ivs[i].li = 1; ivs[i].ui = 1
    rok("ccs_distribution_check_oversampling", H(x), ivs, over)
    e = [bool(z) for z in over]; got = x.is_oversampling(toiv(ivs[0]) if n.value == 1 else [toiv(z) for z in ivs])
    need(got == (e[0] if n.value == 1 else e), "is_oversampling %s, the library %s" % (got, e))
    if ok_to_sample(d):
        r1 = ccs.Rng(); r2 = ccs.Rng(); r1.seed = 5; r2.seed = 5
        c = 3
        a = (ct.c_uint64 * (n.value * c))(); rok("ccs_distribution_samples", H(x), H(r2), Z(c), a)
        got = x.samples(r1, c)
        need(len(got) == c, "number of samples")
        exp = [[rnum(t[i], a[j * n.value + i]) for i in range(n.value)] for j in range(c)]
        if n.value == 1: exp = [e[0] for e in exp]
        need(json.dumps(got) == json.dumps(exp), "samples %s, the library %s" % (got, exp))
        a = (ct.c_uint64 * n.value)(); rok("ccs_distribution_sample", H(x), H(r2), a)
        exp = [rnum(t[i], a[i]) for i in range(n.value)]
        got = x.sample(r1)
        need(json.dumps(got) == json.dumps(exp[0] if n.value == 1 else exp), "sample %s, the library %s" % (got, exp))

def ok_to_sample(d):
    if d["k"] in ("ni", "nf"):
        return abs(dec(d["mu"])) < 20 and 0.1 < dec(d["sg"]) < 20 and dec(d["q"]) < 5
    return all(ok_to_sample(x) for x in d.get("subs", []))

def toiv(r): return ccs.Interval(t=r.t, lower=rnum(r.t, r.lo), upper=rnum(r.t, r.up), lower_included=bool(r.li), upper_included=bool(r.ui))

def same_interval(i, r):
    need(i.type == r.t and same(i.lower, rnum(r.t, r.lo)) and same(i.upper, rnum(r.t, r.up)) and
         i.lower_included is bool(r.li) and i.upper_included is bool(r.ui), "interval %s" % i)

def chk_interval(d, rec):
    rec.nontrivial()
    def mk(e):
        t = 1 if d["int"] else 2
        lo, up = (int(e[0]), int(e[1])) if d["int"] else (float(e[0]) / 4, float(e[1]) / 4)
        iv = ccs.Interval(t=t, lower=lo, upper=up, lower_included=e[2], upper_included=e[3])
        r = RI(); r.t = t; r.lo = rmk(lo, []).v; r.up = rmk(up, []).v; r.li = e[2]; r.ui = e[3]
        same_interval(iv, r)
        return iv, r, lo, up
    a, ra, lo, up = mk(d["a"]); b, rb, lo2, up2 = mk(d["b"])
    x = ct.c_int32()
    for i, r in ((a, ra), (b, rb)):
        rok("ccs_interval_empty", ct.byref(r), ct.byref(x)); need(i.empty is bool(x.value), "empty")
        for v in d["at"]:
            v = int(v) if d["int"] else v / 4
            need(i.include(v) is bool(lib.ccs_interval_include(ct.byref(r), ct.c_int64(struct.unpack("<q", struct.pack("<Q", rmk(v, []).v))[0]))), "include %r in %s" % (v, i))
            need(i.contains(v) is i.include(v), "contains")
    rok("ccs_interval_equal", ct.byref(ra), ct.byref(rb), ct.byref(x)); need((a == b) is bool(x.value), "equality")
    z = RI(); rok("ccs_interval_intersect", ct.byref(ra), ct.byref(rb), ct.byref(z))
    same_interval(a.intersect(b), z)
    # setters
    a.lower = lo2; a.upper = up2; a.lower_included = d["b"][2]; a.upper_included = d["b"][3]
    same_interval(a, rb)
    need(str(b) == ("[" if d["b"][2] else "(") + "{}, {}".format(lo2, up2) + ("]" if d["b"][3] else ")"), "text of an interval")

# ----------------------------------------------------------------- spaces
def chk_space(d, rec):
    ps = []
    for e in d["params"]:
        o = outcome(lambda: mkparam(e))
        if o[0] == "value" and not any(q.name == o[1].name for q in ps): ps.append(o[1])
    which = d["which"]
    if which == 0: ps = [p for p in ps if p.type != ccs.ParameterType.STRING]
    if not ps: rec.label("no parameters"); return
    rec.nontrivial(); rec.label(["configuration space", "features space", "objective space"][which])
    base = [rrc(p) for p in ps]
    s = [ccs.ConfigurationSpace, ccs.FeaturesSpace, ccs.ObjectiveSpace][which](name=d["name"])
    if d["one"]:
        for p in ps: s.add_parameter(p)
    else: s.add_parameters(ps)
    o = outcome(lambda: s.add_parameter(ps[0])); need(o == ("error", ccs.Result.ERROR_INVALID_PARAMETER), "adding a parameter twice: %s" % (o,))
    need(s.name == d["name"] and s.num_parameters == len(ps), "name or number of parameters")
    need(s.parameters == ps, "parameters")
    for i, p in enumerate(ps):
        need(s.parameter(i) == p and s.parameter_by_name(p.name) == p and s.parameter_index(p) == i and s.parameter_index_by_name(p.name) == i, "lookup of a parameter")
        for v in [dec(x) for x in d["probe"]] + [p.default_value]:
            keep = []; out = RD()
            rr = rfail("ccs_context_validate_value", H(s), Z(i), rmk(v, keep), ct.byref(out))
            exp = ("error", rr) if rr < 0 else ("value", enc(rdec(out)))
            for key in (i, p, p.name):
                got = outcome(lambda: enc(s.validate_value(key, v)))
                need(got == exp, "validate_value(%r, %r) gives %s, the library %s" % (key if key is not p else "parameter", v, got, exp))
    o = outcome(lambda: s.parameter_by_name("no such name")); need(o == ("error", ccs.Result.ERROR_INVALID_NAME), "unknown name: %s" % (o,))
    o = outcome(lambda: s.parameter(len(ps))); need(o[0] == "error", "parameter out of range")
    # values of a binding
    def pick(seed):
        r = random.Random(seed); out = []
        for p in ps:
            if p.type == ccs.ParameterType.NUMERICAL: out.append(r.choice([p.lower, p.default_value]))
            elif p.type == ccs.ParameterType.STRING: out.append(r.choice(["", "a", "b\u00e9", "longer string"]))
            else: out.append(r.choice(p.values))
        return out
    vals, vals2 = pick(d["style"]), pick(d["style"] + 1)
    if which == 0:
        mk = lambda v: ccs.Configuration(configuration_space=s, values=v)
    elif which == 1:
        mk = lambda v: ccs.Features(features_space=s, values=v)
    else:
        cs0 = ccs.ConfigurationSpace(name="c"); cs0.add_parameter(ccs.IntNumericalParameter(name="i", lower=0, upper=9))
        cf0 = cs0.default_configuration
        mk = lambda v: ccs.Evaluation(objective_space=s, configuration=cf0, values=v, result=d["res"])
        r = random.Random(d["style"]); pr = [(r.randrange(len(ps)), r.randrange(2)) for _ in range(r.randrange(7))]
        ex = [ccs.Expression.Variable(parameter=ps[k]) for k, _ in pr]
        if d["one"]:
            for e, (_, ty) in zip(ex, pr): s.add_objective(e, ty)
        elif r.randrange(2): s.add_objectives(ex, types=[ty for _, ty in pr])
        else: s.add_objectives({e: ty for e, (_, ty) in zip(ex, pr)})
        ob = s.objectives
        need(s.num_objective == len(pr) and [(e.handle.value, ty) for e, ty in ob] == [(e.handle.value, ty) for e, (_, ty) in zip(ex, pr)], "objectives %s, given %s" % ([x[1] for x in ob], [x[1] for x in pr]))
        for k in range(len(pr)): need([x.value if hasattr(x, "value") else x for x in (s.get_objective(k)[0].handle, s.get_objective(k)[1])] == [ex[k].handle.value, pr[k][1]], "get_objective")
        e = None; del ex, ob
    b = mk(vals)
    if which == 2:
        need(b.num_objective_values == len(pr) and [enc(x) for x in b.objective_values] == [enc(vals[k]) for k, _ in pr], "objective values %s" % (b.objective_values,))
    def same_binding(b, vals, sp=None, ps=ps):
        need(b.num_values == len(vals), "number of values")
        raw = rvalues("ccs_binding_get_values", H(b))
        need([enc(x) for x in raw] == [enc(x) for x in vals], "values in the library %s, given %s" % (raw, vals))
        need([enc(x) for x in b.values] == [enc(x) for x in vals], "values")
        for i, p in enumerate(ps):
            need(same(b.value(i), vals[i]) and same(b.value(p.name), vals[i]), "value of %s" % p.name)
            if sp is None: need(same(b.value(p), vals[i]), "value by parameter")
        need({k: enc(v) for k, v in b.asdict().items()} == {p.name: enc(v) for p, v in zip(ps, vals)}, "asdict")
        h = ct.c_uint32(); rok("ccs_binding_hash", H(b), ct.byref(h)); need(b.hash == h.value, "hash")
        need(hash(b) == hash(h.value), "__hash__")
        c = b.context
        need(type(c) is type(s), "context is a %s" % type(c).__name__)
        if sp is None: need(c.handle.value == s.handle.value, "context")
        return h.value
    same_binding(b, vals)
    if which == 0: need(b.configuration_space.handle.value == s.handle.value, "configuration_space")
    if which == 1:
        need(b.features_space.handle.value == s.handle.value and type(b.features_space) is ccs.FeaturesSpace, "features_space")
    if which == 2:
        need(b.objective_space.handle.value == s.handle.value and b.configuration == cf0 and b.result == d["res"], "evaluation accessors")
    x = ct.c_int32()
    rok({0: "ccs_configuration_check", 1: "ccs_features_check", 2: "ccs_evaluation_check"}[which], H(b), ct.byref(x))
    need(b.check() is bool(x.value), "check")
    if which == 0: need(s.check(b) is bool(x.value) and s.check_values(vals) is bool(x.value), "check of the space")
    if which == 1: need(s.check(b) is bool(x.value) and s.check_values(vals) is bool(x.value), "check of the space")
    if which == 2: need(s.check_values(vals) is bool(x.value), "check of the space")
    c = mk(vals2)
    if which == 2:
        x = ct.c_int32(); y = rfail("ccs_evaluation_compare", H(b), H(c), ct.byref(x))
        got = outcome(lambda: b.compare(c)); need(got == (("error", y) if y < 0 else ("value", x.value)), "compare gives %s, the library %d %d" % (got, y, x.value))
    rok("ccs_binding_cmp", H(b), H(c), ct.byref(x)); y = x.value
    need((b.cmp(c) > 0) == (y > 0) and (b.cmp(c) < 0) == (y < 0), "cmp")
    need([b < c, b <= c, b > c, b >= c, b == c, b != c] == [y < 0, y <= 0, y > 0, y >= 0, y == 0, y != 0], "comparison operators")
    # setting values
    b.set_values(vals2); same_binding(b, vals2)
    need(b == c and b.hash == c.hash, "equal values, equal bindings")
    for i, p in enumerate(ps):
        b.set_value([i, p, p.name][(d["style"] + i) % 3], vals[i])
    same_binding(b, vals)
    o = outcome(lambda: b.set_value(len(ps), vals[0])); need(o[0] == "error", "setting a value out of range")
    o = outcome(lambda: b.set_value("no such name", vals[0])); need(o == ("error", ccs.Result.ERROR_INVALID_NAME), "setting an unknown name: %s" % (o,))
    same_binding(b, vals)
    # the inactive value is a value
    vals3 = list(vals); vals3[d["style"] % len(ps)] = ccs.inactive
    b.set_values(vals3); same_binding(b, vals3); b.set_values(vals); same_binding(b, vals)
    # a wrapper keeps its object alive, also when it is the second holder only
    lone = type(s)(name="lone"); lone.add_parameter(ccs.IntNumericalParameter(name="p", lower=0, upper=9))
    q = lone.parameter(0) if d["style"] % 2 else lone.parameters[0]
    need(rrc(q) == 2, "%d references to a parameter held by a space and a wrapper" % rrc(q))
    del lone
    need(rrc(q) == 1 and q.name == "p" and q.upper == 9, "a wrapper keeps its object alive")
    del q
    lone = ccs.Map(); lone["k"] = ccs.Rng()
    q = lone["k"]
    need(type(q) is ccs.Rng and rrc(q) == 2, "%d references to an object held by a map and a wrapper" % rrc(q))
    del lone
    need(rrc(q) == 1, "a wrapper keeps the object of a map alive"); q.seed = 5; q.get()
    del q
    # copies
    if which == 2: b.result = d["res"] ^ 3
    hm = ccs.Map()
    s2 = ccs.Object.deserialize(buffer=s.serialize(), handle_map=hm)
    need(type(s2) is type(s) and s2.name == s.name and s2.num_parameters == len(ps), "the space read back is a %s" % type(s2).__name__)
    for p, q in zip(ps, s2.parameters): same_param(p, q)
    if which != 2:
        b2 = ccs.Object.deserialize(buffer=b.serialize(), handle_map=hm)
        need(type(b2) is type(b), "the binding read back is a %s" % type(b2).__name__)
        same_binding(b2, vals, sp=s2, ps=s2.parameters)
        del b2
    if which == 0:
        s.rng = rng = ccs.Rng(); need(s.rng.handle.value == rng.handle.value, "rng")
        rng.seed = d["style"]
        xs = s.samples(3) + [s.sample()]
        need(len(xs) == 4 and all(type(v) is ccs.Configuration for v in xs), "samples")
        for v in xs: same_binding(v, rvalues("ccs_binding_get_values", H(v)))
        for v in xs: need(v.check() and v.refcount == 1, "a sample is valid and owned once")
        same_binding(s.default_configuration, [p.default_value for p in ps])
        for i, p in enumerate(ps):
            h = ct.c_void_p(); k = ct.c_size_t(); rok("ccs_configuration_space_get_parameter_distribution", H(s), Z(i), ct.byref(h), ct.byref(k))
            for key in (i, p, p.name):
                dd, j = s.get_parameter_distribution(key)
                need(dd.handle.value == h.value and j == k.value, "parameter distribution")
        nums = [p for p in ps if p.type == ccs.ParameterType.NUMERICAL]
        if len(nums) >= 2:
            dm = ccs.MultivariateDistribution(distributions=[p.default_distribution for p in nums[:2][::-1]])
            s.set_distribution(dm, [nums[1], nums[0].name])
            for j, p in enumerate([nums[1], nums[0]]):
                dd, jj = s.get_parameter_distribution(p)
                need(dd.handle.value == dm.handle.value and jj == j, "set_distribution")
            rec.label("joint distribution")
            del dm, dd
        del xs, rng, v
    if which == 1:
        cs0 = ccs.ConfigurationSpace(name="c"); cs0.add_parameter(ccs.IntNumericalParameter(name="i", lower=0, upper=9))
        os0 = ccs.ObjectiveSpace(name="o"); os0.add_parameter(ccs.FloatNumericalParameter(name="x", lower=0.0, upper=9.0)); os0.add_objective("x")
        ev = ccs.FeaturesEvaluation(objective_space=os0, configuration=cs0.default_configuration, features=b, result=d["res"], values=[2.5])
        need(ev.features == b and type(ev.features) is ccs.Features and ev.configuration == cs0.default_configuration and ev.result == d["res"], "features evaluation")
        need(ev.objective_space.handle.value == os0.handle.value and ev.objective_values == [2.5] and ev.num_objective_values == 1 and ev.check() is True, "features evaluation values")
        ev2 = ccs.FeaturesEvaluation(objective_space=os0, configuration=cs0.default_configuration, features=b, values=[1.5])
        ev.result = 0
        need(ev.compare(ev2) == ccs.Comparison.WORSE and ev2.compare(ev) == ccs.Comparison.BETTER and ev.compare(ev) == ccs.Comparison.EQUIVALENT, "comparison of features evaluations")
        del ev, ev2
    if which == 2: del cs0, cf0, mk
    del b, c, s2, hm
    mk = None; same_binding = None
    del s
    import gc
    need([rrc(p) for p in ps] == base, "references left behind: %s, before %s" % ([rrc(p) for p in ps], base)) if d["style"] % 16 == 0 and not gc.collect() < 0 else None

# ------------------------------------------------------------------ tuners
class Boom(Exception): pass

def chk_tuner(d, rec):
    kind = d["kind"]
    rec.label(["tuner", "features tuner", "tree tuner"][kind]); rec.nontrivial(len(d["ops"]) >= 2)
    os_ = ccs.ObjectiveSpace(name="o"); px = ccs.FloatNumericalParameter(name="x", lower=-10.0, upper=10.0); os_.add_parameter(px); os_.add_objective("x")
    fe = []
    if kind == 2:
        tr = ccs.Tree(arity=2, value=1)
        for i in range(2): tr.set_child(i, ccs.Tree(arity=0, value=10 + i))
        sp = ccs.StaticTreeSpace(name="t", tree=tr)
    else:
        sp = ccs.ConfigurationSpace(name="c"); sp.add_parameters([ccs.IntNumericalParameter(name="i", lower=0, upper=50), ccs.CategoricalParameter(name="k", values=["a", "b", None, 2.5])])
    fs = None
    if kind == 1:
        fs = ccs.FeaturesSpace(name="f"); fs.add_parameter(ccs.CategoricalParameter(name="q", values=[1, 2]))
        fe = [ccs.Features(features_space=fs, values=[1]), ccs.Features(features_space=fs, values=[2])]
    log = []; script = {"fail": None}
    data = d["data"]
    st = {"history": [], "opt": []}
    def trip(w):
        log.append(w)
        f = script["fail"]
        if f is not None and f[0] == w:
            script["fail"] = None
            if f[1] == 0: raise Boom("went %d%% wrong \u00e9 %s" % (f[2], w))
            raise ccs.Error(ccs.Result(-f[1]))
    def feat(a): return a[0] if kind == 1 else None
    def sel(l, f): return [e for e in l if f is None or e.features == f]
    def t_del(t): log.append("delete")
    def t_ask(t, *a):
        need(t.handle.value == tun.handle.value and t.name == d["name"], "the tuner handed to a callback")
        trip("ask"); n = a[-1]
        if n is None: return (None, 1)
        n = max(0, n - script.get("short", 0))
        return ([sp.sample() for _ in range(n)], n)
    def t_tell(t, es):
        trip("tell"); st["history"] += es
        st["opt"] = st["history"][::2][::-1]
    def t_opt(t, *a): trip("get_optima"); return sel(st["opt"], feat(a))
    def t_hist(t, *a): trip("get_history"); return sel(st["history"], feat(a))
    def t_sug(t, *a): trip("suggest"); return st["opt"][0].configuration if st["opt"] else sp.sample()
    def t_ser(t, size):
        trip("serialize"); return ct.create_string_buffer(("state %d" % len(st["history"])).encode())
    got = {}
    def t_deser(t, h, o, state):
        got.update(h=h, o=o, state=ct.cast(state, ct.c_char_p).value if state is not None else None)
        trip("deserialize")
    cb = dict(delete=t_del, ask=t_ask, tell=t_tell, get_optima=t_opt, get_history=t_hist, suggest=t_sug if d["sug"] else None, serialize=t_ser, deserialize=t_deser)
    user = d["user"]
    pre = "ccs_tuner ccs_features_tuner ccs_tree_tuner".split()[kind]
    sk = dict(configuration_space=sp) if kind != 2 else dict(tree_space=sp)
    if kind == 1: sk["features_space"] = fs
    U = [ccs.UserDefinedTuner, ccs.UserDefinedFeaturesTuner, ccs.UserDefinedTreeTuner][kind]
    R = [ccs.RandomTuner, ccs.RandomFeaturesTuner, ccs.RandomTreeTuner][kind]
    tun = U(name=d["name"], objective_space=os_, tuner_data=data, **sk, **cb) if user else R(name=d["name"], objective_space=os_, **sk)
    need(tun.name == d["name"] and tun.objective_space.handle.value == os_.handle.value, "tuner accessors")
    need((tun.tree_space if kind == 2 else tun.configuration_space).handle.value == sp.handle.value, "space of the tuner")
    if kind == 1: need(tun.features_space.handle.value == fs.handle.value and type(tun.features_space) is ccs.FeaturesSpace, "features space")
    if user: need(tun.tuner_data is data, "tuner data")
    CF = ccs.TreeConfiguration if kind == 2 else ccs.Configuration
    EV = [ccs.Evaluation, ccs.FeaturesEvaluation, ccs.TreeEvaluation][kind]
    def again(o):
        q = ccs.Object.from_handle(o.handle); need(type(q) is type(o) and q.handle.value == o.handle.value, "class from a handle"); return q
    again(tun)
    def F(i): return [fe[i % 2]] if kind == 1 else []
    def hist(i=None): return tun.history(*([] if i is None else F(i))) if kind == 1 else tun.history
    def optima(i=None): return tun.optima(*([] if i is None else F(i))) if kind == 1 else tun.optima
    told = []
    def count(): return tun.history_size() if kind == 1 else tun.history_size
    for op in d["ops"]:
        k, i, fl = op[0], op[1], op[2]
        if user and fl[0]:
            w = ["ask", "tell", "get_optima", "get_history", "suggest", "serialize"][k]
            if k != 4 or d["sug"]: script["fail"] = [w, fl[1], i]
        armed = script["fail"]
        n0 = len(told)
        def go():
            if k == 0:
                cs = tun.ask(*F(i), i % 4 + 1)
                need(len(cs) == i % 4 + 1 and all(type(c) is CF for c in cs), "ask gave %d" % len(cs))
                for c in cs: need(c.refcount == 1 and c.check(), "an asked configuration is valid and owned once")
                n = i % 4 + 2; script["short"] = sh = i % 3 if user else 0
                a = (ct.c_void_p * n)(*[1] * n); c = ct.c_size_t(77)
                rok(pre + "_ask", H(tun), *[H(x) for x in F(i)], Z(n), a, ct.byref(c))
                script["short"] = 0
                need(c.value == n - sh and all(x not in (None, 1) for x in a[:n - sh]) and all(x is None for x in a[n - sh:]), "%d of %d asked from the library: %d %s" % (n - sh, n, c.value, list(a)))
                for x in a[:n - sh]: rok("ccs_release_object", P(x))
            elif k == 1:
                cs = [sp.sample() for _ in range(i % 3 + 1)]
                es = [EV(objective_space=os_, configuration=c, values=[float((i * 7 + j) % 10)], **({"features": F(i + j)[0]} if kind == 1 else {})) for j, c in enumerate(cs)]
                tun.tell(es); told.extend(es)
            elif k == 2:
                o = optima(); need(all(type(e) is EV for e in o), "optima")
                for fi in ([None] if kind != 1 else [None, 0, 1]):
                    o = optima(fi); need(len(o) == (tun.num_optima if kind != 1 else tun.num_optima(*([] if fi is None else F(fi)))), "num_optima"); sub = [e for e in told if fi is None or e.features == fe[fi]]
                    if user: need([e.handle.value for e in o] == [e.handle.value for e in sel(st["opt"], None if fi is None else fe[fi])], "optima")
                    else:
                        gr = {}
                        for e in sub: gr.setdefault(e.features.values[0] if kind == 1 else 0, []).append(e.objective_values[0])
                        need(sorted(set((e.features.values[0] if kind == 1 else 0, e.objective_values[0]) for e in o)) == sorted((g, min(l)) for g, l in gr.items()), "optima %s" % [e.objective_values for e in o])
            elif k == 3:
                h = hist(); need([e.handle.value for e in h] == [e.handle.value for e in told], "history"); need(count() == len(told), "history size")
                if kind == 1: need([e.handle.value for e in hist(i)] == [e.handle.value for e in told if e.features == F(i)[0]], "history of features")
            elif k == 4:
                c = tun.suggest(*F(i)) if kind == 1 else tun.suggest
                need(type(c) is CF and c.check(), "suggestion")
            elif k == 5:
                buf = tun.serialize()
                if user and not armed:
                    got.clear()
                    n1 = len(log)
                    t2 = U.deserialize(tuner_data=data, buffer=buf, **cb)
                    need(type(t2) is U and t2.name == d["name"], "tuner read back")
                    need(got["state"] == b"state %d" % len(told), "state read back %r" % (got["state"],))
                    need([enc(e.objective_values[0]) for e in got["h"]] == [enc(e.objective_values[0]) for e in told] and all(type(e) is EV for e in got["h"]), "history read back")
                    need([e.handle.value for e in got["o"]] == [e.handle.value for e in got["h"][::2][::-1]], "optima read back")
                    need(t2.tuner_data is data, "data of the tuner read back: %r, given %r" % (t2.tuner_data, data))
                    n2 = log.count("delete"); got.clear(); del t2
                    need(log.count("delete") == n2 + 1, "the copy's delete callback")
                    rec.label("read back")
                elif not user:
                    t2 = ccs.Object.deserialize(buffer=buf)
                    need(type(t2) is R and (t2.history_size() if kind == 1 else t2.history_size) == len(told), "tuner read back")
        try:
            go()
            need(armed is None or script["fail"] is not None, "an exception raised in %s was lost" % (armed and armed[0]))
        except ccs.Error as e:
            if k == 4 and not d["sug"] and user:
                need(e._code.value == ccs.Result.ERROR_UNSUPPORTED_OPERATION, "suggest without a callback: %d" % e._code.value)
            else:
                if not (armed is not None and script["fail"] is None): raise
                need(e._code.value == (ccs.Result.ERROR_EXTERNAL if armed[1] == 0 else -armed[1]), "exception in %s arrives as %d" % (armed[0], e._code.value))
                if armed[1] == 0: need("went %d%% wrong \u00e9 %s" % (armed[2], armed[0]) in str(e), "message lost: %s" % e)
                need("py.py" in str(e) and "in trip" in str(e), "the trace of the exception is lost: %s" % e)
                need(len(told) == n0, "told")
                rec.label("exception in a callback")
        script["fail"] = None
    n = log.count("delete")
    told.clear(); got.clear(); st["history"] = []; st["opt"] = []
    del tun
    need(not user or log.count("delete") == n + 1, "delete callback ran %d times" % (log.count("delete") - n))

# ------------------------------------------------------------------- trees
def chk_tree(d, rec):
    rec.nontrivial(len(d["nodes"]) >= 2)
    nodes = [ccs.Tree(arity=d["ar"], value=dec(d["nodes"][0][1]))]; where = [[]]
    for pi, v, sl, w in d["nodes"][1:]:
        p = pi % len(nodes); c = ccs.Tree(arity=d["ar"], value=dec(v)); slot = sl % d["ar"]
        o = outcome(lambda: nodes[p].set_child(slot, c))
        if where[p] + [slot] in where:
            need(o[0] == "error", "set_child over a child"); continue
        need(o == ("value", None), "set_child: %s" % (o,))
        c.weight = w; c.bias = w / 2
        need(c.weight == w and c.bias == w / 2, "weight and bias")
        nodes.append(c); where.append(where[p] + [slot])
    vals = {tuple(w): n.value for n, w in zip(nodes, where)}
    use = d["use"] % 3
    for n, w in zip(nodes, where):
        need(n.position == w and n.depth == len(w) and n.arity == d["ar"], "position")
        need([enc(x) for x in n.values] == [enc(vals[tuple(w[:i])]) for i in range(len(w) + 1)], "values along the path")
        need(n.index == (w[-1] if w else None), "index")
        need((n.parent.handle.value if n.parent is not None else None) == (nodes[where.index(w[:-1])].handle.value if w else None), "parent")
        ch = n.children
        for i in range(d["ar"]):
            e = nodes[where.index(w + [i])].handle.value if w + [i] in where else None
            need((ch[i].handle.value if ch[i] is not None else None) == e, "children")
            g = n.get_child(i); need((g.handle.value if g is not None else None) == e, "get_child")
        need(nodes[0].position_is_valid(w) is True and [enc(x) for x in nodes[0].get_values_at_position(w)] == [enc(x) for x in n.values] and
             nodes[0].get_node_at_position(w).handle.value == n.handle.value, "lookup by position")
        r1 = ccs.Rng(); r2 = ccs.Rng(); r1.seed = 7; r2.seed = 7
        a = (ct.c_size_t * 3)(); rr = rfail("ccs_tree_samples", H(n), H(r2), Z(3), a)
        o = outcome(lambda: n.samples(r1, 3))
        need(o == (("error", rr) if rr < 0 else ("value", [x if x != d["ar"] else None for x in a])), "samples %s" % (o,))
    if use == 0: return
    log = []
    arm = {"x": None}
    def get_child(ts, parent, index):
        log.append((parent.handle.value, index))
        if arm["x"] is not None: e = arm["x"]; arm["x"] = None; raise e
        return ccs.Tree(arity=d["ar"], value=[index, len(parent.position)][1] * 10 + index)
    data = d["data"]
    if use == 1: ts = ccs.StaticTreeSpace(name=d["name"], tree=nodes[0])
    else:
        gone = []
        ser = (lambda t, size: ct.create_string_buffer(b"dyn")) if d["ser"] else None
        seen = []
        des = (lambda t, s: seen.append(ct.cast(s, ct.c_char_p).value if s is not None else None)) if d["ser"] else None
        ts = ccs.DynamicTreeSpace(name=d["name"], tree=nodes[0], get_child=get_child, delete=lambda t: gone.append(1), serialize=ser, deserialize=des, tree_space_data=data)
        need(ts.tree_space_data is data, "tree space data %r, given %r" % (ts.tree_space_data, data))
    rec.label(["", "static tree space", "dynamic tree space"][use])
    need(ts.name == d["name"] and ts.tree.handle.value == nodes[0].handle.value and type(ccs.Object.from_handle(ts.handle)) is type(ts), "tree space accessors")
    rng = ccs.Rng(); rng.seed = 11; ts.rng = rng; need(ts.rng.handle.value == rng.handle.value, "rng")
    for n, w in zip(nodes, where):
        need(ts.check_position(w) is True and ts.get_node_at_position(w).handle.value == n.handle.value and [enc(x) for x in ts.get_values_at_position(w)] == [enc(x) for x in n.values], "position in the space")
        c = ccs.TreeConfiguration(tree_space=ts, position=w)
        need(c.position == w and c.position_size == len(w) and c.node.handle.value == n.handle.value and [enc(x) for x in c.values] == [enc(x) for x in n.values] and c.check() is True, "tree configuration")
        h = ct.c_uint32(); rok("ccs_tree_configuration_hash", H(c), ct.byref(h)); need(c.hash == h.value and c.tree_space.handle.value == ts.handle.value, "hash")
        c2 = ccs.TreeConfiguration(tree_space=ts, position=w)
        need(c == c2 and not c != c2 and hash(c) == hash(c2) and c <= c2 and c >= c2 and not c < c2 and not c > c2 and c.cmp(c2) == 0, "equal configurations")
        need(ts.check_configuration(c) is True, "check_configuration")
    need(ts.check_position(where[-1] + [d["ar"]]) is False, "a position past the last child")
    if use == 2:
        leaf = [(n, w) for n, w in zip(nodes, where) if None in n.children]
        n, w = leaf[d["use"] // 3 % len(leaf)]; i = n.children.index(None)
        if d["fail"]:
            arm["x"] = Boom("no 50% child") if d["fail"] == 1 else ccs.Error(ccs.Result(-d["fail"]))
            o = None
            try: ts.get_node_at_position(w + [i])
            except ccs.Error as e:
                o = e
            need(o is not None and o._code.value == (ccs.Result.ERROR_EXTERNAL if d["fail"] == 1 else -d["fail"]), "exception in get_child arrives as %s" % o)
            if d["fail"] == 1: need("no 50% child" in str(o), "message lost: %s" % o)
            need(n.children[i] is None, "a child although the callback failed")
            rec.label("exception in a callback")
        del log[:]
        c = ts.get_node_at_position(w + [i])
        need(log == [(n.handle.value, i)] and c.value == len(w) * 10 + i and c.position == w + [i], "a grown child")
        need(ts.get_node_at_position(w + [i]).handle.value == c.handle.value and len(log) == 1, "a grown child is kept")
        buf = ts.serialize()
        t2 = ccs.DynamicTreeSpace.deserialize(delete=lambda t: gone.append(2), get_child=get_child, serialize=ser, deserialize=des, tree_space_data=data, buffer=buf)
        need(type(t2) is ccs.DynamicTreeSpace and t2.name == d["name"] and t2.tree_space_data is data, "tree space read back")
        if d["ser"]: need(seen == [b"dyn"], "state read back %r" % seen)
        for n_, w_ in zip(nodes, where): need([enc(x) for x in t2.get_values_at_position(w_)] == [enc(x) for x in n_.values], "values read back")
        del t2; need(gone == [2], "delete callback of the copy")
        del c, c2, ts; o = None; gc.collect()
        need(gone == [2, 1], "delete callback")
    else:
        for c in ts.samples(3) + [ts.sample()]: need(type(c) is ccs.TreeConfiguration and c.check(), "samples")
        t2 = ccs.Object.deserialize(buffer=ts.serialize())
        need(type(t2) is ccs.StaticTreeSpace, "tree space read back")
        for n_, w_ in zip(nodes, where): need([enc(x) for x in t2.get_values_at_position(w_)] == [enc(x) for x in n_.values], "values read back")

# ------------------------------------------------- errors, user data, files
def chk_misc(d, rec):
    rec.nontrivial()
    code = -(d["code"] % 30 + 1)
    nm = ct.c_char_p(); rok("ccs_get_result_name", ct.c_int32(code), ct.byref(nm))
    need("CCS_RESULT_" + ccs.Result(code).name == nm.value.decode(), "%d is %s in Python, %s in the library" % (code, ccs.Result(code).name, nm.value))
    msg = d["msg"]
    es = ccs.ErrorStack(error=code, message=msg)
    need(es.code.value == code and (not msg or es.message == msg), "error stack: code %s message %r, given %r" % (es.code, es.message, msg))
    for f, l, fn in d["frames"]: es.push(f, l, fn)
    got = [(e.file.decode(), e.line, e.func.decode()) for e in es.elems()]
    need(got == [tuple(x) for x in d["frames"]], "frames %s" % got)
    ccs.set_thread_error(es)
    g = ccs.get_thread_error()
    need(g.handle.value == es.handle.value and ccs.get_thread_error() is None, "thread error")
    ccs.set_thread_error(es); ccs.clear_thread_error(); need(ccs.get_thread_error() is None, "cleared thread error")
    need(rrc(es) == 2, "references of an error stack: %d" % rrc(es)); del g
    need(rrc(es) == 1, "references of an error stack: %d" % rrc(es))
    # an error of the library: the exception carries its code and text
    try:
        ccs.CategoricalParameter(name="c", values=[1, 1]); need(False, "duplicate values accepted")
    except ccs.Error as e:
        need(e._code.value == ccs.Result.ERROR_INVALID_VALUE and e._stack is not None and e._stack.code.value == e._code.value and e._stack.message in str(e) and len(e._stack.elems()) >= 1, "exception %s" % e)
    need(ccs.get_thread_error() is None, "an error is left behind")
    # user data
    o = ccs.Rng(); o.user_data = d["ud"]
    need(o.user_data is d["ud"] or o.user_data == d["ud"], "user data")
    need(ccs.Object.from_handle(o.handle).user_data == d["ud"], "user data from a handle")
    r2 = ccs.Object.deserialize(buffer=o.serialize())
    need(r2.user_data == d["ud"], "user data read back: %r, given %r" % (r2.user_data, d["ud"]))
    dead = []
    o.set_destroy_callback(lambda ob, data: dead.append(1)); o.set_destroy_callback(lambda ob, data: dead.append(2))
    # the same stream through memory, a file and a descriptor
    tmp = tempfile.mkdtemp(prefix="p31")
    try:
        o.seed = d["seed"]
        path = os.path.join(tmp, "o")
        o.serialize(path=path)
        buf = bytes(o.serialize())
        need(open(path, "rb").read() == buf, "file and memory differ")
        fd = os.open(os.path.join(tmp, "d"), os.O_RDWR | os.O_CREAT); o.serialize(file_descriptor=fd)
        os.lseek(fd, 0, 0); need(os.read(fd, 1 << 20) == buf, "descriptor and memory differ"); os.lseek(fd, 0, 0)
        rs = [ccs.Object.deserialize(path=path), ccs.Object.deserialize(file_descriptor=fd), ccs.deserialize(buffer=(ct.c_byte * len(buf))(*[x - 256 if x > 127 else x for x in buf]))]
        os.close(fd)
        exp = [o.get() for _ in range(3)]
        for r in rs: need([r.get() for _ in range(3)] == exp, "the generator read back differs")
        need(o.min <= exp[0] <= o.max, "range of the generator"); u = o.uniform(); need(0 <= u < 1 and rs[0].uniform() == u, "uniform")
    finally:
        for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    cbk = []
    def ser(ob, data, size): cbk.append(("s", data)); return ct.create_string_buffer(b"xyz")
    def des(ob, s, data): cbk.append(("d", data, ct.cast(s, ct.c_char_p).value))
    b = o.serialize(callback=ser, callback_data=d["ud"]); ccs.Object.deserialize(buffer=b, callback=des, callback_data=d["frames"])
    need(cbk[-1] == ("d", d["frames"], b"xyz") and all(x == ("s", d["ud"]) for x in cbk[:-1]) and len(cbk) >= 2, "serialization callbacks %s" % cbk)
    need(not dead, "destroyed early"); del o
    need(dead == [2, 1], "destroy callbacks %s" % dead)

# ---------------------------------------------------------------- generators
_kinds = None
def kinds():
    global _kinds
    if _kinds is None: _kinds = make_kinds()
    return _kinds

def make_kinds():
    from hypothesis import strategies as st
    I64 = st.one_of(st.integers(-3, 3), st.integers(-2**63, 2**63 - 1), st.sampled_from([2**63 - 1, -2**63, 2**53 + 1, 2**31, -2**31]))
    ch = st.characters(exclude_characters="\0", exclude_categories=["Cs"])
    S = st.one_of(st.sampled_from(["a", "b", "it's", 'q"q', "\\", "%s", "a b", "\u00e9\u4e2d", "\n", "\t\r", "none", "1", "\f", "'\"", "\x1b", "\x85", "#["]), st.text(ch, max_size=6), st.tuples(st.text(ch, min_size=1, max_size=3), st.sampled_from([20, 90, 300, 1500])).map(lambda t: t[0] * t[1]))
    FL = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, 1e16, 1e-7, 0.1, 2.0**63]), st.floats(allow_nan=False, allow_infinity=False))
    FA = st.one_of(FL, st.sampled_from([float("inf"), float("-inf")]))
    fh = lambda x: ["f", x.hex()]
    vf, vfa = FL.map(fh), FA.map(fh)
    vi = I64.map(lambda x: ["i", x]); vs = S.map(lambda x: ["s", x]); vb = st.integers(0, 1).map(lambda x: ["b", x])
    val = st.one_of(st.just(["n"]), vb, vi, vfa, vs, st.just(["x"]), st.just(["f", "nan"]))
    lit = st.one_of(st.just(["n"]), vb, st.integers(0, 9).map(lambda x: ["i", x]), vi.filter(lambda v: v[1] != -2**63), vf, st.sampled_from([0.5, 2.0, -1.0]).map(fh), vs.filter(lambda v: v[1]))
    llit = st.one_of(lit, st.just(["i", -2**63]))
    name = st.one_of(st.sampled_from(["a", "b", "x1", "_", "none1", "trueish", "false_", "nonetrue", "e5", "E", "truE", "or", "p_q"]), st.from_regex(r"[a-zA-Z_][a-zA-Z_0-9]{0,5}", fullmatch=True)).filter(lambda n: n not in ("none", "true", "false"))
    catvals = st.lists(st.one_of(val.filter(lambda v: v[0] not in "x" and v != ["f", "nan"]), st.integers(0, 3).map(lambda x: ["i", x])), min_size=1, max_size=4).map(uniq).filter(len)
    param = st.fixed_dictionaries(dict(name=name, vals=catvals, at=st.integers(0, 3)))
    params = st.lists(param, min_size=0, max_size=4, unique_by=lambda p: p["name"])
    nlit = st.one_of(st.integers(0, 9).map(lambda x: ["i", x]), st.sampled_from([0.5, 2.0, -1.0, 0.25]).map(fh), st.integers(-40, 40).map(lambda x: ["i", x]))
    nparams = st.lists(st.fixed_dictionaries(dict(name=name, vals=st.lists(nlit, min_size=1, max_size=4).map(uniq).filter(len), at=st.integers(0, 3))), min_size=1, max_size=4, unique_by=lambda p: p["name"])
    @st.composite
    def expr(draw):
        num = draw(st.booleans())         # numbers only: most evaluations succeed
        ps = draw(nparams if num else params)
        leaf = (nlit if num else lit).map(lambda v: ["lit", v])
        lleaf = llit.map(lambda v: ["lit", v])
        if ps:
            var = st.integers(0, len(ps) - 1).map(lambda i: ["var", i])
            leaf = st.one_of(leaf, var, var); lleaf = st.one_of(lleaf, var)
        lst = st.one_of(st.lists(lleaf, max_size=4), st.lists(lleaf, min_size=5, max_size=12))
        tree = st.recursive(leaf, lambda c: st.one_of(
            st.tuples(st.sampled_from(BIN), c, c).map(list), st.tuples(st.sampled_from(BIN), c, c).map(list),
            st.tuples(st.sampled_from(["u+", "u-", "u!"]), c).map(list),
            st.tuples(st.just("#"), c, lst).map(list)), max_leaves=10)
        return dict(params=ps, tree=draw(tree), style=draw(st.integers(0, 2**32)), use=draw(st.integers(0, 3)))
    value = st.fixed_dictionaries(dict(vals=st.lists(val, min_size=1, max_size=6), ops=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 5), st.integers(0, 5)).map(list), max_size=12)))
    anyname = st.one_of(name, st.text(ch, max_size=5))
    small = st.integers(-100, 100)
    @st.composite
    def par(draw, nm=anyname):
        k = draw(st.sampled_from("ifcods"))
        d = dict(k=k, name=draw(nm), probe=draw(st.lists(val, max_size=3)), seed=draw(st.integers(0, 1000)))
        if k in "if":
            if k == "i":
                lo, up = sorted([draw(st.one_of(small, st.integers(-2**62, 2**62))), draw(st.one_of(small, st.integers(-2**62, 2**62)))])
                e = lambda x: ["i", int(x)]
                q = draw(st.sampled_from([0, 0, 1, 2])); df = draw(st.integers(lo, up))
                if q == 2: df = lo
            else:
                lo, up = sorted([draw(st.one_of(small.map(float), st.floats(-1e9, 1e9))), draw(st.one_of(small.map(float), st.floats(-1e9, 1e9)))])
                if lo == up: up = lo # signed zeros
                e = lambda x: ["f", float(x).hex()]
                q = draw(st.sampled_from([0.0, 0.0, 0.25])); df = draw(st.floats(lo, up)) if q == 0 else lo
            d.update(lo=e(lo), up=e(up), q=e(q), df=e(df))
        elif k != "s":
            d.update(vals=draw(st.lists(st.one_of(val, small.map(lambda x: ["i", x])), max_size=5)), di=draw(st.integers(0, 4)), fl=draw(st.integers(0, 1)))
        return d
    @st.composite
    def dist(draw, depth=2):
        k = draw(st.sampled_from(["ui", "uf", "ni", "nf", "r"] + (["mix", "mv", "mv"] if depth else [])))
        d = dict(k=k, log=draw(st.integers(0, 3)) == 0)
        if k[0] in "un":
            i = k[1] == "i"
            e = (lambda x: ["i", int(x)]) if i else (lambda x: ["f", float(x).hex()])
            a, b = sorted([draw(st.integers(1 if d["log"] else -50, 90)), draw(st.integers(1 if d["log"] else -50, 90))])
            d["q"] = e(draw(st.sampled_from([0, 0, 1])))
            if k[0] == "u": d.update(lo=e(a), up=e(b + 1))
            else: d.update(mu=["f", float(draw(st.integers(-5, 5)) / 4).hex()], sg=["f", float(draw(st.integers(1, 8)) / 4).hex()])
        else:
            d.update(areas=draw(st.lists(st.integers(0, 5).map(float), min_size=4, max_size=6)), w=draw(st.integers(0, 1)))
            if k != "r":
                d["subs"] = draw(st.lists(dist(depth - 1), min_size=1, max_size=3))
                if k == "mix" and draw(st.integers(0, 3)): d["subs"] = [d["subs"][0]] * len(d["subs"])
        return d
    end = st.tuples(st.integers(-6, 6), st.integers(-6, 6), st.integers(0, 1), st.integers(0, 1)).map(list)
    interval = st.fixed_dictionaries(dict(int=st.integers(0, 1), a=end, b=end, at=st.lists(st.integers(-7, 7), max_size=3)))
    space = st.fixed_dictionaries(dict(which=st.integers(0, 2), name=st.text(ch, max_size=4), params=st.lists(par(), min_size=1, max_size=5), one=st.integers(0, 1),
                                       probe=st.lists(val, max_size=2), style=st.integers(0, 2**31), res=st.integers(0, 5)))
    ud = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**40, 2**40), st.text(ch, max_size=4)), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(ch, max_size=3), c, max_size=3)), max_leaves=5)
    fl = st.one_of(st.just([0, 0]), st.tuples(st.just(1), st.sampled_from([0, 0, 2, 8, 16, 18, 26])).map(list))
    tuner = st.fixed_dictionaries(dict(kind=st.integers(0, 2), user=st.integers(0, 3).map(lambda x: int(x > 0)), sug=st.integers(0, 1), name=st.text(ch, max_size=4), data=ud,
                                       ops=st.lists(st.tuples(st.sampled_from([0, 1, 1, 1, 2, 3, 4, 5]), st.integers(0, 40), fl).map(list), max_size=8)))
    tree = st.fixed_dictionaries(dict(ar=st.integers(1, 3), nodes=st.lists(st.tuples(st.integers(0, 5), val.filter(lambda v: v[0] != "x"), st.integers(0, 2), st.sampled_from([0.0, 0.5, 1.0, 2.0])).map(list), min_size=1, max_size=6),
                                      use=st.integers(0, 17), name=st.text(ch, max_size=4), data=ud, ser=st.integers(0, 1), fail=st.sampled_from([0, 1, 2, 28])))
    misc = st.fixed_dictionaries(dict(code=st.integers(0, 29), msg=st.text(ch, max_size=8), frames=st.lists(st.tuples(st.text(ch, min_size=1, max_size=4), st.integers(0, 2**31 - 1), st.text(ch, min_size=1, max_size=4)).map(list), max_size=3),
                                      ud=ud, seed=st.integers(0, 2**31)))
    return dict(expression=(expr(), chk_expr, 1.5), values=(value, chk_value, 1), parameter=(par(), chk_param, 1), distribution=(dist(), chk_dist, 1),
                interval=(interval, chk_interval, 0.5), space=(space, chk_space, 1), tuner=(tuner, chk_tuner, 0.6), tree=(tree, chk_tree, 0.6), misc=(misc, chk_misc, 0.3))

class _K(dict):
    def __missing__(s, k): return (None, globals()[dict(expression="chk_expr", values="chk_value", parameter="chk_param", distribution="chk_dist",
        interval="chk_interval", space="chk_space", tuner="chk_tuner", tree="chk_tree", misc="chk_misc")[k]])
KINDS = _K()

# ----------------------------------------------------------------- main side
def child_env(pm="malloc"):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC=pm, PYTHONHASHSEED="0",
             ASAN_OPTIONS="detect_leaks=0:symbolize=0:abort_on_error=0:allocator_may_return_null=1", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tempfile.gettempdir(), "p31hyp"))
    e["LD_PRELOAD"] = ASAN
    return e

def run_replay(desc, timeout=120):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f: json.dump(desc, f)
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--one", f.name], env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 99, "no answer within %d s" % timeout
    finally:
        os.unlink(f.name)

def crash_shrink(c, limit=60):
    # structural shrinking of a description whose run kills the interpreter
    t0 = time.time()
    def bad(x): return run_replay(x, 30)[0] not in (0, 1)
    def variants(x):
        if isinstance(x, list):
            for i in range(len(x)):
                yield x[:i] + x[i + 1:]
            for i, y in enumerate(x):
                for z in variants(y): yield x[:i] + [z] + x[i + 1:]
        elif isinstance(x, dict):
            for k, y in x.items():
                for z in variants(y): yield dict(x, **{k: z})
    better = True
    while better and time.time() - t0 < limit:
        better = False
        for z in variants(c["desc"]):
            if time.time() - t0 > limit: break
            if bad(dict(c, desc=z)): c = dict(c, desc=z); better = True; break
    return c

def main():
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        worker_main(int(a[1]), int(a[2]), a[3]); return 0
    if a and a[0] == "--one":
        try: worker_main(0, 0, None, replay=json.load(open(a[1]))); return 0
        except Exception as e: print("%s: %s" % (type(e).__name__, e)); traceback.print_exc(); return 1
    if a and a[0] == "--replay":
        rc, out = run_replay(json.load(open(a[1]))); print(out)
        if rc: print("VIOLATION property=%s replay=%s" % (PROP, a[1]))
        return 1 if rc else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="p31w")
    outs = [os.path.join(tmp, "w%d" % i) for i in range(NW)]
    ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", str(i), str(seed), outs[i]], env=child_env("malloc" if i % 2 else "pymalloc"), stdout=open(outs[i] + ".log", "w"), stderr=subprocess.STDOUT) for i in range(NW)]
    fails = []; tot = collections.Counter(); n = nt = 0; seen = set(); samples = []; broken = None
    for i, p in enumerate(ps):
        try: p.wait(max(1, t0 + BUDGET + 150 - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        if os.path.exists(outs[i]):
            r = json.load(open(outs[i])); n += r["n"]; nt += r["nt"]; tot.update(r["labels"]); seen.update(r["seen"]); samples += r["samples"]
            if r["fail"]: fails.append(r["fail"])
            broken = broken or r["broken"]
        else:
            log = open(outs[i] + ".log").read()
            try:
                b = open(outs[i] + ".cur", "rb").read(); c = json.loads(b[4:4 + struct.unpack("<I", b[:4])[0]])
                rc, _ = run_replay(c, 60)
                if rc == 0 and "ERROR: AddressSanitizer" not in log and p.returncode not in (-11, -6, -7): broken = "worker %d ended with %s and its case does not reproduce: %s" % (i, p.returncode, log[-1500:]); continue
                c["why"] = "the interpreter died: " + log[max(0, log.find("ERROR: Add")):][:1500]; c["crash"] = rc not in (1,); fails.append(c)
            except Exception as e:
                # the bindings cannot even be loaded
                imp = subprocess.run([sys.executable, "-c", "import sys,os;sys.path.insert(0,os.environ['VERIF_PYREPO']);sys.path.append('/opt/ccs-venv/lib/python3.12/site-packages');import cconfigspace"], env=child_env(), stderr=subprocess.PIPE)
                broken = "worker %d: %s" % (i, log[-1500:] + imp.stderr.decode()[-500:])
    for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    viol = 0
    if fails:
        f = min([x for x in fails if x.get("desc") is not None] or fails, key=lambda x: len(json.dumps(x.get("desc"))))
        if f.get("crash") and f.get("desc") is not None: f = dict(crash_shrink(dict(kind=f["kind"], desc=f["desc"])), why=f["why"])
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", PROP + "-%s.json" % hashlib.sha1(json.dumps(f.get("desc")).encode()).hexdigest()[:10])
        json.dump(dict(kind=f["kind"], desc=f.get("desc"), why=f["why"]), open(path, "w"), indent=1)
        print("%s: %s\n%s" % (f["kind"], f["why"], f.get("tb", "")))
        print("VIOLATION property=%s replay=%s" % (PROP, path))
        viol = 1
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump({"property": PROP, "tier": TIER, "seed": seed, "level": "exploration",
               "coverage": {"evaluations": n, "distinct_nontrivial": len(seen), "rule": RULE, "nontrivial_cases": nt, "labels": dict(tot), "samples": samples[:8] or ["none"]},
               "assumptions": ["integers fit 64 bits and strings hold no NUL character", "text expressions use the identifiers, literals and escapes of the grammar (no empty string, infinity or NaN)"],
               "wall_s": round(time.time() - t0, 2), "violations": viol}, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)
    if "--stats" in a:
        for k, v in sorted(tot.items()): print("  label %-40s %d" % (k, v))
    print("%s: %d cases (%d non-trivial, %d distinct) in %.1f s, seed %d" % (PROP, n, nt, len(seen), time.time() - t0, seed))
    if viol: return 1
    if broken: print("ERROR: " + broken); return 2
    return 0

sys.exit(main())
