#!/usr/bin/env python3
"""C27: random interface definitions, built by rustc and run.

defs.py ROOT TIER SEED: writes generated programs under ROOT/defs/target/gen, builds them against
/repo's tree, judges which ones rustc refuses and what the accepted ones do, and writes evidence."""
import json, os, random, subprocess, sys, time, shutil

root, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
t0 = time.time()
here = os.path.join(root, "defs")
gen = os.path.join(here, "target", "gen")
ev = os.path.join(root, "evidence")
NI, PER, NR = (24, 4, 48) if tier == "quick" else (320, 10, 240)
R = random.Random(seed * 1000003 + 27)

OWNED = ["u8", "u32", "i64", "bool", "String", "()", "Nothing", "Bytes", "OptA", "(u8, u16)", "[u8; 4]", "Rq", "Rs", "Choice"]
# pairs of (path, type) whose keys coincide when shortened to so many bytes
COLL = [(4, "x/3ba", "u32", "x/7881", "u32"), (4, "x/23e9", "bool", "x/c7f6", "bool"), (4, "x/cb3f", "bool", "x/13a80", "u32"),
        (4, "x/32ef", "u32", "x/197e1", "bool"), (4, "x/8c80", "bool", "x/1ae07", "u32"), (4, "x/7c8", "bool", "x/1d721", "bool"),
        (2, "x/11", "u32", "x/43", "u32"), (2, "x/5a", "u32", "x/d1", "bool"), (2, "x/8a", "bool", "x/da", "u32"),
        (2, "x/f9", "bool", "x/fd", "u32"), (2, "x/79", "bool", "x/134", "bool"), (2, "x/1f", "u32", "x/146", "bool")]
LT = iter(())

def col(t, n):
    """table column of a type; lifetimes are named by n"""
    if t == "Bo": return f"Bo<'{n}>"
    if t == "Bo2": return f"Bo2<'{n}, '{n}{n}>"
    return t
def val(t):
    return {"Bo": "Bo<'static>", "Bo2": "Bo2<'static, 'static>"}.get(t, t)
def arg(t):
    return {"Bo": "Bo<'_>", "Bo2": "Bo2<'_, '_>"}.get(t, t)
def key(p, t):
    return f'Key::for_path::<{val(t)}>("{p}")'

class Msg:
    """kind: ep (req, resp), tin, tout (req)"""
    def __init__(s, kind, path, req, resp=None, handler=None, cfg=""):
        s.kind, s.path, s.req, s.resp, s.handler, s.cfg = kind, path, req, resp, handler, cfg
        s.name = None
    def on(s): return s.cfg in ("", "cfg(all())")

class Iface:
    def __init__(s, msgs): s.msgs, s.extra, s.order = msgs, [], None

def ident(m): return (m.path, m.req)

def rand_type(borrow=True):
    if borrow and R.random() < .12: return R.choice(["Bo", "Bo2"])
    return R.choice(OWNED)

def rand_iface(k, plain=False):
    used_in, used_out = set(), set()
    msgs = []
    def add(m):
        if m.on():
            i = [(m.path, m.req)] if m.kind in ("ep", "tin") else []
            o = [(m.path, m.resp)] if m.kind == "ep" else [(m.path, m.req)] if m.kind == "tout" else []
            # full keys are equal only for equal (path, type); Bytes and Option<u16> have no alias twin here
            if any(x in used_in for x in i) or any(x in used_out for x in o): return False
            used_in.update(i); used_out.update(o)
        msgs.append(m)
        return True
    def path(n):
        r = R.random()
        if r < .1: return f"shared/{R.randrange(4)}"
        if r < .2: return f"i{k}/" + "x" * R.randrange(1, 90) + str(n)
        if r < .25: return "" if n == 0 else f"{n}"
        return f"i{k}/{R.choice(['a', 'b/c', 'Ünï', 'ping'])}{n}"
    def cfg():
        if plain: return ""
        r = R.random()
        return "cfg(all())" if r < .1 else "cfg(any())" if r < .2 else ""
    big = R.random() < .15
    for n in range(R.randrange(0, 30 if big else 7)):
        q, p = rand_type(), rand_type()
        h = R.choice(["blocking", "async", "spawn", None])
        if h == "spawn" and "Bo" in q + p: h = "blocking"
        add(Msg("ep", path(n), q, p, h, cfg()))
    for n in range(R.randrange(0, 20 if big else 5)):
        q = rand_type()
        h = R.choice(["blocking", "async", "spawn", None])
        if h == "spawn" and "Bo" in q: h = "async"
        add(Msg("tin", path(n), q, None, h, cfg()))
    for n in range(R.randrange(0, 20 if big else 5)):
        add(Msg("tout", path(n), rand_type(), cfg=cfg()))
    # keys that coincide when shortened, in one direction or in opposite ones
    if R.random() < .5:
        for c in R.sample(COLL, R.randrange(1, 3)):
            (p1, t1), (p2, t2) = (c[1], c[2]), (c[3], c[4])
            for p, t in ((p1, t1), (p2, t2)):
                w = R.choice(["req", "resp", "tin", "tout"])
                h = R.choice(["blocking", "async", "spawn"])
                if w == "req": add(Msg("ep", p, t, rand_type(False), h))
                elif w == "resp": add(Msg("ep", p, rand_type(False), t, h))
                elif w == "tin": add(Msg("tin", p, t, None, h))
                else: add(Msg("tout", p, t))
    R.shuffle(msgs)
    return Iface(msgs)

def code(f, fn_check):
    """the module of an interface; f.extra: messages declared elsewhere but handled"""
    o = ["use crate::c::*;"]
    for i, m in enumerate(f.msgs + f.extra):
        m.name, m.idx = {"ep": "E", "tin": "I", "tout": "O"}[m.kind] + str(i), i
    def lists(ms, sfx):
        withcfg = any(m.cfg for m in ms) or R.random() < .2
        for kind, nm, d in (("ep", "EPS", None), ("tin", "TIN", "ToServer"), ("tout", "TOUT", "ToClient")):
            rows = [m for m in ms if m.kind == kind]
            if kind == "ep":
                o.append(f"endpoints! {{\n    list = {nm}{sfx};\n    | EndpointTy | RequestTy | ResponseTy | Path |" + (" Cfg |" if withcfg else ""))
                o.append("    | --- | --- | --- | --- |" + (" --- |" if withcfg else ""))
            else:
                o.append(f"topics! {{\n    list = {nm}{sfx};\n    direction = TopicDirection::{d};\n    | TopicTy | MessageTy | Path |" + (" Cfg |" if withcfg else ""))
                o.append("    | --- | --- | --- |" + (" --- |" if withcfg else ""))
            for m in rows:
                c = [m.name, col(m.req, "a")] + ([col(m.resp, "b")] if kind == "ep" else []) + [f'"{m.path}"'] + ([m.cfg] if withcfg else [])
                o.append("    | " + " | ".join(c) + " |")
            o.append("}")
    lists(f.msgs, "")
    if f.extra: lists(f.extra, "_ELSEWHERE")
    hs = [m for m in f.msgs if m.handler and m.on()]
    R.shuffle(hs)
    eph, tph = [m for m in hs if m.kind == "ep"], [m for m in hs if m.kind == "tin"]
    for m in f.extra:
        t = eph if m.kind == "ep" else tph
        t.insert({"first": 0, "last": len(t)}.get(f.order, R.randrange(len(t) + 1)), m)
    hs = eph + tph
    for m in hs:
        i = m.idx
        if m.kind == "ep":
            ret = f"<{val(m.resp)} as Smp>::smp({i})"
            if m.handler == "blocking": o.append(f"fn h{i}(c: &mut Ctx, h: VarHeader, r: {arg(m.req)}) -> {val(m.resp)} {{ c.note({i}, &h, &r); {ret} }}")
            elif m.handler == "async": o.append(f"async fn h{i}(c: &mut Ctx, h: VarHeader, r: {arg(m.req)}) -> {val(m.resp)} {{ tokio::task::yield_now().await; c.note({i}, &h, &r); {ret} }}")
            else: o.append(f"async fn h{i}(c: Ctx, h: VarHeader, r: {arg(m.req)}, tx: Sender<WireTxImpl>) {{ c.note({i}, &h, &r); let _ = tx.reply::<{m.name}>(h.seq_no, &{ret}).await; }}")
        elif m.handler == "blocking": o.append(f"fn h{i}(c: &mut Ctx, h: VarHeader, r: {arg(m.req)}, _tx: &Sender<WireTxImpl>) {{ c.note({i}, &h, &r); }}")
        elif m.handler == "async": o.append(f"async fn h{i}(c: &mut Ctx, h: VarHeader, r: {arg(m.req)}, _tx: &Sender<WireTxImpl>) {{ tokio::task::yield_now().await; c.note({i}, &h, &r); }}")
        else: o.append(f"async fn h{i}(c: Ctx, h: VarHeader, r: {arg(m.req)}, _tx: Sender<WireTxImpl>) {{ tokio::task::yield_now().await; c.note({i}, &h, &r); }}")
    o.append("define_dispatch! {\n    app: App;\n    spawn_fn: spawn_fn;\n    tx_impl: WireTxImpl;\n    spawn_impl: WireSpawnImpl;\n    context: Ctx;")
    o.append("    endpoints: {\n        list: EPS;\n        | EndpointTy | kind | handler |\n        | --- | --- | --- |")
    o += [f"        | {m.name} | {m.handler} | h{m.idx} |" for m in eph]
    o.append("    };\n    topics_in: {\n        list: TIN;\n        | TopicTy | kind | handler |\n        | --- | --- | --- |")
    o += [f"        | {m.name} | {m.handler} | h{m.idx} |" for m in tph]
    o.append("    };\n    topics_out: {\n        list: TOUT;\n    };\n}")
    if fn_check is None:
        o.append("pub fn mk() -> App { App::new(Ctx::default(), ChannelWireSpawn) }")
        return "\n".join(o)
    on = [m for m in f.msgs if m.on()]
    o.append("pub fn check() -> Result<(), String> {")
    o.append("    let d = Decl {")
    o.append("        eps: vec![" + ", ".join(f'("{m.path}", {key(m.path, m.req)}, {key(m.path, m.resp)})' for m in on if m.kind == "ep") + "],")
    for k in ("tin", "tout"):
        o.append(f"        {k}: vec![" + ", ".join(f'("{m.path}", {key(m.path, m.req)})' for m in on if m.kind == k) + "],")
    o.append("    };")
    o.append("    let hs = vec![")
    for m in hs:
        resp = f"Some(({key(m.path, m.resp)}, ser(&<{val(m.resp)} as Smp>::smp({m.idx}))))" if m.kind == "ep" else "None"
        o.append(f"        H {{ idx: {m.idx}, key: {key(m.path, m.req)}, resp: {resp}, own_task: {str(m.handler == 'spawn').lower()}, body: |i| ser(&<{val(m.req)} as Smp>::smp(i)) }},")
    o.append("    ];")
    o.append("    let uns = vec![" + ", ".join(f"Un {{ key: {key(m.path, m.req)} }}" for m in on if m.kind in ("ep", "tin") and not m.handler) + "];")
    o.append(f'    drive("{fn_check}", {R.getrandbits(60)}, d, hs, uns, |c, s| App::new(c, s), |a: &App| a.device_map)')
    o.append("}")
    return "\n".join(o)

def indent(s): return "\n".join("    " + l for l in s.split("\n"))

# --- definitions that must be refused, each with a twin that must be accepted
def ep(p, q, r, h="blocking"): return Msg("ep", p, q, r, h)
def defect(kind, f):
    """adds to the sound interface f; returns (messages, elsewhere) of the bad one and of its twin"""
    h = R.choice(["blocking", "async", "spawn"])
    a, b, c = R.sample(OWNED, 3)
    p = f"bad/{R.randrange(1000)}"
    T = lambda p_, t: Msg("tin", p_, t, None, h)
    O = lambda p_, t: Msg("tout", p_, t)
    return {
        # handled but not declared
        "endpoint_not_listed": (([], [ep(p, a, b, h)]), ([ep(p, a, b, h)], [])),
        "response_not_listed": (([ep(p, a, b, None)], [ep(p, a, c, h)]), ([ep(p, a, b, h)], [])),
        "request_not_listed": (([ep(p, a, b, None)], [ep(p, c, b, h)]), ([ep(p, a, b, h)], [])),
        "topic_not_listed": (([], [T(p, a)]), ([T(p, a)], [])),
        "topic_listed_out": (([O(p, a)], [T(p, a)]), ([O(p, a), T(p, a)], [])),
        "topic_is_endpoint": (([ep(p, a, b, None)], [T(p, a)]), ([ep(p, a, b, None), T(p + "t", a)], [])),
        # the same full key twice in one direction
        "same_request": (([ep(p, a, b, h), ep(p, a, c, None)], []), ([ep(p, a, b, h), ep(p, c, c, None)], [])),
        "same_response": (([ep(p, a, b, h), ep(p, c, b, None)], []), ([ep(p, a, b, h), ep(p, c, a, None)], [])),
        "same_topic_in": (([T(p, a), Msg("tin", p, a)], []), ([T(p, a), Msg("tin", p, b)], [])),
        "same_topic_out": (([O(p, a), O(p, a)], []), ([O(p, a), O(p, b)], [])),
        "topic_in_as_request": (([ep(p, a, b, h), Msg("tin", p, a)], []), ([ep(p, a, b, h), Msg("tin", p, b)], [])),
        "topic_out_as_response": (([ep(p, a, b, h), O(p, b)], []), ([ep(p, a, b, h), O(p, a)], [])),
        "error_as_topic": (([O("error", "WireError")], []), ([O("errors", "WireError"), Msg("tin", "error", "WireError")], [])),
        "error_as_response": (([ep("error", a, "WireError", None)], []), ([ep("error", "WireError", a, None)], [])),
        "ping_again": (([ep("postcard-rpc/ping", "u32", a, None)], []), ([ep("postcard-rpc/ping", "i64", "bool", None)], [])),
        "log_again": (([O("postcard-rpc/logging", "String")], []), ([Msg("tin", "postcard-rpc/logging", "String")], [])),
    }[kind]
KINDS = ["endpoint_not_listed", "response_not_listed", "request_not_listed", "topic_not_listed", "topic_listed_out", "topic_is_endpoint", "same_request", "same_response",
         "same_topic_in", "same_topic_out", "topic_in_as_request", "topic_out_as_response", "error_as_topic", "error_as_response", "ping_again", "log_again"]

def clone(ms):
    return [Msg(m.kind, m.path, m.req, m.resp, m.handler, m.cfg) for m in ms]

shutil.rmtree(gen, ignore_errors=True)
os.makedirs(os.path.join(gen, "src", "bin"))
shutil.copy(os.path.join(here, "common.rs"), os.path.join(gen, "src", "common.rs"))
shutil.copy(os.path.join(here, "Cargo.lock"), gen)
open(os.path.join(gen, "Cargo.toml"), "w").write(open(os.path.join(here, "Cargo.toml.in")).read())
HEAD = '#![allow(unused, dead_code, non_camel_case_types)]\n#[path = "../common.rs"]\nmod c;\n'
def put(name, text): open(os.path.join(gen, "src", "bin", name + ".rs"), "w").write(HEAD + text)

progs, sigs = [], set()
for g in range(0, NI, PER):
    mods = []
    for k in range(g, min(g + PER, NI)):
        body = code(rand_iface(k), f"i{k}")
        mods.append((k, body))
        sigs.add(hash(body))
    put(f"acc{g}", "".join(f"mod i{k} {{\n{indent(b)}\n}}\n" for k, b in mods) + "fn main() {\n    c::main_of(&[" + ", ".join(f'("i{k}", i{k}::check)' for k, _ in mods) + "]);\n}\n")
    progs.append(f"acc{g}")
pairs = []
for n in range(NR):
    kind = KINDS[n % len(KINDS)]
    order = ["any", "last", "first"][n // len(KINDS) % 3]
    f = rand_iface(9000 + n, plain=True)
    f.msgs = f.msgs[:6]
    if order != "any":
        # enough entries of each kind that places in the tables differ
        for k in range(R.randrange(3, 9)):
            f.msgs.append(ep(f"pad{n}/{k}", R.choice(OWNED), R.choice(OWNED), R.choice(["blocking", "async", "spawn"])))
            f.msgs.append(Msg("tin", f"padt{n}/{k}", R.choice(OWNED), None, R.choice(["blocking", "async", "spawn"])))
            f.msgs.append(Msg("tout", f"pado{n}/{k}", R.choice(OWNED)))
    (bm, bx), (gm, gx) = defect(kind, f)
    st = R.getstate()
    for which, ms, xs in (("good", gm, gx), ("bad", bm, bx)):
        R.setstate(st)
        g = Iface(clone(f.msgs) + clone(ms))
        # the offending entries stand anywhere, at the end, or one at each end
        R.shuffle(g.msgs)
        if order != "any":
            own = {(m.kind, m.path, m.req, m.resp) for m in ms}
            mine = [m for m in g.msgs if (m.kind, m.path, m.req, m.resp) in own]
            rest = [m for m in g.msgs if (m.kind, m.path, m.req, m.resp) not in own]
            g.msgs = rest + mine if order == "last" else mine[:1] + rest + mine[1:]
        g.extra, g.order = clone(xs), order
        put(f"{which}{n}", f"// {kind}\nmod i {{\n{indent(code(g, None))}\n}}\nfn main() {{ let _ = i::mk(); }}\n")
    pairs.append((n, kind))

env = dict(os.environ)
log = os.path.join(ev, "C27.build.log")
tgt = os.path.join(here, "target", "build")
# the library and its dependencies first: if they do not build this is no verdict
open(os.path.join(gen, "src", "lib.rs"), "w").write("pub use postcard_rpc;\n")
r = subprocess.run(["cargo", "build", "--offline", "--lib", "--target-dir", tgt], cwd=gen, env=env, capture_output=True, text=True)
open(log, "w").write(r.stderr)
if r.returncode:
    sys.stdout.write(r.stderr[-2000:])
    print(f"NO ANSWER property=C27: the library does not build, see {log}")
    sys.exit(3)
r = subprocess.run(["cargo", "build", "--offline", "--bins", "--keep-going", "--message-format=json", "--target-dir", tgt], cwd=gen, env=env, capture_output=True, text=True)
open(log, "w").write(r.stderr)
built, errors = set(), {}
for l in r.stdout.splitlines():
    try: j = json.loads(l)
    except ValueError: continue
    if j.get("reason") == "compiler-artifact" and "bin" in j["target"]["kind"]: built.add(j["target"]["name"])
    if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
        errors.setdefault(j["target"]["name"], []).append(j["message"]["rendered"])
viol, runs, samples, handled, refused_req = [], [], [], 0, 0
def fail(name, why): viol.append((name, why))

def const_panic(name): return any("E0080" in e or "evaluation" in e for e in errors.get(name, []))
def no_answer(name):
    sys.stdout.write("\n".join(errors.get(name, ["?"]))[:2500] + "\n")
    print(f"NO ANSWER property=C27: generated program {name} does not build for another reason than its interface, see {gen}")
    sys.exit(3)
for p in progs:
    if p not in built:
        if const_panic(p): fail(p, "a sound interface is refused: " + errors[p][0])
        else: no_answer(p)
        continue
    o = subprocess.run([os.path.join(tgt, "debug", p)], capture_output=True, text=True, timeout=120)
    ok = 0
    for l in o.stdout.splitlines():
        if l.startswith("VIOL"): fail(p, l[5:])
        if l.startswith("OK"):
            ok += 1
            runs.append(l)
            w = dict(x.split("=") for x in l.split()[2:])
            handled += int(w["requests"]); refused_req += int(w["refused"])
    if o.returncode and not any(v[0] == p for v in viol): fail(p, f"died with status {o.returncode}: {o.stderr[-600:]}")
nref = 0
for n, kind in pairs:
    g, b = f"good{n}" in built, f"bad{n}" in built
    if not g:
        if const_panic(f"good{n}"): fail(f"good{n}", f"a sound interface (twin of {kind}) is refused: " + errors[f"good{n}"][0])
        else: no_answer(f"good{n}")
    elif b: fail(f"bad{n}", f"an unsound interface ({kind}) is accepted")
    else: nref += 1
lens = {}
for l in runs: lens[l.split()[2]] = lens.get(l.split()[2], 0) + 1
cov = {
    "evaluations": len(runs) + 2 * len(pairs), "distinct_nontrivial": len(sigs) + 2 * len(pairs),
    "rule": "a distinct case is a distinct generated interface definition; accepted ones are built, run on the real server and every handler is called; each refused one has a twin differing only in the offending entry that must build",
    "samples": runs[:3] + [f"refused: {kind}" for _, kind in pairs[:2]],
    "exhaustive": {"accepted_run": len(runs), "requests": handled, "refused_requests": refused_req, "refused_definitions": nref, "refusal_kinds": len(KINDS), "key_lengths": lens},
}
cov["observed"] = cov.pop("exhaustive")
lost = not viol and (len(runs) != NI or not nref)
os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
json.dump({"property": "C27", "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(viol),
           "assumptions": ["rustc evaluates the macros' compile-time code as documented", "keys of different (path, type) pairs used here differ in full length"]}, open(os.path.join(ev, "C27.json"), "w"), indent=1)
print(f"C27: {len(runs)} interfaces accepted and run ({handled} requests handled, {refused_req} refused), key lengths {lens}; {nref} of {len(pairs)} unsound definitions refused, their twins accepted")
if viol:
    rp = os.path.join(ev, "replay", f"C27-{viol[0][0]}.txt")
    src = open(os.path.join(gen, "src", "bin", viol[0][0] + ".rs")).read()
    open(rp, "w").write("\n".join(f"{a}: {b}" for a, b in viol) + "\n\n--- " + viol[0][0] + ".rs (with defs/common.rs)\n" + src)
    for a, b in viol[:3]: print(f"  {a}: {b[:600]}")
    print(f"VIOLATION property=C27 replay={rp}")
    sys.exit(1)
if lost:
    print("NO ANSWER property=C27: not every program reported")
    sys.exit(3)
