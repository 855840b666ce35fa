"""C15: the compile CLI prints what the decompile CLI (and the docs) expect."""
import contextlib
import io
import json
import os
import runpy
import subprocess
import sys
import warnings

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402

SETTINGS = {"performance_progress_list_var_name": impl.PPL,
            "dungeon_mode_constants": {"closed": impl.DMODES[0], "open": impl.DMODES[1], "request": impl.DMODES[2], "open_request": impl.DMODES[3]}}  # fmt: skip
KINDS = {"COROUTINE": "coro", "GENERIC": "gen", "ACTOR": "actor", "OBJECT": "object", "PERFORMER": "performer"}
TYPES = {v: k for k, v in KINDS.items()}


def cli(mod, *args, sub=False):
    """(exit status, stdout, stderr) of a command, in this process unless sub."""
    if sub:
        r = subprocess.run([sys.executable, "-m", "explorerscript.cli." + mod, *args], capture_output=True, text=True, encoding="utf-8", errors="surrogateescape",
                           env={**os.environ, "PYTHONPATH": impl_root(), "PYTHONIOENCODING": "utf-8", "PYTHONDONTWRITEBYTECODE": "1"}, cwd="/", timeout=120)  # fmt: skip
        return r.returncode, r.stdout, r.stderr
    out, err, old = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = [mod, *args]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                runpy.run_module("explorerscript.cli." + mod, run_name="__main__", alter_sys=False)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                code = 1
                print(f"{type(e).__name__}: {e}", file=err)
    finally:
        sys.argv = old
    return code, out.getvalue(), err.getvalue()


def impl_root():
    import explorerscript

    return os.path.dirname(os.path.dirname(os.path.abspath(explorerscript.__file__)))


def json_param(p):
    k = p[0]
    if k == "i":
        return p[1]
    if k == "c":
        return {"type": "CONSTANT", "value": p[1]}
    if k == "f":
        return {"type": "FIXED_POINT", "value": L.frac_lit(p[1], p[2])}
    if k == "s":
        return {"type": "CONST_STRING", "value": p[1]}
    if k == "l":
        return {"type": "LANG_STRING", "value": dict(p[1])}
    return {"type": "POSITION_MARK", "value": {"name": p[1], "x": f"{p[4]}{'.5' if p[2] else ''}", "y": f"{p[5]}{'.5' if p[3] else ''}"}}


def read_param(x, **data):
    """A documented argument as a value of the specification."""
    if type(x) is int:
        return ("i", x)
    if isinstance(x, dict) and set(x) == {"type", "value"}:
        t, v = x["type"], x["value"]
        if t == "FIXED_POINT" and isinstance(v, str):
            return L.dec_value(v)
        if t == "CONSTANT" and isinstance(v, str):
            return ("c", v)
        if t == "CONST_STRING" and isinstance(v, str):
            return ("s", v)
        if t == "LANG_STRING" and isinstance(v, dict) and all(isinstance(a, str) for kv in v.items() for a in kv):
            return ("l", tuple(v.items()))
        if t == "POSITION_MARK" and isinstance(v, dict) and set(v) == {"name", "x", "y"} and isinstance(v["name"], str):
            xy = []
            for k in "xy":
                a = str(v[k]) if isinstance(v[k], (int, float, str)) else "?"
                b = a[:-2] if a.endswith(".5") else a
                if not b.lstrip("-").isdigit():
                    raise Bad("coordinate of a position mark is no number", param=repr(x), **data)
                xy.append((int(b), 2 if a.endswith(".5") else 0))
            return ("p", v["name"], xy[0][1], xy[1][1], xy[0][0], xy[1][0])
    raise Bad("parameter is not documented", param=repr(x), **data)


def read_doc(doc, **data):
    """A documented JSON structure as a routine set (offset of an op = its 1-based position)."""
    if set(doc) != {"settings", "routines"} or doc["settings"] != SETTINGS or not isinstance(doc["routines"], list):
        raise Bad("structure of the document", **data)
    rs = {"infos": [], "coros": [], "ops": []}
    pos = 0
    for r in doc["routines"]:
        t = r.get("type")
        extra = {"COROUTINE": {"name"}, "GENERIC": set()}.get(t, {"target_id"})
        if t not in KINDS or set(r) != {"type", "ops"} | extra:
            raise Bad("structure of a routine", routine=repr(r)[:300], **data)
        tgt = None
        if "target_id" in r:
            if type(r["target_id"]) not in (int, str):
                raise Bad("target of a routine is neither a string nor an integer", target=repr(r["target_id"]), **data)
            tgt = ("i", r["target_id"]) if type(r["target_id"]) is int else ("c", r["target_id"])
        if "name" in r and not isinstance(r["name"], str):
            raise Bad("name of a coroutine is no string", name=repr(r["name"]), **data)
        rs["infos"].append((KINDS[t], tgt))
        rs["coros"].append(r.get("name"))
        rt = []
        for o in r["ops"]:
            if set(o) != {"opcode", "params"} or not isinstance(o["opcode"], str) or not isinstance(o["params"], list):
                raise Bad("structure of an operation", op=repr(o)[:300], **data)
            pos += 1
            rt.append((pos, o["opcode"], [read_param(p, **data) for p in o["params"]]))
        rs["ops"].append(rt)
    return rs


def doc_of(rs, rng=None):
    """A routine set whose offsets are the 1-based positions as a documented structure."""
    rts = []
    for (k, t), name, ops in zip(rs["infos"], rs["coros"], rs["ops"]):
        r = {"type": TYPES[k]}
        if k == "coro":
            r["name"] = name
        elif k != "gen":
            r["target_id"] = t[1]
        r["ops"] = []
        for _, n, ps in ops:
            qs = [json_param(p) for p in ps]
            if rng:
                for p in qs:
                    if isinstance(p, dict) and p["type"] == "POSITION_MARK":
                        v = p["value"]
                        for c in "xy":
                            if rng.random() < 0.6:
                                v[c] = float(v[c]) if "." in v[c] else int(v[c])
            r["ops"].append({"opcode": n, "params": qs})
        rts.append(r)
    return {"settings": SETTINGS, "routines": rts}


def write(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w", encoding="utf-8", newline="") as h:
        h.write(text)
    return p


def same_program(rs, out, sig, **data):
    """The text out of the decompile command behaves like the routine set."""
    try:
        c = impl.compile_text(out)
    except impl.ALLOWED as e:
        raise Bad(sig + ": text is rejected", error=repr(e), **data)
    if common.table_of_compiled(c) != common.table_of_rs(rs):
        raise Bad(sig + ": routine table differs", a=common.table_of_rs(rs), b=common.table_of_compiled(c), **data)
    try:
        l1, e1 = sem.ssb_lts(rs["ops"])
        l2, e2 = sem.ssb_lts(c.ops)
    except sem.SsbBad as e:
        raise Bad(sig + ": not closed", error=str(e), **data)
    common.same_behaviour(l1, e1, l2, e2, sig + ": behaves differently", eq=common.dm_eq, **data)


def decompile_doc(d, doc, text, rs, sub, **data):
    f = write(d, "in.json", text)
    sm = os.path.join(d, "out.sm")
    code, out, err = cli("decompile", f, "--source-map", sm, sub=sub)
    if code != 0:
        raise Bad("the decompile command rejects a documented structure", status=code, stderr=err[-2000:], **data)
    if not out.endswith("\n"):
        raise Bad("no text printed", stdout=out, **data)
    if not sub:
        # (a process has its standard output in text mode: carriage returns of strings can't be compared there)
        same_program(rs, out, "decompiled program", text=out, **data)
    try:
        with open(sm, encoding="utf-8") as h:
            impl.SourceMap.deserialize(h.read())
    except (OSError, ValueError) as e:
        raise Bad("no source map", error=repr(e), **data)


def check_compile(p, sub, st):
    """A project (of texts) through both commands."""
    data = p.describe()
    with proj.scratch() as d:
        p.write(d)
        main = os.path.join(d, p.main)
        with open(main, encoding="utf-8") as h:
            read = h.read()
        try:
            want = impl.compile_text(read, main, [os.path.join(d, x) for x in p.lookup])
        except impl.ALLOWED:
            want = None
        settings = write(d, "settings.json", json.dumps({"settings": SETTINGS}))
        sm = os.path.join(d, "out.sm")
        lookup = []
        if p.lookup:
            look = [os.path.join(d, x) for x in p.lookup]
            lookup = ["--lookup", *look] if st["i"] % 2 else [a for x in look for a in ("--lookup", x)]
        code, out, err = cli("compile", main, "--settings", settings, "--source-map", sm, *lookup, sub=sub)
        data.update(stdout=out[:6000], stderr=err[-2000:], status=code)
        if want is None:
            st["stat"]["rejected programs"] += 1
            if code == 0:
                raise Bad("status 0 for a rejected program", **data)
            if out.strip() != "":
                raise Bad("something printed on stdout for a rejected program", **data)
            return
        if code != 0:
            raise Bad("the compile command fails for an accepted program", **data)
        try:
            doc = json.loads(out)
        except ValueError as e:
            raise Bad("stdout is not JSON", error=str(e), **data)
        rs = read_doc(doc, **data)
        if common.table_of_rs(rs) != common.table_of_compiled(want):
            raise Bad("printed routines differ", got=common.table_of_rs(rs), expected=common.table_of_compiled(want), **data)
        pos = {}
        for r in want.ops:
            for o in r:
                pos[o[0]] = len(pos) + 1
        dropped = max(pos, default=0) > len(pos)
        st["stat"]["with gaps" if dropped else "without gaps"] += 1
        for a, b in zip(want.ops, rs["ops"]):
            if len(a) != len(b):
                raise Bad("number of printed operations differs", **data)
            for (_, n, ps), (i, n2, ps2) in zip(a, b):
                ps = list(ps)
                if n in sem.JUMP_PARAM_KINDS:
                    ps[-1] = ("i", pos[ps[-1][1]])
                if n != n2 or sem.VS(ps) != sem.VS(ps2) or len(ps) != len(ps2):
                    raise Bad("printed operation differs", position=i, expected=(n, ps), got=(n2, ps2), **data)
        if not os.path.exists(sm):
            raise Bad("no source map written", **data)
        with open(sm, encoding="utf-8") as h:
            if impl.SourceMap.deserialize(h.read()).serialize() != want.source_map.serialize():
                raise Bad("written source map is not the one of the compiler", **data)
        # the source map and the lookup paths are optional
        if not p.lookup and st["i"] % 5 == 0:
            c2, o2, _ = cli("compile", main, "--settings", settings, sub=sub)
            if (c2, o2) != (0, out):
                raise Bad("other output without --source-map", again=o2, **data)
        if gen.well_formed(rs) or common.unspellable(rs):
            st["stat"]["not fed back"] += 1
            return
        decompile_doc(d, doc, out, rs, sub, **data)


def text_project(text):
    p = proj.Project()
    p.texts = {"main.exps": text}
    return p


def t_program(rng, st, sub=False):
    g = gen.ProgGen(rng, depth=rng.randint(0, 3), width=rng.randint(1, 3), wild=rng.random() < 0.2)
    prog = g.program()
    for r in prog.routines:
        if r.kind in ("actor", "object", "performer") and r.target[0] == "i" and rng.random() < 0.3:
            r.target = ("i", rng.choice([-1, 0, -5, 300]))
    try:
        text = L.to_text(prog)
    except L.LangError:
        raise Skip("not spellable")
    if "\r" in text:
        raise Skip("carriage returns (read as line feeds from files)")
    st["h"] = text
    check_compile(text_project(text), sub, st)


def t_project(rng, st, sub=False):
    p = proj.random_project(rng)
    p.render(rng)
    st["h"] = p.texts
    check_compile(p, sub, st)


def t_broken(rng, st, sub=False):
    g = gen.ProgGen(rng, depth=1, width=2)
    text = L.to_text(g.program())
    a = rng.randrange(len(text) + 1)
    text = rng.choice([text[:a], text[:a] + rng.choice(["}", "break;", "jump @nowhere;", "\"", "~m();", "import \"x.exps\";"]) + text[a:], text + "def 9 { continue; }"])
    st["h"] = text
    check_compile(text_project(text), sub, st)


def t_ssbscript(rng, st, sub=False):
    """SsbScript files in the compile command."""
    from checks.C07 import any_set

    rs = any_set(rng)
    if common.unspellable(rs):
        raise Skip(common.UNSPELLABLE)
    text = "//?: is-ssb-script: true\n" + impl.decompile_ssbscript(rs)[0]
    if "\r" in text:
        raise Skip("carriage returns (read as line feeds from files)")
    st["h"] = text
    check_compile(text_project(text), sub, st)


def t_doc(rng, st, sub=False):
    rs = gen.random_rs(rng, size=rng.choice([3, 6, 10, 16]), routines=rng.choice([1, 2, 3, 4]), cross=0.05, calls=rng.random() < 0.3, loops=0.2)
    if rng.random() < 0.3:
        v = gen.Vals(rng)
        for r in rs["ops"]:
            for o in r:
                if o[1] not in sem.JUMP_PARAM_KINDS and o[1].startswith(("op", "debug", "camera", "WaitE", "x")):
                    o[2].append(v.pos())
    k = 0
    m = {}
    for r in rs["ops"]:
        for o in r:
            k += 1
            m[o[0]] = k
    rs["ops"] = [[(m[o], n, [*ps[:-1], ("i", m[ps[-1][1]])] if n in sem.JUMP_PARAM_KINDS else list(ps)) for o, n, ps in r] for r in rs["ops"]]
    bad = gen.well_formed(rs)
    if bad or common.unspellable(rs):
        raise Skip("not well-formed")
    for i, (kind, t) in enumerate(rs["infos"]):
        if kind not in ("gen", "coro") and rng.random() < 0.3:
            rs["infos"][i] = (kind, ("i", rng.choice([-1, 0, 1000])))
    doc = doc_of(rs, rng)
    text = json.dumps(doc, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
    st["h"] = text
    with proj.scratch() as d:
        decompile_doc(d, doc, text, rs, sub, document=text[:6000])


def bad_documents():
    """Documents that are not accepted end with another status than 0."""
    ok = {"settings": SETTINGS, "routines": [{"type": "GENERIC", "ops": [{"opcode": "a", "params": []}, {"opcode": "Return", "params": []}]}]}
    bads = [{}, {"settings": SETTINGS}, {"routines": ok["routines"]}, {**ok, "settings": {}}, {**ok, "settings": {"performance_progress_list_var_name": "$X"}},
            {**ok, "settings": {**SETTINGS, "dungeon_mode_constants": {"open": "A"}}}, {**ok, "routines": [{"type": "GENERIC"}]}, {**ok, "routines": [{"ops": []}]},
            {**ok, "routines": [{"type": "WHAT", "ops": []}]}, {**ok, "routines": [{"type": "COROUTINE", "ops": []}]}, {**ok, "routines": [{"type": "ACTOR", "ops": []}]},
            {**ok, "routines": [{"type": "GENERIC", "ops": [{"opcode": "a"}]}]}, {**ok, "routines": [{"type": "GENERIC", "ops": [{"params": []}]}]},
            {**ok, "routines": [{"type": "GENERIC", "ops": [{"opcode": "a", "params": [None]}]}]}, {**ok, "routines": [{"type": "GENERIC", "ops": [{"opcode": "a", "params": [{"type": "X", "value": 1}]}]}]},
            {**ok, "routines": [{"type": "GENERIC", "ops": [{"opcode": "a", "params": [{"value": 1}]}]}]}]  # fmt: skip
    with proj.scratch() as d:
        for b in bads:
            code, out, _ = cli("decompile", write(d, "b.json", json.dumps(b)))
            if code == 0 or out.strip():
                raise Bad("status 0 or output for a document that can not be read", document=b, status=code, stdout=out)
        for args in ([os.path.join(d, "none.json")], [write(d, "c.json", "{")], []):
            code, out, _ = cli("decompile", *args)
            if code == 0 or out.strip():
                raise Bad("status 0 for a missing or unreadable document", args=args)
        code, out, err = cli("decompile", write(d, "ok.json", json.dumps(ok)))
        if code != 0:
            raise Bad("the decompile command rejects a documented structure", status=code, stderr=err)
        src = write(d, "a.exps", "def 0 { a(); return; }\n")
        good = write(d, "s.json", json.dumps({"settings": SETTINGS}))
        for b in bads[:1] + bads[2:6]:
            code, out, _ = cli("compile", src, "--settings", write(d, "bs.json", json.dumps(b)))
            if code == 0 or out.strip():
                raise Bad("status 0 for settings that can not be read", settings=b, status=code)
        for args in ([src], [os.path.join(d, "none.exps"), "--settings", good], [src, "--settings", os.path.join(d, "none.json")], ["--settings", good]):
            code, out, _ = cli("compile", *args)
            if code == 0 or out.strip():
                raise Bad("status 0 for missing files or arguments", args=args)


def example():
    """The documented example."""
    root = os.environ.get("VP_REPO", "/repo")
    main = os.path.join(root, "example/SCRIPT/base.exps")
    if not os.path.exists(main):
        raise Skip("no example")
    with proj.scratch() as d:
        s = write(d, "s.json", json.dumps({"settings": SETTINGS}))
        code, out, err = cli("compile", main, "--settings", s, "--lookup", os.path.join(root, "example/macros"), sub=True)
        if code != 0:
            raise Bad("the documented example does not compile", stderr=err)
        rs = read_doc(json.loads(out))
        decompile_doc(d, None, out, rs, False)


if __name__ == "__main__":
    ck = Check("C15")
    n = 1 if ck.quick else 25
    ck.start_vc()
    ck.case("documents that can not be read", bad_documents)
    ck.case("documented example", example)
    ck.run("programs", t_program, 2000 * n)
    ck.run("projects", t_project, 700 * n)
    ck.run("rejected programs", t_broken, 500 * n)
    ck.run("SsbScript", t_ssbscript, 500 * n)
    ck.run("documents", t_doc, 2500 * n)
    for nm, t in (("programs", t_program), ("projects", t_project), ("rejected programs", t_broken), ("documents", t_doc)):
        ck.run(nm + " in processes", lambda rng, st, t=t: t(rng, st, sub=True), 24 * n)
    ck.finish()
