"""C03: every compilation result is a closed, uniquely addressed op list."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402


def closed(c, arity=False, **data):
    """arity: the source writes every jump-carrying op with the parameters of its kind, so the target comes right behind them."""
    ops = c.raw.routine_ops
    n = len(ops)
    if not (len(c.raw.routine_infos) == n and len(c.raw.named_coroutines) == n):
        raise Bad("routine tables differ in length", lens=(len(c.raw.routine_infos), len(c.raw.named_coroutines), n), **data)
    if any(i is None for i in c.infos):
        raise Bad("routine without info", infos=c.infos, **data)
    offs = {}
    for ri, r in enumerate(ops):
        for i, o in enumerate(r):
            if type(o).__name__ != "SsbOperation":
                raise Bad("internal pseudo operation left in the result", routine=ri, index=i, type=type(o).__name__, **data)
            if not isinstance(o.offset, int) or isinstance(o.offset, bool):
                raise Bad("offset is not a number", routine=ri, index=i, offset=repr(o.offset), **data)
            if o.offset in offs:
                raise Bad("offset used twice", offset=o.offset, a=offs[o.offset], b=(ri, i), **data)
            offs[o.offset] = (ri, i)
    for ri, r in enumerate(ops):
        for i, o in enumerate(r):
            if o.op_code.name in sem.JUMP_PARAM_KINDS:
                t = o.params[-1] if o.params else None
                if arity and len(o.params) != sem.JUMP_PARAM_KINDS[o.op_code.name] + 1:
                    raise Bad("jump target is not behind the op's own parameters", routine=ri, index=i, op=o.op_code.name, params=repr(o.params), **data)
                if not isinstance(t, int) or t not in offs:
                    raise Bad("jump target is not an op of the result", routine=ri, index=i, op=o.op_code.name, params=repr(o.params), offsets=sorted(offs), **data)


def compile_closed(st, t, file="/nonexistent/x.exps", fn=None, arity=False):
    st["h"] = t
    try:
        c = fn() if fn else impl.compile_text(t, file)
    except impl.ALLOWED as e:
        raise Skip("rejected: " + type(e).__name__)
    closed(c, arity, source=t)


def trial(rng, st):
    g = gen.ProgGen(rng, depth=rng.randint(0, 4), width=rng.randint(1, 3))
    p = g.program()
    compile_closed(st, L.to_text(p), arity=True)


def t_odd(rng, st):
    """Programs with labels at ends, dropped jumps, jumps into other routines and macros; many are rejected."""
    labs = ["l0", "l1", "l2"]
    free = list(labs)

    def stmt(d):
        x = rng.random()
        if x < 0.2:
            return "a();"
        if x < 0.4 and free:
            return "\u00a7" + free.pop(rng.randrange(len(free))) + ";"
        if x < 0.7:
            return rng.choice(["jump", "jump", "call"]) + " @" + rng.choice(labs) + ";"
        if x < 0.8:
            return rng.choice(["return;", "end;", "hold;"])
        if x < 0.86 and mac:
            return "~m();"
        if d <= 0:
            return "b();"
        b = lambda: " ".join(stmt(d - 1) for _ in range(rng.randint(0, 2)))  # noqa
        return rng.choice([
            lambda: f"if {rng.choice(['', 'not '])}(debug) {{ {b()} }}", lambda: f"if (debug || edit) {{ {b()} }} else {{ {b()} }}",
            lambda: f"forever {{ {b()} {rng.choice(['break_loop;', '', 'continue;'])} }}", lambda: f"while {rng.choice(['', 'not '])}(debug) {{ {b()} }}",
            lambda: f"for (i(); debug; n();) {{ {b()} }}",
            lambda: f"switch ($A) {{ case 1: {b()} {rng.choice(['', 'break;'])} case 2: case 3: {b()} default: {b()} break; }}",
            lambda: f"if ($A == {rng.randint(0, 30)}) {{ {b()} }} {b()}",
            lambda: f"switch ($A) {{ case {rng.randint(0, 30)}: {b()} break; case > {rng.randint(0, 30)}: {b()} }}",
        ])()  # fmt: skip

    mac = rng.random() < 0.4
    n = rng.choice([1, 2, 2, 3])
    bodies = [[stmt(2) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    while free and rng.random() < 0.97:
        rng.choice(bodies).append("\u00a7" + free.pop() + ";")
    t = "macro m() { if (debug) { return; } q(); " + rng.choice(["", "return;", "if (edit) { return; }", "\u00a7k; jump @k;", "jump @k; \u00a7k;"]) + " }\n" if mac else ""
    for i, b in enumerate(bodies):
        t += f"def {i} " + ("{ " + " ".join(b) + " }\n" if i == 0 or rng.random() < 0.93 else "alias previous;\n")
    compile_closed(st, t, arity=True)


def t_proj(rng, st):
    p = proj.random_project(rng)
    st["h"] = p.texts
    with proj.scratch() as root:
        p.write(root)
        try:
            c = p.compile(root)
        except impl.ALLOWED:
            raise Skip("rejected")
        closed(c, True, project=p.describe())


def t_ssbs(rng, st):
    rs = gen.random_rs(rng, size=rng.choice([3, 6, 10, 20]), routines=rng.choice([1, 2, 3]), coherent=False, cross=0.3)
    t, _ = impl.decompile_ssbscript(rs)
    st["h"] = t
    compile_closed(st, t, fn=lambda: impl.compile_ssbscript(t))
    compile_closed(st, "//?: is-ssb-script: true\n" + t)


def t_ssbs_raw(rng, st):
    """SsbScript written by hand: labels anywhere, also at ends of routines, defined late or never."""
    labs = [f"l{i}" for i in range(4)]
    free = list(labs)
    t = ""
    for i in range(rng.choice([1, 2, 3])):
        if i and rng.random() < 0.15:
            t += f"def {i} alias previous;\n"
            continue
        t += f"def {i} {{ "
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < 0.35 and free:
                t += "\u00a7" + free.pop(rng.randrange(len(free))) + "; "
            elif x < 0.8:
                t += rng.choice(["Jump(%)", "Jump(%)", "Call(%)", "Branch($A, 1, %)", "Case(3, %)", "Jump(7, %)", "Jump(%, 7)", "CaseMenu('x', %)", "BranchSum($A, 1, 2, %)", "Foo(1, %)", "Jump(%, %)"]).replace("%", "@" + rng.choice(labs)) + "; "
            else:
                t += rng.choice(["a();", "Return();", "Return();", "End();", "a();", "Foo();", "Branch($A, 1);" if rng.random() < 0.2 else "b();"]) + " "
        t += "}\n"
    while free and rng.random() < 0.9:
        t = t.rstrip()
        if not t.endswith("}"):
            break
        t = t[:-1] + "\u00a7" + free.pop() + "; b(); }\n"
    st["h"] = t
    compile_closed(st, t, fn=lambda: impl.compile_ssbscript(t))


if __name__ == "__main__":
    ck = Check("C03")
    n = 1 if ck.quick else 20
    ck.start_vc()
    ck.run("all", trial, 5000 * n)
    ck.run("odd", t_odd, 10000 * n)
    ck.run("projects", t_proj, 2500 * n)
    ck.run("ssbscript", t_ssbs, 2500 * n)
    ck.run("ssbscript raw", t_ssbs_raw, 6000 * n)
    ck.finish()
