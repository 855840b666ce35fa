"""C10: compilation fails only in documented ways and rejects meaningless programs."""
import json
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import gen, impl, lang as L, proj  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402
from checks import C15  # noqa: E402

SWITCH_TEXT = ("message_SwitchTalk", "message_SwitchMonologue")


# ------------------------------------------------------------------------------------ what is statically meaningless
class Static:
    """The reasons (from the property's list) for which a program is meaningless. visible: macros of imported files."""

    def __init__(self, prog, visible=()):
        self.why = []
        macros = {n: m for n, m in visible}
        macros.update((m.name, m) for m in prog.macros)
        self.macros = macros
        self.calls = {}
        for m in prog.macros:
            self.labels, self.uses, self.called = set(), set(), set()
            self.body(m.body or [], False, False)
            self.calls[m.name] = self.called
            self.undefined()
        self.labels, self.uses, self.called = set(), set(), set()
        for r in prog.routines:
            self.body(r.body or [], False, False)
        self.undefined()
        for n in self.calls:
            seen, todo = set(), list(self.calls[n])
            while todo:
                x = todo.pop()
                if x == n:
                    self.why.append("recursive macro")
                    break
                if x not in seen:
                    seen.add(x)
                    todo += self.calls.get(x, ())

    def undefined(self):
        if self.uses - self.labels:
            self.why.append("jump or call to an undefined label")

    def conds(self, cs):
        for c in cs:
            if c.kind == "bit" and c.a[0] and c.a[1] != ("c", impl.PPL):
                self.why.append("`not` on a bit test of an ordinary variable")

    def body(self, stmts, loop, case):
        for s in stmts:
            self.stmt(s, loop, case)

    def stmt(self, s, loop, case):
        w = self.why.append
        if isinstance(s, L.Label):
            self.labels.add(s.name)
        elif isinstance(s, L.Ctl):
            if s.kind == "break" and not case:
                w("break outside a switch case")
            if s.kind in ("continue", "break_loop") and not loop:
                w(s.kind + " outside a loop")
        elif isinstance(s, (L.Jump, L.Call)):
            self.uses.add(s.label)
        elif isinstance(s, L.With):
            if isinstance(s.stmt, L.Label):
                w("label inside a with-block")
                self.labels.add(s.stmt.name)
            else:
                self.stmt(s.stmt, loop, case)
        elif isinstance(s, L.If):
            for _, cs, b in s.branches:
                self.conds(cs)
                self.body(b, loop, case)
            self.body(s.els or [], loop, case)
        elif isinstance(s, L.Switch):
            if sum(c.header is None for c in s.cases) > 1:
                w("two defaults")
            if s.cases and isinstance(s.cases[-1].body, list) and not s.cases[-1].body:
                w("a switch ending in an empty case")
            for c in s.cases:
                if isinstance(c.body, list):
                    self.body(c.body, loop, True)
        elif isinstance(s, L.MsgSwitch):
            if sum(c.header is None for c in s.cases) > 1:
                w("two defaults")
            for c in s.cases:
                if isinstance(c.body, list):
                    w("statements inside a message switch")
                    self.body(c.body, loop, case)
        elif isinstance(s, L.Forever):
            self.body(s.body, True, case)
        elif isinstance(s, L.While):
            self.conds([s.cond])
            self.body(s.body, True, case)
        elif isinstance(s, L.For):
            self.conds([s.cond])
            self.stmt(s.init, loop, case)
            self.stmt(s.inc, True, case)
            self.body(s.body, True, case)
        elif isinstance(s, L.MacroCall):
            self.called.add(s.name)
            m = self.macros.get(s.name)
            if m is None:
                w("unknown macro")
            elif len(s.args) < len(m.params):
                w("too few macro arguments")


def compile_any(text, data, file_name="/nonexistent/x.exps", lookup=None):
    """Compiles; the result or None when it was rejected in a documented way."""
    try:
        return impl.compile_text(text, file_name, lookup)
    except impl.ALLOWED:
        return None
    except Exception as e:
        raise Bad("undocumented exception " + type(e).__name__, error=repr(e)[:300], **data)


def judge(text, st, data):
    try:
        prog = L.parse(text)
        why = [] if prog.imports else Static(prog).why
    except L.LangError:
        prog, why = None, []
    except RecursionError:
        prog, why = None, []
    c = compile_any(text, data)
    st["stat"]["rejected" if c is None else "accepted"] += 1
    if prog is not None and why:
        st["stat"]["meaningless"] += 1
        for w in set(why):
            st["stat"]["why: " + w] += 1
        if c is not None:
            raise Bad("meaningless program accepted: " + sorted(set(why))[0], why=why, ops=str(c.ops)[:1500], **data)


# ------------------------------------------------------------------------------------------------------- mutations
def all_bodies(prog):
    out = []

    def rec(b, kind):
        out.append((b, kind))
        for s in b:
            if isinstance(s, (L.If, L.Switch, L.Forever, L.While, L.For)):
                for x in gen.bodies(s):
                    if isinstance(x, list):
                        rec(x, type(s).__name__)
    for x in list(prog.macros) + list(prog.routines):
        if x.body is not None:
            rec(x.body, type(x).__name__)
    return out


def all_stmts(prog, *types):
    return [(b, i) for b, _ in all_bodies(prog) for i, s in enumerate(b) if isinstance(s, types)]


def conds_of(prog):
    out = []
    for b, _ in all_bodies(prog):
        for s in b:
            if isinstance(s, L.If):
                out += [(cs, i) for _, cs, _ in s.branches for i in range(len(cs))]
    return out


def mutate(rng, prog):
    b, _ = rng.choice(all_bodies(prog))
    at = rng.randint(0, len(b))
    k = rng.choice(["break", "continue", "break_loop", "jump", "call", "unlabel", "empty case", "default", "message", "with", "not", "not",
                    "unknown", "recursive", "few", "few", "swap"])  # fmt: skip
    if k in ("break", "continue", "break_loop"):
        if rng.random() < 0.2:
            b.insert(at, L.With("actor", ("c", "A"), L.Ctl(k)))
        else:
            b.insert(at, L.Ctl(k))
    elif k in ("jump", "call"):
        lab = rng.choice(["nowhere", "l1", "A"])
        s = L.Jump(lab) if k == "jump" else L.Call(lab)
        b.insert(at, s if rng.random() < 0.8 else L.With("actor", ("c", "A"), s))
    elif k == "unlabel":
        ls = all_stmts(prog, L.Label)
        if not ls:
            return mutate(rng, prog)
        x, i = rng.choice(ls)
        x[i] = L.Op("was_label", [])
    elif k == "empty case":
        ss = [x[i] for x, i in all_stmts(prog, L.Switch) if x[i].cases]
        if ss and rng.random() < 0.6:
            rng.choice(ss).cases[-1].body = []
        else:
            cs = [L.Case(L.CaseHeader("value", (("i", n),)), [L.Op("f", [])]) for n in range(rng.randint(0, 2))]
            cs.append(L.Case(L.CaseHeader("value", (("i", 8),)) if rng.random() < 0.5 else None, []))
            b.insert(at, L.Switch(L.SwitchHeader("value", (("c", "$V"),)), cs))
    elif k == "default":
        ss = [x[i] for x, i in all_stmts(prog, L.Switch, L.MsgSwitch) if x[i].cases]
        if not ss:
            b.insert(at, L.Switch(L.SwitchHeader("value", (("c", "$V"),)), [L.Case(None, [L.Op("f", [])]), L.Case(None, [L.Op("g", [])])]))
        else:
            s = rng.choice(ss)
            for _ in range(rng.randint(1, 2)):
                body = ("s", "x") if isinstance(s, L.MsgSwitch) else rng.choice([[L.Op("f", [])], []])
                s.cases.insert(rng.randint(0, len(s.cases)), L.Case(None, body))
    elif k == "message":
        cs = [L.Case(L.CaseHeader("value", (("i", n),)), ("s", "x")) for n in range(rng.randint(0, 2))]
        cs.insert(rng.randint(0, len(cs)), L.Case(rng.choice([None, L.CaseHeader("value", (("i", 5),))]), rng.choice([[L.Op("f", [])], [L.Op("f", []), L.Ctl("break")], []])))
        b.insert(at, L.MsgSwitch(rng.choice(SWITCH_TEXT), ("i", 1), cs))
    elif k == "with":
        b.insert(at, L.With(rng.choice(["actor", "object", "performer"]), ("i", 1), L.Label(rng.choice(["w1", "w2"]))))
    elif k == "not":
        c = L.Cond("bit", (True, rng.choice([("c", "$V"), ("c", "$SCENARIO_MAIN"), ("c", "VAR"), ("i", 3)]), rng.randint(0, 9)))
        cs = conds_of(prog)
        w = rng.random()
        if w < 0.4 and cs:
            x, i = rng.choice(cs)
            x[i] = c
        elif w < 0.6:
            b.insert(at, L.While(rng.random() < 0.5, c, [L.Op("f", [])]))
        elif w < 0.8:
            b.insert(at, L.If([(rng.random() < 0.5, [L.Cond("bit", (False, ("c", "$V"), 1)), c], [L.Op("f", [])])], None))
        else:
            b.insert(at, L.If([(False, [c], [L.Op("f", [])])], [L.Op("g", [])]))
    elif k == "unknown":
        b.insert(at, L.MacroCall(rng.choice(["nope", "m", "M0"]), []))
    elif k == "recursive":
        if not prog.macros:
            m = L.Macro("rec", [], [L.MacroCall("rec", [])])
            prog.macros.append(m)
            prog.order.insert(rng.randint(0, len(prog.order)), m)
        else:
            m1, m2 = rng.choice(prog.macros), rng.choice(prog.macros)
            m2.body.insert(rng.randint(0, len(m2.body)), L.MacroCall(m1.name, [("i", 1)] * len(m1.params)))
    elif k == "few":
        cs = [x[i] for x, i in all_stmts(prog, L.MacroCall) if x[i].args]
        if cs:
            c = rng.choice(cs)
            del c.args[rng.randrange(len(c.args)):]
        else:
            m = L.Macro("few", ["$a", "$b"][: rng.randint(1, 2)], [L.Op("f", [("c", "$a")] if rng.random() < 0.5 else [])])
            prog.macros.append(m)
            prog.order.insert(rng.randint(0, len(prog.order)), m)
            b.insert(at, L.MacroCall("few", [("i", 1)] * rng.randrange(len(m.params))))
    elif k == "swap":
        x, _ = rng.choice(all_bodies(prog))
        b[at:at], x[:] = x[:], x[:]
    return k


def t_mutant(rng, st):
    """A generated program with meaningless constructs put in at random places."""
    p = proj.random_project(rng, files=0, macros=rng.choice([0, 1, 2, 3]), depth=rng.choice([0, 1, 2]))
    prog = p.files["main.exps"]
    ks = [mutate(rng, prog) for _ in range(rng.choice([1, 1, 1, 2]))]
    try:
        text = L.to_text(prog, L.Style(rng))
    except (AttributeError, TypeError, ValueError, KeyError):
        raise Skip("not printable")
    st["h"] = text
    for k in ks:
        st["stat"]["mutation " + k] += 1
    judge(text, st, {"text": text, "mutations": ks})


TOKENS = ["def", "coro", "macro", "if", "else", "elseif", "switch", "case", "default", "while", "for", "forever", "with", "actor", "object",
          "performer", "for_actor", "break", "continue", "break_loop", "return", "end", "hold", "jump", "call", "alias", "previous", "not", "debug",
          "edit", "variation", "random", "sector", "dungeon_mode", "menu", "menu2", "value", "scn", "clear", "reset", "init", "scenario",
          "dungeon_result", "adventure_log", "message_SwitchTalk", "message_SwitchMonologue", "import", "Position", "TRUE", "FALSE", "(", ")", "{",
          "}", "[", "]", "<", ">", ";", ":", ",", "=", "==", "!=", "<=", ">=", "&", "^", "||", "+=", "-=", "*=", "/=", "@", "§", "~", "@l1", "§x", "$V",
          impl.PPL, "0", "1", "-1", "99999999999999999999", "1.5", "-0.0", ".5", "0x1F", "0b2", "0o7", "'a'", '"b"', "'''", '"""', "'", '"', "\\", "/*",
          "*/", "//", "\n", "\t", "\x00", "é", "{english='a',}", "{a=1}", "...", "def 0 { x(); }", "macro m($a) { b($a); }", "~m(1);", "@l;", "jump @l;"]  # fmt: skip


def corrupt(rng, text):
    w = rng.random()
    try:
        toks = [t.text for t in L.lex(text)] if w < 0.75 else None
    except L.LangError:
        toks = None
    if not toks:
        cs = list(text)
        for _ in range(rng.choice([1, 1, 2, 3, 8])):
            i = rng.randint(0, len(cs))
            r = rng.random()
            if r < 0.4 and cs:
                del cs[i : i + rng.choice([1, 1, 2, 10])]
            elif r < 0.7:
                cs.insert(i, rng.choice(list("(){}[]<>;:,.=@§~$'\"\\/*-+0123456789 \n\r\tabXé\x00\ud800\U0001f600") + TOKENS))
            elif cs:
                j = rng.randint(0, len(cs))
                cs[i:i] = cs[j : j + rng.randint(1, 30)]
        if rng.random() < 0.1:
            cs = cs[: rng.randint(0, len(cs))]
        return "".join(cs)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        i = rng.randrange(len(toks) + 1)
        r = rng.random()
        if r < 0.3:
            del toks[i : i + rng.choice([1, 1, 1, 2, 5])]
        elif r < 0.55:
            toks.insert(i, rng.choice(TOKENS))
        elif r < 0.75 and i < len(toks):
            toks[i] = rng.choice(TOKENS + toks)
        elif r < 0.85 and len(toks) > 1:
            j = rng.randrange(len(toks))
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        else:
            j = rng.randrange(len(toks))
            toks[i:i] = toks[j : j + rng.randint(1, 12)]
        if not toks:
            break
    return " ".join(toks)


def some_text(rng):
    w = rng.random()
    if w < 0.55:
        p = proj.random_project(rng, files=0, macros=rng.choice([0, 1, 2]), depth=rng.choice([0, 1, 2]))
        return p.texts["main.exps"]
    if w < 0.75:
        return L.to_text(gen.flat_program(rng, empty=0.2), L.Style(rng))
    rs = gen.random_rs(rng, size=rng.randint(1, 12), routines=rng.randint(1, 3))
    try:
        t = (impl.decompile_ssbscript if w < 0.9 else impl.decompile)(rs)[0]
    except Exception:
        raise Skip("no text")
    return t


def t_corrupt(rng, st):
    text = some_text(rng)
    for _ in range(2):
        text = corrupt(rng, text)
        st["h"] = text
        judge(text, st, {"text": text})


def t_ssbscript(rng, st):
    """SsbScript texts behind the marker comment: documented exceptions, undefined jump targets are rejected."""
    rs = gen.random_rs(rng, size=rng.randint(1, 10), routines=rng.randint(1, 3))
    body = impl.decompile_ssbscript(rs)[0]
    data = {}
    if rng.random() < 0.4:
        ls = sorted(set(re.findall(r"[@§][A-Za-z_0-9]+", body)))
        if not ls:
            raise Skip("no labels")
        x = rng.choice(ls)
        lines = [ln for ln in body.split("\n") if ln.strip() not in (f"§{x[1:]};", f"@{x[1:]};")]
        body = "\n".join(lines)
        used = any(t in ln for ln in lines for t in (x[1:] + ")", x[1:] + " )"))
        expect = used and not any(ln.strip() in (f"§{x[1:]};", f"@{x[1:]};") for ln in lines)
    else:
        body, expect = corrupt(rng, body), False
    mark = rng.choice(["//?: is-ssb-script: true\n", "//?:is-ssb-script:1\n", "// x\n//?: is-ssb-script: true\n", "//?: is-ssb-script: \n", "//?: is-ssb-script\n", "//?: x: y\n", ""])
    text = mark + body
    st["h"] = text
    data["text"] = text
    c = compile_any(text, data)
    st["stat"]["rejected" if c is None else "accepted"] += 1
    try:
        c2 = impl.compile_ssbscript(body)
    except impl.ALLOWED:
        c2 = None
    except Exception as e:
        raise Bad("SsbScript: undocumented exception " + type(e).__name__, error=repr(e)[:300], text=body)
    if expect and (c2 is not None or c is not None and "is-ssb-script: true" in mark):
        raise Bad("SsbScript: jump to an undefined label accepted", **data)


def t_degenerate(rng, st):
    """Programs of routines that hold next to nothing, odd routine IDs."""
    parts = []
    stm = ["@l;", "@l; @k;", "jump @l;", "call @l;", "return;", "end;", "hold;", "f();", "forever { }", "forever { continue; }", "forever { break_loop; }",
           "if (debug) { }", "if (debug) { @l; }", "if (debug) { jump @l; } else { }", "if not (debug) { return; } elseif (edit) { } else { @k; }",
           "while (debug) { }", "while not (debug) { @k; }", "for ($a = 1; $a < 3; $a += 1) { }", "switch ($a) { }", "switch ($a) { case 1: @l; }",
           "switch ($a) { case 1: case 2: break; }", "switch ($a) { case 1: default: break; case 2: break; }", "with (actor 1) { return; }",
           "with (actor 1) { jump @l; }", "message_SwitchTalk (1) { }", "message_SwitchTalk (1) { default: 'x' }", "~m();", "~n(1, 2);", "~o();",
           "f<actor 1>();", "$a = 1;", "switch (f()) { case 1: break; }", "switch (f<actor 1>()) { case 1: break; }", "switch (value(1)) { case 1: break; }",
           "$a[1] = 0;", "$a[1] += 2;", "$a = value(1);", "clear $a;", "reset scn($a);", "$a = scn[1, 2];", "switch (scn($a)[7]) { case 1: f(); }"]  # fmt: skip
    for _ in range(rng.randint(1, 4)):
        w = rng.random()
        n = rng.choice([0, 1, 1, 2, 3])
        body = " ".join(rng.choice(stm) for _ in range(n))
        head = rng.choice(["def 0", "def 0", "def 1", "def 2", "def 5", "def 0x1", "def 0 for actor 1", "def 1 for_object X", "coro A", "coro B", "macro m()", "macro n($a, $b)", "macro o()", "def -1", "def 00", "def 99999999999"])
        parts.append(f"{head} {{ {body} }}" if w < 0.9 else f"{head} {{ alias previous; }}" if w < 0.95 else body)
    text = "\n".join(parts)
    st["h"] = text
    judge(text, st, {"text": text})


# --------------------------------------------------------------------------------------------------------- imports
def t_imports(rng, st):
    """Import graphs: missing files, cycles, files with routines, lookup paths, meaningless code behind an import."""
    p = proj.random_project(rng, files=rng.choice([1, 2, 3, 4]), macros=rng.randint(1, 4), depth=0)
    names = [f for f in p.files]
    k = rng.choice(["missing", "cycle", "cycle", "routine", "routine", "bad macro", "unknown", "alias", "directory", "none", "ssbscript", "corrupt", "relative lookup"])
    f = rng.choice(names)
    expect = True
    tx = p.texts

    def imp_to(f, t):
        rel = os.path.relpath(t, os.path.dirname(f) or ".")
        opts = [rel if rel.startswith(".") else "./" + rel, "{ROOT}/" + t]
        for lp in p.lookup:
            if t.startswith(lp + "/"):
                opts.append(t[len(lp) + 1:])
        return rng.choice(opts)

    reach = {"main.exps"} | set(proj.closure(p, "main.exps"))
    f = rng.choice(sorted(reach))
    if k == "missing":
        bad = rng.choice(["./nope.exps", "nope.exps", "../nope/x.exps", "{ROOT}/nope.exps", "lib/nope.exps", "a/../b.exps", "..", ".", "/", "./lib", "b..exps", "\\x00", ""])
        tx[f] = f"import '{bad}';\n" + tx[f] if rng.random() < 0.5 else tx[f] + ""
        if not tx[f].startswith(f"import '{bad}'"):
            tx[f] = f"import \"{bad}\";\n" + tx[f]
        st["stat"]["missing " + bad] += 1
    elif k == "cycle":
        # an edge from a reachable file back to one of the files that import it (or itself)
        anc = [x for x in sorted(reach) if x == f or f in proj.closure(p, x)]
        t = rng.choice(anc)
        tx[f] = f"import '{imp_to(f, t)}';\n" + tx[f]
    elif k == "routine":
        fs = sorted(reach - {"main.exps"})
        if not fs:
            raise Skip("no imported file")
        f = rng.choice(fs)
        r = rng.choice(["def 0 { f(); }", "coro X { f(); }", "def 0 for actor A { f(); }", "def 0 { alias previous; }", "def 7 { f(); }", "def 0 { @l; }", "def 0 for_performer 1 { return; }"])
        tx[f] = tx[f] + "\n" + r if rng.random() < 0.5 or "import" in tx[f] else r + "\n" + tx[f]
    elif k == "bad macro":
        b = rng.choice(["break;", "continue;", "break_loop;", "jump @zz;", "call @zz;", "switch ($a) { case 1: }", "switch ($a) { default: f(); default: g(); }", "~zz();",
                        "message_SwitchTalk (1) { case 1: f(); }", "with (actor 1) { @zz; }", "if (not $a[1]) { f(); }", "~bad_macro();", "forever { break; }", "switch ($a) { case 1: continue; }"])  # fmt: skip
        tx[f] = tx[f] + "\nmacro bad_macro() { f(); " + b + " }\n"
    elif k == "unknown":
        # a macro defined only in a file that is not imported
        tx[f] = tx[f] + "\nmacro calls_unknown() { ~only_elsewhere(); }\n"
        p.decoys["elsewhere.exps"] = "macro only_elsewhere() { f(); }\n"
    elif k == "alias":
        p.decoys["ssb.exps"] = "//?: is-ssb-script: true\ndef 0 { f(); }\n"
        tx[f] = f"import '{imp_to(f, 'ssb.exps')}';\n" + tx[f]
    elif k == "directory":
        p.decoys["dir/x.exps"] = "macro x() { f(); }\n"
        tx[f] = f"import '{imp_to(f, 'dir')}';\n" + tx[f]
    elif k == "relative lookup":
        p.decoys["lp1/sub/x.exps"] = "macro x() { f(); }\n"
        p.lookup = ["lp1"]
        tx[f] = f"import 'sub/../sub/x.exps';\n" + tx[f]
        expect = False
    elif k == "corrupt":
        tx[f] = corrupt(rng, tx[f])
        expect = False
    else:
        expect = False
    st["h"] = (sorted(tx.items()), k)
    st["stat"]["import case " + k] += 1
    data = {"project": p.describe(), "case": k, "file": f}
    with proj.scratch() as root:
        p.write(root)
        main = os.path.join(root, p.main)
        cwd = os.getcwd()
        how = rng.random()
        lookup = [os.path.join(root, x) for x in p.lookup]
        try:
            if how < 0.25:
                os.chdir(root)
                main = rng.choice(["./main.exps", "main.exps"]) if rng.random() < 0.7 else main
            elif how < 0.4:
                link = os.path.join(root, "link")
                os.symlink(root, link)
                main = os.path.join(link, p.main)
            data["main"] = main
            c = compile_any(tx[p.main].replace("{ROOT}", root), data, main, lookup)
        finally:
            os.chdir(cwd)
    if c is None:
        st["stat"]["rejected"] += 1
    elif expect:
        raise Bad("project accepted: " + k, ops=str(c.ops)[:1500], **data)
    else:
        st["stat"]["accepted"] += 1


def t_cli(rng, st, sub=False):
    """The compile CLI on meaningless programs: no output, an error status, a documented exception."""
    p = proj.random_project(rng, files=0, macros=rng.choice([0, 1]), depth=1)
    prog = p.files["main.exps"]
    mutate(rng, prog)
    try:
        text = L.to_text(prog, L.Style(rng))
        why = Static(L.parse(text)).why
    except (AttributeError, TypeError, ValueError, KeyError, L.LangError):
        raise Skip("not printable")
    if not why:
        raise Skip("not meaningless")
    st["h"] = text
    with proj.scratch() as d:
        f = C15.write(d, "x.exps", text)
        s = C15.write(d, "s.json", json.dumps({"settings": C15.SETTINGS}))
        code, out, err = C15.cli("compile", f, "--settings", s, sub=sub)
    if code == 0 or out.strip():
        raise Bad("CLI: output for a meaningless program", text=text, why=why, code=code, out=out[:500], err=err[:500])


def nesting():
    """Deep nesting ends in a result or a documented exception."""
    for n in (30, 120, 400):
        for a, b in (("if (debug) {", "}"), ("forever {", "}"), ("switch ($a) { case 1: ", "}"), ("while (debug) { f();", "}"), ("with (actor 1) {", "}")):
            t = "def 0 { " + a * n + " f(); " + b * n + " }"
            compile_any(t, {"text": t[:200], "n": n})
        for t in ("def 0 { f(" + "(" * n + "); }", "def 0 { f(" + "{a=" * n + "); }", "(" * n, "{" * n, "def 0 {" * n, "f(" * n, "[" * n):
            compile_any(t, {"text": t[:200], "n": n})
        t = "".join(f"macro m{i}() {{ {'~m%d();' % (i + 1) if i + 1 < n else 'f();'} }}\n" for i in range(n)) + "def 0 { ~m0(); }"
        compile_any(t, {"text": t[:200], "n": n})


def listed():
    """The shapes the property names, one by one, in routines, macros and nested blocks."""
    bad = ["break;", "continue;", "break_loop;", "jump @u;", "call @u;", "switch ($a) { case 1: }", "switch ($a) { default: }", "switch ($a) { case 1: f(); case 2: }",
           "switch ($a) { default: f(); default: g(); }", "switch ($a) { default: f(); case 1: default: g(); }", "message_SwitchTalk (1) { default: 'a' default: 'b' }",
           "message_SwitchMonologue (1) { case 1: f(); }", "message_SwitchTalk (1) { default: f(); }", "message_SwitchTalk (1) { case 1: 'a' case 2: f(); }", "with (actor 1) { @w; }",
           "if (not $a[1]) { f(); }", "if not (not $a[1]) { f(); }", "if (debug || not $a[1]) { f(); }", "if (debug) { f(); } elseif (not $a[1]) { f(); }",
           "while (not $a[1]) { f(); }", "while not (not $a[1]) { f(); }", "~unknown();", "~rec();", "~reca();", "~few();", "~few(1);", "with (actor 1) { break; }",
           "with (actor 1) { continue; }", "with (actor 1) { jump @u; }"]  # fmt: skip
    macros = "macro few($a, $b) { f($a); }\n"
    wraps = ["{}", "if (debug) {{ {} }}", "if (debug) {{ f(); }} else {{ {} }}", "if not (edit) {{ {} }}", "f(); {} g();"]
    loops = ["forever {{ {} }}", "while (debug) {{ {} }}", "while not (debug) {{ {} }}", "for ($a = 0; $a < 2; $a += 1) {{ {} }}"]
    cases = ["switch ($a) {{ case 1: {} f(); }}", "switch ($a) {{ case 1: f(); default: {} f(); }}", "switch (f()) {{ default: {} f(); case 2: f(); }}"]
    n = 0
    for b in bad:
        ws = list(wraps)
        if b not in ("continue;", "break_loop;", "with (actor 1) { continue; }"):
            ws += loops
        if b not in ("break;", "with (actor 1) { break; }"):
            ws += cases
        for w in ws:
            s = w.format(b)
            extra = macros
            if "~rec()" in b:
                extra += "macro rec() { if (debug) { ~rec(); } }\n"
            if "~reca" in b:
                extra += "macro reca() { ~recb(); }\nmacro recb() { f(); switch ($a) { default: ~reca(); } }\n"
            for t in (extra + "def 0 { " + s + " }", extra + "coro A { f(); }\ncoro B { " + s + " }", "def 0 { f(); }\n" + extra + "macro host($a) { " + s + " }",
                      "macro host() { " + s + " }\n" + extra + "def 0 { ~host(); }"):  # fmt: skip
                n += 1
                c = compile_any(t, {"text": t})
                if c is not None:
                    raise Bad("meaningless program accepted (listed shapes)", text=t, ops=str(c.ops)[:1000])
    # after a proper loop or case ended, and in macros called from one
    for t in ("def 0 { forever { f(); } continue; }", "def 0 { forever { f(); } break_loop; }", "def 0 { switch ($a) { case 1: break; } break; }",
              "macro m() { break; } def 0 { switch ($a) { case 1: ~m(); } }", "macro m() { continue; } def 0 { forever { ~m(); } }",
              "macro m() { break_loop; } def 0 { while (debug) { ~m(); } }", "def 0 { forever { f(); } } def 1 { continue; }", "def 0 { switch ($a) { case 1: break; } } def 1 { break; }",
              "def 0 { while (debug) { if (edit) { f(); } } break_loop; }", "def 0 { for ($a = 0; $a < 2; $a += 1) { f(); } continue; }",
              "macro m() { @in_macro; f(); } def 0 { ~m(); jump @in_macro; }", "macro m() { jump @outer; } def 0 { @outer; ~m(); }"):  # fmt: skip
        n += 1
        if compile_any(t, {"text": t}) is not None:
            raise Bad("meaningless program accepted (listed shapes)", text=t)
    return n


if __name__ == "__main__":
    ck = Check("C10")
    ck.start_vc()
    q = ck.quick
    ck.bounds = ["random programs, corruptions and import graphs (fixed seed)"]
    ck.case("listed", listed)
    ck.case("nesting", nesting)
    ck.run("mutants", t_mutant, 5000 if q else 60000)
    ck.run("corrupted", t_corrupt, 4000 if q else 60000)
    ck.run("ssbscript", t_ssbscript, 2500 if q else 30000)
    ck.run("degenerate", t_degenerate, 6000 if q else 80000)
    ck.run("imports", t_imports, 2500 if q else 30000)
    ck.run("cli", t_cli, 300 if q else 3000)
    ck.run("cli in processes", lambda rng, st: t_cli(rng, st, sub=True), 24 if q else 300)
    ck.finish()
