"""C09: the decompiler's source map points at the statement printed for each op."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402

HEADS = {"if", "elseif", "while", "for", "switch", "case", "default", "with", "message_SwitchTalk", "message_SwitchMonologue"}
CONTROL = {"jump", "break", "continue", "break_loop", "return", "end", "hold", "call"}


def positions(pos):
    return set(pos[1:]) if pos and pos[0] == "any" else {pos}


def entries_of(sm):
    return {o: (m.line, m.column) for o, m in sm}


def check_entries_are_input(sm, rs, **data):
    offs = {o: n for r in rs["ops"] for o, n, _ in r}
    for o in sm:
        if o not in offs:
            raise Bad("entry for an offset that no input op has", offset=o, **data)
    return offs


def check_ssbscript(rs, out, sm, c, **data):
    """Every op is its own statement there."""
    e1, e2 = entries_of(sm), entries_of(c.source_map)
    check_entries_are_input(e1, rs, **data)
    lines = out.split("\n")
    flat = [o for r in rs["ops"] for o in r]
    flat2 = [o for r in c.ops for o in r]
    if len(flat) != len(flat2):
        raise Skip("not the same ops (C07)")
    for (o, n, _), (o2, n2, _) in zip(flat, flat2):
        if o not in e1:
            raise Bad("printed op without entry", offset=o, op=n, **data)
        ln, col = e1[o]
        if not (0 <= ln < len(lines)) or not lines[ln][col:].startswith(n + "(") or lines[ln][:col].strip(" ") != "":
            raise Bad("entry is not where the operation is printed", offset=o, op=n, entry=e1[o], **data)
        if e2.get(o2) != e1[o]:
            raise Bad("compiling the text places the op elsewhere", offset=o, op=n, entry=e1[o], compiled=e2.get(o2), **data)


def check_structured(rs, out, sm, st, **data):
    e1 = entries_of(sm)
    data["entries"] = repr(e1)
    name = check_entries_are_input(e1, rs, **data)
    try:
        q = L.parse(out)
        it = sem.Interp(impl.PPL)
        ents = it.program(q)
        c = impl.compile_text(out)
        l1, en1 = sem.ssb_lts(rs["ops"])
        l2, en2 = sem.ssb_lts(c.ops)
    except (L.LangError, sem.Meaningless, sem.SsbBad, *impl.ALLOWED):
        raise Skip("text is not accepted (C02)")
    toks = [t for t in L.lex(out) if t.kind != "eof"]
    tokpos = [t.pos for t in toks]
    import bisect

    def heads(pos):
        """Position of the keyword of the header that contains pos."""
        i = bisect.bisect_right(tokpos, pos) - 1
        if toks[i].text in ("case", "default", "switch", "with"):
            return {pos}
        while i >= 0 and toks[i].text not in HEADS:
            i -= 1
        return {pos, tokpos[i]} if i >= 0 else {pos}

    want: dict[int, set] = {}
    own: dict[int, bool] = {}

    def pair1(ra, rb):
        o, m = l1.meta[ra], it.lts.meta[rb]
        if o in (None, "end") or m is None:
            return
        s = want.setdefault(o, set())
        node = it.lts.nodes[rb]
        if node[0] == "test" and node[1][0] != "Call" or node[1][0].startswith(("Switch", "CaseText", "DefaultText")) or node[1][0] in HEAD_OPS:
            for p in positions(m[0]):
                s |= heads(p)
        else:
            s |= positions(m[0])
            own[o] = True

    comp: dict[int, set] = {}

    def pair2(ra, rb):
        if l1.meta[ra] not in (None, "end") and l2.meta[rb] not in (None, "end"):
            comp.setdefault(l1.meta[ra], set()).add(l2.meta[rb])

    try:
        common.same_behaviour(l1, en1, it.lts, common.entries(ents), "x", eq=common.dm_eq, on_pair=pair1)
        common.same_behaviour(l1, en1, l2, en2, "x", eq=common.dm_eq, on_pair=pair2)
    except Bad:
        raise Skip("behaves differently (C02)")
    for o, ps in want.items():
        if o in e1:
            if e1[o] not in ps:
                raise Bad("entry is not where the statement is printed", offset=o, op=name[o], entry=e1[o], expected=sorted(ps), **data)
        elif own.get(o):
            raise Bad("op printed as its own statement has no entry", offset=o, op=name[o], expected=sorted(ps), **data)
    e2 = entries_of(c.source_map)
    for o, o2s in comp.items():
        if o in e1 and not any(x in e2 and e2[x][0] == e1[o][0] for x in o2s):
            raise Bad("compiling the text places the op on another line", offset=o, op=name[o], entry=e1[o], compiled=[e2.get(x) for x in sorted(o2s)], **data)
    starts = {t.pos: t.text for t in toks}
    for o, e in e1.items():
        if o in want:
            continue
        st["stat"]["silent/unreachable entries"] += 1
        if e not in starts:
            raise Bad("entry does not point at a token", offset=o, op=name[o], entry=e, **data)
        t = starts[e]
        ok = t in CONTROL or t == name[o] or t in HEADS if name[o] == "Jump" or name[o] == "Return" else True
        if name[o] == "Jump" and t not in CONTROL:
            raise Bad("entry of a jump does not point at a jump statement", offset=o, entry=e, token=t, **data)
    st["stat"]["pairs"] += len(want)


HEAD_OPS = {"message_SwitchMenu", "message_SwitchMenu2", "ProcessSpecial", "message_Menu", "main_EnterAdventure", "main_EnterRescueUser", "main_EnterTraining",
            "main_EnterTraining2", "message_SwitchTalk", "message_SwitchMonologue", "lives", "object", "performer", "CaseText", "DefaultText"}  # fmt: skip


def check_rs(rs, st, **data):
    if gen.well_formed(rs):
        raise Skip("not well-formed")
    data["routines"] = common.show(rs)
    try:
        out, sm = impl.decompile(rs)
    except Exception:
        raise Skip("decompiler raised (C06)")
    data["text"] = out
    if out.startswith("//?: is-ssb-script"):
        st["stat"]["fallback"] += 1
        try:
            c = impl.compile_text(out)
        except impl.ALLOWED:
            raise Skip("fallback rejected (C06)")
        return check_ssbscript(rs, out, sm, c, **data)
    check_structured(rs, out, sm, st, **data)


def t_sets(rng, st, **kw):
    rs = gen.random_rs(rng, size=rng.choice([3, 6, 10, 16, 28]), routines=rng.choice([1, 1, 2, 3]), **kw)
    st["h"] = rs["ops"]
    check_rs(rs, st)


def t_plain(rng, st):
    t_sets(rng, st, cross=0, calls=False, loops=0)


def t_loops(rng, st):
    t_sets(rng, st, cross=0, calls=rng.random() < 0.3, loops=0.5)


def t_wild(rng, st):
    t_sets(rng, st, cross=0.1, calls=rng.random() < 0.2, loops=0.3, wild=True)


def t_comp(rng, st):
    g = gen.ProgGen(rng, depth=rng.randint(0, 3), width=rng.randint(1, 3), wild=rng.random() < 0.3)
    try:
        t = L.to_text(g.program())
        c = impl.compile_text(t)
    except (L.LangError, *impl.ALLOWED):
        raise Skip("rejected")
    st["h"] = t
    check_rs(gen.renumber(impl.to_routine_set(c), rng), st, source=t)


def t_ssbs(rng, st):
    from checks.C07 import any_set

    rs = any_set(rng)
    st["h"] = rs["ops"]
    if common.unspellable(rs):
        raise Skip(common.UNSPELLABLE)
    out, sm = impl.decompile_ssbscript(rs)
    try:
        c = impl.compile_ssbscript(out)
    except Exception:
        raise Skip("rejected (C07)")
    check_ssbscript(rs, out, sm, c, routines=common.show(rs), text=out)


if __name__ == "__main__":
    ck = Check("C09")
    n = 1 if ck.quick else 25
    ck.start_vc()
    ck.run("plain", t_plain, 2000 * n)
    ck.run("loops", t_loops, 2000 * n)
    ck.run("wild", t_wild, 1500 * n)
    ck.run("compiled", t_comp, 1500 * n)
    ck.run("ssbscript", t_ssbs, 2000 * n)
    ck.finish()
