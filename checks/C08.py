"""C08: every emitted op maps to where it was written."""
import os
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402
from explorerscript.included_usage_map import IncludedUsageMap  # noqa: E402


def positions(pos):
    return set(pos[1:]) if pos and pos[0] == "any" else {pos}


def check_project(p, st, style_rng=None):
    data = {"project": p.describe()}
    try:
        progs = p.parse()
        it, ents = p.meaning(progs)
    except sem.Meaningless as e:
        raise Skip("meaningless: " + str(e)[:30])
    with proj.scratch() as root:
        p.write(root)
        try:
            c = p.compile(root)
        except impl.ALLOWED:
            raise Skip("rejected")
        check_compiled(p, progs, it, ents, c, root, st, data)


def check_compiled(p, progs, it, ents, c, root, st, data):
    sm = c.source_map
    main_abs = os.path.join(root, p.main)
    data["source map"] = str(sm)[:4000]
    data["ops"] = [[str(o) for o in r] for r in c.ops]
    try:
        l2, e2 = sem.ssb_lts(c.ops)
    except sem.SsbBad:
        raise Skip("not closed")
    paired: dict[int, list] = {}

    def on_pair(ra, rb):
        m, off = it.lts.meta[ra], l2.meta[rb]
        if m is not None and off != "end" and off is not None:
            if not any(x is m for x in paired.setdefault(off, [])):
                paired[off].append(m)

    try:
        if common.table_of_compiled(c) != [(k, tg, nm if k == "coro" else None) for k, _, tg, nm, _ in ents]:
            raise Skip("not the same program")
        common.same_behaviour(it.lts, common.entries(ents), l2, e2, "x", on_pair=on_pair)
    except Bad:
        raise Skip("behaves differently (C01)")
    offs = [o for r in c.ops for o, _, _ in r]
    name_of = {o: n for r in c.ops for o, n, _ in r}
    direct = {o: m for o, m in sm if not hasattr(m, "macro_name")}
    macro = {o: m for o, m in sm.collect_mappings__macros()}
    for o in offs:
        if sm.get_op_line_and_col(o) is None:
            raise Bad("emitted op without source map entry", offset=o, **data)
        if o in direct and o in macro:
            raise Bad("op has a direct and a macro entry", offset=o, **data)
    expansions: dict[int, dict] = {}

    def rel(tag):
        if tag == p.main:
            return None
        return os.path.relpath(os.path.join(root, tag), os.path.dirname(main_abs))

    for o, ms in paired.items():
        for pos, ch in ms:
            pl = positions(pos)
            if ch is None:
                if o not in direct:
                    raise Bad("op of the compiled file has a macro entry", offset=o, expected=sorted(pl), **data)
                if (direct[o].line, direct[o].column) not in pl:
                    raise Bad("entry is not where the statement begins", offset=o, op=name_of[o], expected=sorted(pl), got=(direct[o].line, direct[o].column), **data)
            else:
                call, m, tag, parent = ch
                if o not in macro:
                    raise Bad("op of a macro has a direct entry", offset=o, expected=(tag, m.name, sorted(pl)), **data)
                e = macro[o]
                got = (None if e.relpath_included_file is None else os.path.normpath(e.relpath_included_file), e.macro_name)
                if got != (rel(tag), m.name):
                    raise Bad("macro entry names another file or macro", offset=o, expected=(rel(tag), m.name), got=got, **data)
                if (e.line, e.column) not in pl:
                    raise Bad("macro entry is not where the statement begins", offset=o, op=name_of[o], expected=sorted(pl), got=(e.line, e.column), **data)
                x = ch
                while x is not None:
                    expansions.setdefault(id(x), {"chain": x, "ops": set()})["ops"].add(o)
                    x = x[3]
    st["stat"]["paired ops"] += len(paired)
    st["stat"]["expansions"] += len(expansions)

    def call_pos(x):
        call, m, tag, parent = x
        return (None if parent is None else rel(parent[2]), call.pos[0], call.pos[1])

    srt = sorted(offs)
    for x in expansions.values():
        lo, hi = min(x["ops"]), max(x["ops"])
        ch = x["chain"]
        # ---- call position on the first op
        ok = {call_pos(ch)}
        for y in expansions.values():
            if y is not x and (y["ops"] <= x["ops"] or x["ops"] <= y["ops"]):
                z = y["chain"]
                while z is not None and z is not ch:
                    z = z[3]
                up = ch
                while up is not None and up is not y["chain"]:
                    up = up[3]
                if z is ch or up is y["chain"]:
                    ok.add(call_pos(y["chain"]))
        cand = []
        for o in reversed(srt):
            if o > lo:
                continue
            if o < lo and (o in direct or (o in paired and o not in x["ops"])):
                break
            cand.append(o)
        got = [tuple(macro[o].called_in) for o in cand if o in macro and macro[o].called_in]
        got = [((None if g[0] is None else os.path.normpath(g[0])), g[1], g[2]) for g in got]
        if cand[-1] not in paired and not any(g in ok for g in got):
            # (the first op is a silent jump, maybe of an inner expansion that is otherwise unreachable)
            def calls(m, tag, seen):
                for s in common.walk(m.body or []):
                    if isinstance(s, L.MacroCall) and s.name not in seen:
                        ok.add((rel(tag), s.pos[0], s.pos[1]))
                        calls(*it.macros[s.name], seen | {s.name})

            calls(ch[1], ch[2], {ch[1].name})
        if not any(g in ok for g in got):
            raise Bad("first op of an expansion does not carry the position of the call", macro=ch[1].name, first=lo, expected=sorted(ok, key=str), got=got, **data)
        # ---- return address: entries of the innermost expansion
        inner = [o for o in x["ops"] if any(mm[1] is ch for mm in paired[o])]
        after = None
        i = srt.index(hi) + 1
        if i < len(srt):
            o = srt[i]
            if (o in paired and o not in x["ops"]) or o in direct:
                after = o
        for o in inner:
            ra = macro[o].return_addr
            if not isinstance(ra, int) or ra <= hi:
                raise Bad("return address does not lie after the expansion", macro=ch[1].name, offset=o, last=hi, got=ra, **data)
            if after is not None and ra > after:
                raise Bad("return address lies after the first op following the expansion", macro=ch[1].name, offset=o, following=after, got=ra, **data)
    # ---- files
    used = {os.path.normpath(os.path.join(os.path.dirname(main_abs), e.relpath_included_file)) for o, e in macro.items() if o in name_of and e.relpath_included_file is not None}
    inc = {os.path.normpath(x) for x in IncludedUsageMap(sm, main_abs).included_files}
    if used != inc:
        raise Bad("included files differ from the files that contributed ops", expected=sorted(used), got=sorted(inc), **data)
    if any(o not in name_of for o in macro) and any(o not in paired for o in offs):
        st["stat"]["with dropped macro ops"] += 1
    # ---- position marks
    emitted = {v[1:] for r in c.ops for _, _, ps in r for v in ps if v[0] == "p"}
    recorded = {(m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) for m in sm.get_position_marks__direct()}
    recorded |= {(m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) for _, _, m in sm.get_position_marks__macros()}
    if emitted != recorded:
        raise Bad("recorded position marks differ from the emitted ones", emitted=sorted(emitted), recorded=sorted(recorded), **data)
    if not any(isinstance(s, L.MacroCall) and any(v[0] == "p" for v in s.args) for f in p.files.values() for b in [*f.routines, *f.macros] for s in common.walk(b.body or [])):
        # (a mark given to a macro is written once and emitted for every use of the parameter)
        st["stat"]["marks counted"] += len(emitted)
        e2 = sorted(v[1:] for r in c.ops for _, _, ps in r for v in ps if v[0] == "p")
        r2 = sorted((m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) for m in [*sm.get_position_marks__direct(), *(m for _, _, m in sm.get_position_marks__macros())])
        if e2 != r2:
            raise Bad("position marks are not recorded as often as they are emitted", emitted=e2, recorded=r2, **data)


def trial(rng, st):
    p = proj.random_project(rng, used_args=True)
    st["h"] = p.texts
    check_project(p, st)


def t_local(rng, st):
    p = proj.random_project(rng, files=0, used_args=True, macros=rng.choice([1, 2, 3]))
    st["h"] = p.texts
    check_project(p, st)


def t_plain(rng, st):
    p = proj.Project()
    g = gen.ProgGen(rng, depth=rng.randint(0, 4), width=rng.randint(1, 3))
    p.files["main.exps"] = g.program()
    p.edges["main.exps"] = []
    p.render(rng)
    st["h"] = p.texts
    check_project(p, st)


if __name__ == "__main__":
    ck = Check("C08")
    n = 1 if ck.quick else 20
    ck.start_vc()
    ck.run("projects", trial, 5000 * n)
    ck.run("local macros", t_local, 4000 * n)
    ck.run("plain", t_plain, 5000 * n)
    ck.finish()
