"""C14: source maps survive storage and offset rewriting."""
import json
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402

from explorerscript.source_map import MacroSourceMapping, SourceMap, SourceMapping, SourceMapPositionMark  # noqa: E402


def same(a, b):
    """Equality of content and type (a tuple is no list, 1 is no True)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def mark(m):
    return [m.line_number, m.column_number, m.end_line_number, m.end_column_number, m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative]


def direct(m):
    return [type(m).__name__, m.line, m.column]


def macro(m):
    return [type(m).__name__, m.relpath_included_file, m.macro_name, m.line, m.column, m.called_in, m.return_addr, dict(m.parameter_mapping)]


def tables(sm):
    """Everything the documented accessors give (not the private tables)."""
    macros = dict(sm.collect_mappings__macros())
    n = len(macros)
    every = list(sm)
    dirs = every[: len(every) - n]
    if [k for k, _ in every[len(dirs) :]] != list(macros):
        raise Bad("iterating does not give the direct and then the macro entries", entries=repr(every))
    return {
        "map": {k: direct(v) for k, v in dirs},
        "macros": {k: macro(v) for k, v in macros.items()},
        "marks": [mark(m) for m in sm.get_position_marks__direct()],
        "macro marks": [[a, b, mark(m)] for a, b, m in sm.get_position_marks__macros()],
    }


def check_lookup(sm, t, **data):
    for k in list(t["map"]) + list(t["macros"]) + [-1, 10**6]:
        d, m, a = sm.get_op_line_and_col__direct(k), sm.get_op_line_and_col__macros(k), sm.get_op_line_and_col(k)
        ok = same(t["map"].get(k), d and direct(d)) and same(t["macros"].get(k), m and macro(m))
        want = d if k in t["map"] else m
        if not ok or not ((want is None and a is None) or (a is not None and want is not None and (macro(a) == macro(want) if isinstance(want, MacroSourceMapping) else direct(a) == direct(want)))):
            raise Bad("lookup of an offset differs from the table", offset=k, **data)


def check_storage(sm, rng, **data):
    t = tables(sm)
    check_lookup(sm, t, **data)
    for pretty in (False, True):
        text = sm.serialize(pretty)
        if not same(tables(sm), t):
            raise Bad("serialising changes the map", **data)
        try:
            json.loads(text)
        except ValueError:
            raise Bad("serialised map is not JSON", text=text, **data)
        back = SourceMap.deserialize(text)
        t2 = tables(back)
        for k in t:
            if not same(t[k], t2[k]):
                raise Bad("deserialised map has other " + k, text=text, original=repr(t[k]), back=repr(t2[k]), **data)
        if not (back == sm) or not (sm == back) or back != sm:
            raise Bad("deserialised map does not compare equal", text=text, **data)
        if back.serialize(pretty) != text:
            raise Bad("serialising again gives another text", text=text, again=back.serialize(pretty), **data)
    if str(sm) != sm.serialize():
        raise Bad("text of the map is not its serialisation", **data)


def check_rewrite(sm, mp, **data):
    t = tables(sm)
    given = dict(mp)
    try:
        sm.rewrite_offsets(mp)
    except Exception as e:
        raise Bad("rewriting raised", error=f"{type(e).__name__}: {e}", **data)
    if mp != given:
        raise Bad("rewriting changed the mapping", **data)
    t2 = tables(sm)

    def addr(a):
        if a is None:
            return [None]
        later = [o for o in given if o >= a]
        # (where neither the op nor a later one survives nothing is said)
        return [given[min(later)]] if later else None

    for k in ("marks", "macro marks"):
        if not same(t[k], t2[k]):
            raise Bad("rewriting offsets changed the " + k, before=repr(t[k]), after=repr(t2[k]), **data)
    if t2["map"] != {given[o]: v for o, v in t["map"].items() if o in given}:
        raise Bad("direct entries are not at the new offsets of their ops", before=repr(t["map"]), after=repr(t2["map"]), **data)
    want = {given[o]: v for o, v in t["macros"].items() if o in given}
    if set(want) != set(t2["macros"]):
        raise Bad("macro entries are not at the new offsets of their ops", before=repr(t["macros"]), after=repr(t2["macros"]), **data)
    for o, v in want.items():
        got = t2["macros"][o]
        if not same(v[:6] + v[7:], got[:6] + got[7:]):
            raise Bad("macro entry changed", entry=repr(v), after=repr(got), **data)
        w = addr(v[6])
        if w is not None and got[6] not in w:
            raise Bad("return address is not the new offset of its op", entry=repr(v), after=got[6], expected=w, **data)


def text_of(rng):
    return rng.choice(["", "a", "m", "Macro_1", "päth/ü.exps", 'q"\\\n', "../x/y.exps", "\u2028", "\U0001f600", "0", "None"]) if rng.random() < 0.9 else gen.wild_text(rng)


def num(rng):
    return rng.choice([0, 0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 300), rng.randint(-5, 100000)])


def any_mark(rng):
    return SourceMapPositionMark(num(rng), num(rng), num(rng), num(rng), text_of(rng), rng.choice([0, 2, 4, num(rng)]), num(rng), num(rng), num(rng))


def well_typed(x):
    return not any(0xD800 <= ord(c) < 0xE000 for c in x)


def any_map(rng, offs):
    d, m = {}, {}
    for o in offs:
        r = rng.random()
        if r < 0.45 or r > 0.95:
            d[o] = SourceMapping(num(rng), num(rng))
        if r >= 0.45 and r < 0.9 or r > 0.95:
            call = None if rng.random() < 0.5 else (rng.choice([None, text_of(rng)]), num(rng), num(rng))
            ra = None if rng.random() < 0.1 else rng.choice([0, rng.choice(offs), rng.randint(0, max(offs) + 2)])
            m[o] = MacroSourceMapping(rng.choice([None, text_of(rng)]), text_of(rng), num(rng), num(rng), call, ra,
                                      {text_of(rng): rng.choice([num(rng), text_of(rng)]) for _ in range(rng.choice([0, 0, 1, 3]))})  # fmt: skip
    if rng.random() < 0.3:
        d = dict(sorted(d.items(), key=lambda _: rng.random()))
    return SourceMap(d, [any_mark(rng) for _ in range(rng.choice([0, 1, 3]))], m,
                     [(rng.choice([None, text_of(rng)]), text_of(rng), any_mark(rng)) for _ in range(rng.choice([0, 1, 3]))])  # fmt: skip


def any_mapping(rng, offs):
    kind = rng.choice(["id", "words", "drop", "mix", "mix", "few", "none", "shift", "perm"])
    olds = [o for o in range(0, max(offs) + 1) if o in offs or rng.random() < 0.5]
    if kind == "id":
        return {o: o for o in olds}
    if kind == "words":
        return {o: 4 + 3 * i for i, o in enumerate(olds)}
    if kind == "none":
        return {}
    if kind == "shift":
        return {o: o + 1 for o in olds}
    if kind == "perm":
        new = list(olds)
        rng.shuffle(new)
        return dict(zip(olds, new))
    p = {"drop": 0.15, "mix": 0.4, "few": 0.9}[kind]
    olds = [o for o in olds if rng.random() >= p]
    new = rng.sample(range(0, 3 * len(olds) + 2), len(olds)) if kind != "drop" else list(range(len(olds)))
    if rng.random() < 0.5:
        z = list(zip(olds, new))
        rng.shuffle(z)
        return dict(z)
    return dict(zip(olds, new))


def t_any(rng, st):
    offs = sorted(rng.sample(range(0, 40), rng.randint(1, 14)))
    if rng.random() < 0.15:
        offs = [o + rng.choice([0, 1000]) for o in offs]
    sm = any_map(rng, sorted(set(offs)))
    text = sm.serialize()
    if not well_typed(repr(tables(sm)).encode("unicode_escape").decode("unicode_escape", "replace")):
        raise Skip("surrogates")
    st["h"] = text
    check_storage(sm, rng, map=text)
    mp = any_mapping(rng, sorted(set(offs)))
    check_rewrite(sm, mp, map=text, mapping=repr(mp))
    check_storage(sm, rng, map="after rewriting " + text + " through " + repr(mp))
    if rng.random() < 0.3:
        offs2 = sorted(set(mp.values()) | {0})
        mp2 = any_mapping(rng, offs2)
        check_rewrite(sm, mp2, map="after rewriting " + text + " through " + repr(mp), mapping=repr(mp2))


def t_compiled(rng, st):
    """Maps of compiled macro projects."""
    p = proj.random_project(rng, files=rng.choice([0, 1, 2, 3]), used_args=rng.random() < 0.5)
    p.render(rng)
    st["h"] = p.texts
    with proj.scratch() as d:
        try:
            p.write(d)
            c = p.compile(d)
        except impl.ALLOWED:
            raise Skip("rejected")
    sm = c.source_map
    text = sm.serialize()
    check_storage(sm, rng, map=text)
    offs = [o[0] for r in c.ops for o in r] or [0]
    mp = any_mapping(rng, offs)
    check_rewrite(sm, mp, map=text, mapping=repr(mp))


def t_decompiled(rng, st):
    rs = gen.random_rs(rng, size=rng.choice([3, 10, 20]), routines=rng.choice([1, 2]))
    st["h"] = rs["ops"]
    try:
        _, sm = impl.decompile(rs) if rng.random() < 0.7 else impl.decompile_ssbscript(rs)
    except Exception:
        raise Skip("raised (C06)")
    text = sm.serialize()
    check_storage(sm, rng, map=text)
    offs = [o[0] for r in rs["ops"] for o in r]
    mp = any_mapping(rng, offs)
    check_rewrite(sm, mp, map=text, mapping=repr(mp))


if __name__ == "__main__":
    ck = Check("C14")
    n = 1 if ck.quick else 30
    ck.start_vc()
    ck.run("any", t_any, 12000 * n)
    ck.run("compiled", t_compiled, 1500 * n)
    ck.run("decompiled", t_decompiled, 1500 * n)
    ck.finish()
