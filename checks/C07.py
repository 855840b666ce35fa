"""C07: SsbScript is a lossless spelling of SSB ops."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402

NAMES = ["op", "Op_1", "camera_Move", "BranchTo", "Jumpy", "x", "_y", "debug_Print", "Return", "End", "Hold", "Null", "SetAnimation2",
         "WaitLockLives", "CaseText", "DefaultText", "message_SwitchTalk", "lives", "e"]  # fmt: skip
KEYWORDISH = ["if", "else", "while", "for", "switch", "case", "default", "return", "end", "hold", "jump", "call", "with", "not", "menu",
              "actor", "object", "performer", "value", "forever", "break", "continue", "message_Talk", "macro", "import", "const", "debug",
              "variation", "edit", "clear", "init", "scn", "sector", "random", "dungeon_mode", "TRUE", "FALSE", "alias", "previous", "def",
              "coro", "for_actor", "for_object", "for_performer", "Position", "include", "menu2", "elseif", "break_loop", "reset", "dungeon_result",
              "adventure_log"]  # fmt: skip


def any_set(rng):
    """Any routine set with closed jumps: nothing else assumed (unreachable ops, jumps between routines, jump cycles)."""
    v = gen.Vals(rng, rng.random() < 0.3)
    n = rng.choice([1, 1, 2, 3, 5])
    rts = []
    off = rng.choice([0, 3])
    for _ in range(n):
        rt = []
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
            x = rng.random()
            if x < 0.35:
                k = rng.choice(sorted(sem.JUMP_PARAM_KINDS))
                idx = gen_index(k)
                rt.append([off, k, [v.arg() for _ in range(idx)], True])
            elif x < 0.9:
                nm = rng.choice(NAMES) if rng.random() < 0.9 else "op_" + str(rng.randint(0, 99))
                rt.append([off, nm, [v.arg() for _ in range(rng.choice([0, 1, 2, 4]))], False])
            else:
                rt.append([off, rng.choice(gen.FLOW), [], False])
            off += rng.choice([1, 1, 2, 3, 7])
        rts.append(rt)
    offs = [o[0] for rt in rts for o in rt]
    ops = []
    for rt in rts:
        own = [o[0] for o in rt]
        out = []
        for o, nm, ps, j in rt:
            if j:
                ps = ps + [("i", rng.choice(own if rng.random() < 0.6 else offs))]
            out.append((o, nm, ps))
        ops.append(out)
    infos, coros = [], []
    coro = rng.random() < 0.25
    mixed = rng.random() < 0.2
    for i in range(n):
        k = "coro" if coro or (mixed and rng.random() < 0.5) else rng.choice(["gen", "actor", "object", "performer"])
        infos.append((k, None if k in ("gen", "coro") else rng.choice([("i", rng.randint(0, 40)), ("c", "ACTOR_X")])))
        coros.append(f"CORO_{rng.choice('ABC')}{i}" if k == "coro" else None)
    return {"infos": infos, "ops": ops, "coros": coros}


def gen_index(k):
    from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET

    return OPS_WITH_JUMP_TO_MEM_OFFSET.get(k, 0)


def roundtrip(rs, **data):
    data["routines"] = common.show(rs)
    try:
        out, sm = impl.decompile_ssbscript(rs)
    except Exception as e:
        raise Bad("SsbScript decompiler raised", error=repr(e), **data)
    data["text"] = out
    try:
        c = impl.compile_ssbscript(out)
    except Exception as e:
        raise Bad("SsbScript compiler rejects the text", error=repr(e), **data)
    common.same_routine_set(rs, c, "SsbScript is not lossless", **data)
    try:
        o2, _ = impl.decompile_ssbscript(impl.to_routine_set(c))
    except Exception as e:
        raise Bad("SsbScript decompiler raised on the compiled set", error=repr(e), **data)
    if o2 != out:
        raise Bad("printing the compiled routine set again gives another text", again=o2, **data)


def t_any(rng, st):
    rs = any_set(rng)
    st["h"] = rs["ops"]
    if common.unspellable(rs):
        raise Skip(common.UNSPELLABLE)
    roundtrip(rs)


def keyword(name):
    rs = {"infos": [("gen", None)], "coros": [None], "ops": [[(0, name, [("i", 1)]), (1, "Return", [])]]}
    try:
        roundtrip(rs)
    except Bad as e:
        raise Bad(f"opcode named {name}", cause=e.sig, **e.data)


def unspellable(t):
    rs = {"infos": [("gen", None)], "coros": [None], "ops": [[(0, "op", [("s", t)]), (1, "Return", [])]]}
    try:
        roundtrip(rs)
    except Bad as e:
        raise Bad(common.UNSPELLABLE, cause=e.sig, **e.data)


if __name__ == "__main__":
    ck = Check("C07")
    ck.start_vc()
    ck.run("any", t_any, 6000 if ck.quick else 200000)
    for k in KEYWORDISH:
        ck.case("keyword/" + k, keyword, k)
    from checks.C06 import UNSPELLABLE

    for t in UNSPELLABLE:
        ck.case("unspellable/" + repr(t), unspellable, t)
    ck.finish()
