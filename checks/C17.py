"""C17: the Pygments lexer is total and loses no text."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import gen, impl, lang as L, respell  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402

from explorerscript.pygments.expslexer import ExplorerScriptLexer  # noqa: E402
from pygments.token import Error  # noqa: E402

PIECES = ['"', "'", '"""', "'''", '""', "''", "\\", "\\\"", "\\'", "\n", "\n\n", " ", "\t", "//", "/*", "*/", "/", "*", "// x\n", "/* y */", "$", "§", "@", "$a", "@l", "§l1",
          "0", "0x", "0xfF", "0b1", "0b", "07", "08", "1.5", ".5", ".", "x.5", "-", "a", "_", "if", "ifx", "menu2", "menu", "for_actor", "Position<", ">", "<", "{", "}", "(", ")", "[", "]",
          ";", ":", ",", "==", "&=", "\u00e4", "\u2028", "\U0001f600", "\0", "\x0b", "\x0c", "\x1c", "\x85", "\ufeff", "\ud800", "#", "~macro", "import", "%", "j", "0777j", "\r", "\r\n"]  # fmt: skip


def normalised(text):
    """What Pygments itself does to every text before any lexer sees it."""
    if text.startswith("\ufeff"):
        text = text[1:]
    return text.replace("\r\n", "\n").replace("\r", "\n")


def check_text(text, accepted=False, **opts):
    lx = ExplorerScriptLexer(**opts)
    toks = list(lx.get_tokens(text))
    out = "".join(t for _, t in toks)
    if out not in (text, text + "\n"):
        n = normalised(text)
        if n != text and out in (n, n + "\n"):
            raise Bad("carriage returns or a byte order mark", text=repr(text), tokens=repr(out))
        raise Bad("the tokens are not the text", text=repr(text), tokens=repr(out))
    if text.endswith("\n") and out != text:
        raise Bad("a second line feed is appended", text=repr(text), tokens=repr(out))
    pos = 0
    for i, tt, t in lx.get_tokens_unprocessed(text):
        if i != pos:
            raise Bad("token is not at its position", text=repr(text), token=repr((i, str(tt), t)), expected=pos)
        pos += len(t)
        if accepted and tt in Error:
            raise Bad("error token in an accepted source", text=text, token=repr((i, t)))
        if text[i : i + len(t)] != t:
            raise Bad("token text differs from the text at its position", text=repr(text), token=repr((i, t)))
    if pos != len(text):
        raise Bad("the tokens end before the text", text=repr(text), end=pos)
    if accepted and any(tt in Error for tt, _ in toks):
        raise Bad("error token in an accepted source", text=text)


def t_pieces(rng, st):
    k = rng.choice([0, 1, 2, 3, 5, 9, 20])
    pool = PIECES if rng.random() < 0.2 else PIECES[:-2]
    text = "".join(rng.choice(pool) for _ in range(k))
    st["h"] = text
    check_text(text)


def t_chars(rng, st):
    k = rng.choice([1, 2, 4, 10, 40])
    text = "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0x300), rng.randrange(0x110000)])) for _ in range(k))
    st["h"] = text
    check_text(text)


def source(rng):
    g = gen.ProgGen(rng, depth=rng.randint(0, 3), width=rng.randint(1, 3), wild=rng.random() < 0.4)
    try:
        text = L.to_text(g.program(), L.Style(rng))
        if rng.random() < 0.5:
            text = respell.relayout(rng, text, literals=True, dense=rng.random() < 0.3, at_ends=True)
    except L.LangError:
        raise Skip("not spellable")
    return text


def t_accepted(rng, st):
    text = source(rng)
    try:
        impl.compile_text(text)
    except impl.ALLOWED:
        raise Skip("rejected")
    st["h"] = text
    check_text(text, accepted=True)


def t_cut(rng, st):
    """Sources cut off or corrupted anywhere."""
    text = source(rng)
    a = rng.randrange(len(text) + 1)
    b = rng.randrange(len(text) + 1)
    r = rng.random()
    text = text[:a] if r < 0.3 else text[a:] if r < 0.5 else text[:a] + text[b:] if r < 0.7 else text[:a] + rng.choice(PIECES[:-2]) + text[a:]
    st["h"] = text
    check_text(text)


def short(alphabet, n):
    import itertools

    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            check_text("".join(t))


if __name__ == "__main__":
    ck = Check("C17")
    n = 1 if ck.quick else 30
    ck.start_vc()
    for a in ("\"'\\\n", "/*\n\"", "0.5x\n", "$@§a\n"):
        ck.case("short texts over " + repr(a), short, a, 6 if ck.quick else 8)
    ck.case("long", check_text, "\n" + "/* " * 400 + "'" * 3 + "\"" * 7 + "a" * 5000 + "\n\n")
    ck.run("pieces", t_pieces, 20000 * n)
    ck.run("chars", t_chars, 6000 * n)
    ck.run("accepted", t_accepted, 3000 * n)
    ck.run("cut", t_cut, 6000 * n)
    ck.finish()
