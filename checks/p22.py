"""P22: trimming the whitespace of xml removes layout, never content."""
import xread
from lex import B

Y = (True,)
SWEEPS = [
    ("text", B("<x>"), B(" ", "\n", "a", "b ", "\n  ", "\t", "\u00a0"), B("</x>"), 5, 6, Y, False),
    ("mixed", B("<x>"), B(" ", "\n", "a", "<y>", "</y>", "<!--c-->", "&#10;", "&lt;"), B("</x>"), 5, 6, Y, False),
    ("comment", B("<x><!--", "<!--"), B(" ", "\n", "a", "\n  ", "\t"), B("--></x>", "--><x/>"), 5, 6, Y, False),
    ("quotes", B("<x>", "<x> "), B("'", "a", "\n", "  ", "''"), B("</x>"), 4, 5, Y, False),
    ("pi", B("<x>", ""), B("<?p", "?>", " ", "\n", "a"), B("</x>", "<x/>"), 5, 6, Y, False),
    ("attr", B("<x k='"), B(" ", "\n", "a", "&#10;", "&#9;"), B("'/>"), 4, 5, Y, False),
]


def run(c):
    c.build("harness")
    xread.replay(c, SWEEPS)
    return c.finish(rule="")
