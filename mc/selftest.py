"""Self test of the oracles (no implementation involved): run once as setup."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc.oraclelex import lex, loose  # noqa
from mc.sqlmodel import *  # noqa

assert lex("select a.b,'x''y' from t") == ["select", "a", ".", "b", ",", "'x''y'", "from", "t"]
assert lex("1e-5 <= .5") == ["1e-5", "<=", ".5"]
assert lex("'open") is None
assert loose("SELECT a, FROM t") == ["select", "a", "from", "t"]
q = select([ident("a"), fn("f", num("1"))], frm=table("t"), where=cond(ident("b"), "=", string("'x'")))
assert render(q.t) == "select a , f ( 1 ) from t where b = 'x'", render(q.t)
assert layout(q) == "SELECT\n a,\n F(1)\nFROM t\nWHERE b = 'x'", layout(q)
print("self test passed")
