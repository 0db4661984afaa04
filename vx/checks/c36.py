"""C36: values."""
from ..scope import Scope

S = Scope("C36", [(r"Abstract/Value\.", "")],
          ("each value (ranges, functions, lists) holds and answers exactly the confirmed data",
           "each answer is given exactly under the confirmed conditions"), 40)
TABLE, freeze, run = S.table, S.freeze, S.run
