"""C32: element sets."""
from ..scope import Scope

S = Scope("C32", [(r"Abstract/Element\.", "")],
          ("each section constant, matrix and orientation is computed from exactly the confirmed operands",
           "each of them is used exactly under the confirmed conditions"), 100)
TABLE, freeze, run = S.table, S.freeze, S.run
