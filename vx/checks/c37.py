"""C37: targets and utilities."""
from ..scope import Scope

S = Scope("C37", [(r"Abstract/(Target|Utility)\.", "")],
          ("each computation uses exactly the confirmed operands",
           "each result is given exactly under the confirmed conditions"), 20)
TABLE, freeze, run = S.table, S.freeze, S.run
