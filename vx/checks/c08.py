"""C08: solver runs."""
from ..scope import Scope

S = Scope("C08", [(r"(Aster/Aster|Systus/Systus|Nastran/Nastran)Runner\.", "")],
          ("the command of a solver run, its directory and its outcome are derived from exactly the confirmed data",
           "each outcome is returned exactly under the confirmed conditions"), 10)
TABLE, freeze, run = S.table, S.freeze, S.run
