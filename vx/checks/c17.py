"""C17: reporting and translation modes."""
from ..scope import Scope

S = Scope("C17", [(r"Abstract/SolverInterfaces\.", "")],
          ("each report carries its severity and reaches the confirmed outlet",
           "each report stops or continues the translation exactly under the confirmed conditions"), 10)
TABLE, freeze, run = S.table, S.freeze, S.run
