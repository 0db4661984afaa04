"""C34: analyses and objectives."""
from ..scope import Scope

S = Scope("C34", [(r"Abstract/(Analysis|Objective)\.", "")],
          ("each analysis and objective holds and answers exactly the confirmed data",
           "each of them is used exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
