"""C33: materials."""
from ..scope import Scope

S = Scope("C33", [(r"Abstract/Material\.", "")],
          ("each material attribute holds exactly the confirmed data",
           "each of them is used exactly under the confirmed conditions"), 20)
TABLE, freeze, run = S.table, S.freeze, S.run
