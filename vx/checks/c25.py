"""C25: constraints."""
from ..scope import Scope

S = Scope("C25", [(r"Abstract/Constraint\.", "")],
          ("each coefficient, degree of freedom and node of a constraint is exactly the confirmed one",
           "each of them is used exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
