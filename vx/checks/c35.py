"""C35: loadings."""
from ..scope import Scope

S = Scope("C35", [(r"Abstract/(Loading|BoundaryCondition)\.", "")],
          ("each loading answers exactly the confirmed data",
           "each answer is given exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
