"""C21: degrees of freedom."""
from ..scope import Scope

S = Scope("C21", [(r"Abstract/Dof\.", "")],
          ("each operation on degrees of freedom uses exactly the confirmed operands",
           "each result is given exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
