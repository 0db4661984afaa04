"""C30: coordinate systems."""
from ..scope import Scope

S = Scope("C30", [(r"Abstract/CoordinateSystem\.", "")],
          ("each axis, origin and angle is computed from exactly the confirmed operands",
           "each of them is computed exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
