"""C10: validation."""
from ..scope import Scope

S = Scope("C10", [(r"Abstract/", r"::(validate|checkWritten|checkAxes\w*|effective|ineffective|isOriginal|isForDisplay|isWritten|markAsWritten)$")],
          ("each verdict on an entity is computed from exactly the confirmed data",
           "each verdict is given exactly under the confirmed conditions"), 40, exclude=[])
TABLE, freeze, run = S.table, S.freeze, S.run
