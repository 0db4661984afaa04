"""C09: finishing passes of the model."""
from ..scope import Scope

S = Scope("C09", [(r"Abstract/Model\.cpp", "")],
          ("each rewriting pass builds its entities from exactly the confirmed data",
           "each rewriting pass applies exactly under the confirmed conditions"), 200, exclude=[r"::(validate|checkWritten)$"])
TABLE, freeze, run = S.table, S.freeze, S.run
