"""C13: cell types and groups."""
from ..scope import Scope

S = Scope("C13", [(r"Abstract/MeshComponents\.", "")],
          ("cell types, their topology tables and group contents hold exactly the confirmed data",
           "each of them is selected exactly under the confirmed conditions"), 100)
TABLE, freeze, run = S.table, S.freeze, S.run
