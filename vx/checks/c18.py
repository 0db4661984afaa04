"""C18: mesh containers."""
from ..scope import Scope

S = Scope("C18", [(r"Abstract/Mesh\.", "")],
          ("each identifier, position and member handled by the mesh is exactly the confirmed one",
           "each mesh container is changed exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
