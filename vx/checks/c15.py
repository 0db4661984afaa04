"""C15: MED mesh file."""
from ..scope import Scope

S = Scope("C15", [(r"Aster/MedWriter\.", "")],
          ("each array handed to the MED library holds exactly the confirmed mesh data",
           "each part of the mesh file is written exactly under the confirmed conditions"), 15)
TABLE, freeze, run = S.table, S.freeze, S.run
