"""C04: the Code_Aster command file."""
from ..scope import Scope

S = Scope("C04", [(r"Aster/Aster(Writer|Model)\.", "")],
          ("each keyword of the command file receives exactly the confirmed model data (value, sign, factor, group, node, material)",
           "each part of the command file is written exactly under the confirmed conditions"), 400)
TABLE, freeze, run = S.table, S.freeze, S.run
