"""C06: the Systus files."""
from ..scope import Scope

S = Scope("C06", [(r"Systus/Systus(Writer|Asc|Dat|Model)\.", "")],
          ("each record of the Systus files receives exactly the confirmed model data",
           "each record is written exactly under the confirmed conditions"), 400)
TABLE, freeze, run = S.table, S.freeze, S.run
