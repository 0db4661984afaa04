"""C05: the Nastran file writer."""
from ..scope import Scope

S = Scope("C05", [(r"Nastran/NastranWriter\.", "")],
          ("each field of a written card receives exactly the confirmed model data",
           "each card is written exactly under the confirmed conditions"), 100)
TABLE, freeze, run = S.table, S.freeze, S.run
