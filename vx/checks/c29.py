"""C29: reference results."""
from ..scope import Scope

S = Scope("C29", [(r"ResultReaders/", "")],
          ("each value read from a result file reaches exactly the confirmed assertion",
           "each of them is read exactly under the confirmed conditions"), 30)
TABLE, freeze, run = S.table, S.freeze, S.run
