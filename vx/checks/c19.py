"""C19: model containers and references."""
from ..scope import Scope

S = Scope("C19", [(r"Abstract/(Model|Object|Reference)\.h", "")],
          ("each lookup, insertion and identifier uses exactly the confirmed keys and entities",
           "each entity is added, replaced or found exactly under the confirmed conditions"), 60, exclude=[])
TABLE, freeze, run = S.table, S.freeze, S.run
