"""C07: command line and configuration."""
from ..scope import Scope

S = Scope("C07", [(r"Commandline/|Abstract/ConfigurationParameters\.", "")],
          ("each option reaches exactly the confirmed setting",
           "each setting, exit code or message is produced exactly under the confirmed conditions"), 60)
TABLE, freeze, run = S.table, S.freeze, S.run
