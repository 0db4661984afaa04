"""C31: sections, tokenizer and analyses of the readers."""
from ..scope import Scope

S = Scope("C31", [(r"(Nastran/NastranTokenizer|Nastran/NastranParser_param|Optistruct/)", ""), (r"Nastran/NastranParser\.", r"Parser::(?!parse[A-Z]{2})")],
          ("each line, field, parameter and subcase of the input reaches exactly the confirmed model data",
           "each of them is read exactly under the confirmed conditions"), 200, exclude=[])
TABLE, freeze, run = S.table, S.freeze, S.run
