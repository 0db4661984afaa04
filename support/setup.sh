#!/bin/bash
# builds the extractor (each check also does so when it is missing) and checks that the tree can be analysed
cd "$(dirname "$0")/.." && python3 -c "
from vx import ir
P = ir.load()
print('translation units', len(P.tus), 'functions', len(P.functions), 'classes', len(P.classes))"
