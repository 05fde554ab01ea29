#!/bin/bash
# nothing to build: the analyses are Python; fail early if the interpreter or a parser is unusable
cd "$(dirname "$0")" && python3 -c 'import sa.main' && mkdir -p evidence
