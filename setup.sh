#!/bin/bash
# nothing to build ahead: every check compiles what it needs from /repo
cd "$(dirname "$0")" && mkdir -p build evidence && python3-vt -c 'import z3, cvc5, sympy' && which clang++-18 opt-18 g++ mpicxx
