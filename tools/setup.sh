#!/bin/sh
# nothing to build: the verifier reads /repo's sources on every run; this only checks the tools it needs
command -v clang >/dev/null && command -v cvc5 >/dev/null && /opt/veriftools/pyvenv/bin/python3 -c 'import z3'
