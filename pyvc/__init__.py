"""pyvc: a small deductive verifier for the Python subset used by /repo.

The verified text is the AST of the functions in /repo's current working tree.
See /verif/DESIGN.md for the contract language and the soundness argument.
"""

import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The checks always run on /repo; the variable lets the planted-bug campaign in
# tools/ run on scratch copies side by side.
REPO = os.path.abspath(os.environ.get("PYVC_REPO") or "/repo")
