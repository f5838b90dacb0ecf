"""pyvc: a verification-condition generator for the Python code of ngmix.

The real source files of /repo/ngmix are loaded on every run through an import
hook (pyvc.loader) that rewrites them mechanically; the rewritten functions are
then executed on symbolic values (pyvc.sym) along every feasible path
(pyvc.engine).  Postconditions written in /verif/harness become proof
obligations, discharged by a ring normaliser (pyvc.norm), z3 and cvc5.
"""
