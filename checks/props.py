"""The properties: for each, the jobs (harness entry point x operand shape) and the oracle they are checked against."""
import importlib
PROPS = {}
for m in ('p_arith', 'p_bits', 'p_text', 'p_float', 'p_num', 'p_class', 'p_safe', 'p_log', 'p_py', 'p_hist'):
    for p in importlib.import_module(m).PROPS:
        PROPS[p.id] = p
