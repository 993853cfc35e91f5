"""property id -> how it is decided"""
import importlib

REG = {
    # id: (module, attribute listing units, replay harness, uses Boost headers)
    'E01': ('base64', 'E01', 'base64'),
    'E02': ('base64', 'E02', 'base64'),
    'S01': ('strings', 'S01', 'strings'),
    'S02': ('strings', 'S02', 'strings'),
    'P01': ('path', 'P01', 'path'),
    'F01': ('fromstr', 'F01', 'from_string'),
    'H01': ('range', 'H01', 'range'),
    'H02': ('etag', 'H02', 'etag'),
    'H03': ('etag', 'H03', 'etag'),
    'L01': ('log', 'L01', 'log'),
    'B01': ('dynbuf', 'B01', 'dynamic_buffer'),
    'M01': ('mime', 'M01', 'mime'),
    'M02': ('mime', 'M02', 'mime'),
    'M03': ('mime', 'M03', 'mime'),
    'O01': ('sumtype', 'O01', 'optional'),
    'O02': ('sumtype', 'O02', 'expected'),
    'R01': ('router', 'R01', 'router'),
    'R02': ('matcher', 'R02', 'path_matcher'),
    'Q01': ('maps', 'Q01', 'query_map'),
    'A01': ('maps', 'A01', 'path_info'),
    'W01': ('streams', 'W01', 'streams'),
    'V01': ('log', 'V01', 'version'),
}


def get(pid):
    mod, attr, replay = REG[pid]
    m = importlib.import_module('props.' + mod)
    return getattr(m, attr), replay

TECH = 'contract-based deductive verification of the real C++ bodies (AST extracted by clang on every run, weakest-precondition style symbolic execution against pre/postconditions, inferred loop invariants, z3/cvc5)'
NOTE = {'*': 'Every obligation generated from the current headers is discharged for all inputs and all iterations (no bound). Trusted: clang AST, extractor and VC generator, z3/cvc5, models of the std functions named in the evidence, texts shorter than 2^60, no allocation failure.'}
