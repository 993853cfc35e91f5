"""core/from_string.hpp: text to integer / bool / text."""
import z3
from sym import *
from engine import *
from base import *
from fitmodel import IntSpec
from props import strings

OP = 'fitoria::from_string_ns::from_string_t::operator()'


def rtype(X, fn):
    return X.prog.t(fn['ret'])['ta'][0]['t']


TRUE, FALSE = ('1', 't', 'true', 'y', 'yes'), ('0', 'f', 'false', 'n', 'no')


def word(X, v, w):
    return z3.And([v.n == len(w)] + [z3.Or([sat(v.base, v.off + i) == ord(c) for c in {x.lower(), x.upper()}]) for i, x in enumerate(w)])


def post(cx, r):
    X = cx.X
    v = cx.args[-1]
    rt = rtype(X, cx.fn)
    t = X.prog.t(rt)
    if t['k'] == 'int':
        s = IntSpec(X, v.base, v.off, v.off + v.n, *X.range_of(rt))
        return [('a value exactly for whole texts that are a number of the type', r.has == s.ok),
                ('the value is the number the text spells', z3.Implies(s.ok, r.val == s.val)),
                ('an error is never the zero code', z3.Implies(z3.Not(r.has), r.err.f['value'] != 0))]
    if t['k'] == 'bool':
        ist, isf = z3.Or([word(X, v, w) for w in TRUE]), z3.Or([word(X, v, w) for w in FALSE])
        return [('a value exactly for the ten words', r.has == z3.Or(ist, isf)),
                ('true exactly for the affirmative words', z3.Implies(r.has, r.val == ist)),
                ('an error is never the zero code', z3.Implies(z3.Not(r.has), r.err.f['value'] != 0))]
    return [('text is returned unchanged', z3.And([r.has] + [f for _, f in X.eqf(r.val, v)]))]


FROM = Contract(OP, post=post, name='from_string', match=lambda X, f: True)
# the literal comparisons need the lower-cased literals, so case-insensitive equality is inlined against its contract
F01 = [Unit_('from_string', contracts=[FROM, strings.EQ], targets=[Target(FROM, min=11)], axioms=strings.split_axioms(), pools=strings.POOLS)]
UNITS = F01
