"""prop(id, title, statement, over, text, why, files, mechanism, observe): adds or replaces a line of properties.jsonl (development aid)"""
import json
P = '/verif/properties.jsonl'
def prop(id, title, statement, over, text, why, files, mech, observe):
    L = [json.loads(l) for l in open(P)]
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over if isinstance(over, list) else [over], text=text), why_tests_cant=why,
             anchors=dict(files=['include/fitoria/' + f for f in files], mechanism=[dict(name=n, where='include/fitoria/' + w) for n, w in mech], observe_at=[observe], hook_needed=None))
    ids = [x['id'] for x in L]
    if id in ids:
        L[ids.index(id)] = d
    else:
        L.append(d)
    open(P, 'w').write(''.join(json.dumps(x) + '\n' for x in L))
