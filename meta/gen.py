"""Generates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from meta/props_*.py."""
import json, os, sys, glob, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, q, tests, files, mech, technique, note, design, state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech, technique=technique, note=note, design=design, state=state, observe=observe))


def N(id, title, statement, over, q, tests, files, mech, reason):
    assert len(title) <= 80, title
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech, reason=reason, state=(), observe=()))


def main():
    sys.path.insert(0, VERIF)
    import meta.gen as G
    for f in sorted(glob.glob(os.path.join(VERIF, 'meta', 'props_*.py'))):
        importlib.import_module('meta.' + os.path.basename(f)[:-3])
    allp = sorted(G.PROPS + G.NA, key=lambda p: p['id'])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in allp:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['tests'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                                            'observe_at': list(p['observe']), 'hook_needed': None}}, ensure_ascii=False) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m core.facts',
           'checks': [{'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s --thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in sorted(G.PROPS, key=lambda p: p['id'])],
           'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in G.NA]}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1); f.write('\n')
    head = open(os.path.join(VERIF, 'meta', 'design_head.md')).read()
    tail = open(os.path.join(VERIF, 'meta', 'design_tail.md')).read()
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write(head)
        f.write('\n## Properties and how each is decided\n')
        for p in allp:
            f.write('\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
            if 'reason' in p:
                f.write('Not applicable: %s\n' % p['reason'])
            else:
                f.write('*Decided by* %s. %s\n\n*Quantifies over* %s. *Why tests cannot:* %s\n\n*Assurance:* %s\n' % (p['technique'], p['design'], p['q'], p['tests'], p['note']))
        f.write(tail)
    print(len(G.PROPS), 'claimed', len(G.NA), 'not applicable')


if __name__ == '__main__':
    main()
