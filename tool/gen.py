"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MK = 'src/module/markov/markov.cpp'
G3 = 'src/module/markov/gamma3_updates.cpp'
DG = 'src/module/diagram/diagram.cpp'
CP = 'src/module/diagram/component.cpp'
AI = 'abstract interpretation of every update over symbolic diagrams (normal forms, path partitioning), one obligation per exit'
NOTE = ('Decided on the abstract post-state of every exit of every update, for all diagrams satisfying the invariants and all random draws '
        '(inductive step). Trusts the clang AST, the exporter, the interpreter and its rewrite rules; weight lookups are uninterpreted; real '
        'arithmetic is exact. The move of a whole fermion loop is covered for closed loops of up to three vertices (four in the thorough tier).')
PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe='', technique=AI, note=NOTE):
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                  'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                                     'state': [{'name': n, 'meaning': m} for n, m in state], 'observe_at': [observe]},
                  '_t': technique, '_n': note})


ALLH = 'every diagram reachable by any sequence of updates, every random draw, every update'
WHY = 'the repository has a handful of fixed configurations and no test of the updates runs here; the diagram space and the draws are unbounded'
exec(open(os.path.join(HERE, 'tool', 'props_table.py')).read())


def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 lib/frontend.py --build', 'checks': [], 'not_applicable': []}
    na = dict(NOT_APPLICABLE)
    for p in PROPS:
        if p['id'] in na:
            man['not_applicable'].append({'property': p['id'], 'reason': na[p['id']]})
            continue
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                              'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'technique': p['_t'], 'level': 'other',
                              'level_note': p['_n']})
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
