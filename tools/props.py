"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed properties
NA = []         # properties this family cannot decide here


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', technique=''):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None},
              '_note': note, '_tech': technique})


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(({'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                            'hook_needed': None}}, reason))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + [x[0] for x in NA]:
            d = {k: v for k, v in p.items() if not k.startswith('_')}
            assert len(d['title']) <= 80, d['title']
            assert d['statement'].count('. ') <= 2, (d['id'], d['statement'])
            f.write(json.dumps(d) + '\n')
    m = {'version': 1,
         'setup_cmd': 'bash /verif/check.sh SELFTEST',
         'hooks': {'guard': 'none',
                   'enable': 'no change to /repo is needed: the checks import the working tree through an '
                             'instrumenting loader that lives in /verif (dst/instr.py)',
                   'source_commits': []},
         'checks': [{'property': p['id'],
                     'quick_cmd': 'bash /verif/check.sh %s quick' % p['id'],
                     'thorough_cmd': 'bash /verif/check.sh %s thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'],
                     'technique': p['_tech'] or 'deterministic simulation with seeded schedule and fault search',
                     'level': 'exploration',
                     'level_note': p['_note']} for p in P],
         'not_applicable': [{'property': x[0]['id'], 'reason': x[1]} for x in NA],
         'notes': 'Every check runs the code from /repo (or DST_REPO) under one seeded simulator; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
