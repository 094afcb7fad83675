#!/usr/bin/env python3-vt
"""Write properties.jsonl and MANIFEST.json from the META of props/*.py."""
import glob
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

NOT_APPLICABLE = []


def main():
    props, checks = [], []
    for path in sorted(glob.glob(HERE + '/props/c*.py')):
        pid = os.path.basename(path)[:-3].upper()
        mod = importlib.import_module('props.' + pid.lower())
        m = mod.META
        assert len(m['title']) <= 80, (pid, len(m['title']))
        # One sentence ends with '. ' or the end of the text.
        n_sentences = m['statement'].count('. ') + 1
        assert n_sentences <= 3, (pid, n_sentences)
        props.append({
            'id': pid, 'title': m['title'], 'statement': m['statement'],
            'quantifier': {'over': m['over'], 'text': m['quant']},
            'why_tests_cant': m['why'],
            'anchors': {
                'files': m['files'], 'state': m.get('state', []),
                'mechanism': m['mechanism'],
                'observe_at': m.get('observe', []), 'hook_needed': None}})
        modes = sorted({t.mode for t in mod.TESTS})
        checks.append({
            'property': pid,
            'quick_cmd': './check.sh %s' % pid,
            'thorough_cmd': './check.sh %s --thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': m.get('technique', 'property-based testing '
                               '(Hypothesis) against ') + m.get(
                'oracle', 'an independent reference model'),
            'level': 'exploration',
            'level_note': m.get('note', '') or (
                'Generated-input search with shrinking: %s. No proof of '
                'absence. C extensions: %s.' % (
                    ', '.join('%s (%d quick / %d thorough cases)' % (
                        t.name, t.quick, t.thorough) for t in mod.TESTS),
                    ', '.join(modes)))})
    with open(HERE + '/properties.jsonl', 'w') as fh:
        for p in props:
            fh.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
        'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the '
                  'public interface of klang only', 'source_commits': []},
        'not_applicable': NOT_APPLICABLE,
        'notes': 'See DESIGN.md. Known and fixed defects: '
                 'known_findings.json.'}
    with open(HERE + '/MANIFEST.json', 'w') as fh:
        json.dump(manifest, fh, indent=1, ensure_ascii=False)
        fh.write('\n')
    print(len(props), 'properties')


main()
