"""
Fills in the lists in DESIGN.md: python3 tools/design.py (after tools/describe.py)
"""
import glob
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))


def properties():
    import run
    out = []
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        p = json.loads(line)
        m = run.load(p['id'])
        out.append('### {}: {}\n'.format(p['id'], p['title']))
        out.append(p['statement'] + '\n')
        manifest = [c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if c['property'] == p['id']][0]
        out.append('- Technique: {}.'.format(manifest['technique']))
        out.append('- Cases and oracle: {}'.format(m.RULE))
        for a in getattr(m, 'ASSUMPTIONS', []):
            out.append('- Bound: {}.'.format(a))
        out.append('- Facets: {}.'.format(', '.join('{} ({} cases, thorough {})'.format(f.name, f.quick, f.thorough) for f in m.FACETS)))
        out.append('- Beyond the tests: {}'.format(p['why_tests_cant']))
        out.append('')
    return '\n'.join(out)


def seeded():
    results = {}
    path = os.path.join(VERIF, 'tools', 'detection.json')
    if os.path.exists(path):
        results = json.load(open(path))
    out = ['| Bug | Property | What it breaks | Needs | Caught by |', '| - | - | - | - | - |']
    for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        name = os.path.basename(os.path.dirname(d))
        r = results.get(name)
        caught = ', '.join(r) if r else ('none' if r is not None else 'not run')
        out.append('| {} | {} | {} | {} | {} |'.format(name, m['property'], m['what_it_breaks'], m['needs'], caught))
    return '\n'.join(out)


def main():
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path).read()
    for name, make in (('PROPERTIES', properties), ('SEEDED', seeded)):
        begin, end = '<!-- {} -->'.format(name.lower()), '<!-- /{} -->'.format(name.lower())
        block = '{}\n\n{}\n\n{}'.format(begin, make().strip(), end)
        if '@@{}@@'.format(name) in text:
            text = text.replace('@@{}@@'.format(name), block)
        else:
            text = re.sub(re.escape(begin) + '.*' + re.escape(end), lambda m: block, text, flags=re.S)
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
