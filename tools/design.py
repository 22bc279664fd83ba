"""Rewrites the generated parts of DESIGN.md (between the markers) from the checks, MANIFEST.json, seeded/ and seeded results (python3 tools/design.py)."""
import ast, glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = [json.loads(l) for l in open('properties.jsonl')]
man = json.load(open('MANIFEST.json'))
na = {d['property_id'] if 'property_id' in d else d.get('property', d.get('id')): d['reason'] for d in man['not_applicable']}
out = []
for p in props:
    i = p['id']
    f = 'mc/checks/%s.py' % i.lower()
    if i in na:
        out.append('### %s %s\nNot addressed: %s\n' % (i, p['title'], na[i]))
        continue
    t = ast.parse(open(f).read())
    doc = ' '.join(ast.get_docstring(t).split())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS')}
    cost = ''
    try:
        e = json.load(open('evidence/%s.json' % i))
        k = e['coverage']
        cost = 'Last %s run: %d cases, %d executions of the real code, %d states, %d comparisons, about %d s.' % (e['tier'], k['cases'], k['traces_validated_against_impl'], k['states'], k['comparisons_with_oracle'], 5 * round(e['wall_s'] / 5 + 1))
    except Exception:
        pass
    out.append('### %s %s\n%s\n- *Quick:* %s.\n- *Thorough:* %s.\n- *Assumptions:* %s.\n- *Beyond the tests:* %s\n- %s\n' % (
        i, p['title'], doc.split(': ', 1)[-1] if ': ' in doc[:6] else doc, c['BOUNDS']['quick'].rstrip('.'), c['BOUNDS'].get('thorough', '-').rstrip('.'), '; '.join(c.get('ASSUMPTIONS', [])) or 'none', p['why_tests_cant'], cost))
rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m, n = json.load(open(d)), d.split('/')[1]
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(n, '?')))
s = open('DESIGN.md').read()
for tag, text in (('PROPERTIES', '\n'.join(out)), ('SEEDS', '\n'.join(rows))):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
open('DESIGN.md', 'w').write(s)
