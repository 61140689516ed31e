#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then what is specified per property, read from the contracts themselves."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
known = json.load(open(os.path.join(HERE, 'known_findings.json')))


def lit(node, consts):
    try:
        return str(eval(compile(ast.Expression(node), '', 'eval'), dict(consts)))
    except Exception:
        return ''


def classes(path):
    tree = ast.parse(open(path).read())
    consts, out, byname = {}, [], {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.targets[0], ast.Name):
            consts[n.targets[0].id] = n.value.value
    for n in tree.body:
        if not isinstance(n, ast.ClassDef):
            continue
        d = dict(name=n.name, doc=(ast.get_docstring(n) or '').split('\n')[0], target='', covers='', prop='')
        for b in n.bases:
            if isinstance(b, ast.Name) and b.id in byname:
                for k in ('target', 'covers', 'prop', 'doc'):
                    d[k] = d[k] or byname[b.id][k]
        for m in n.body:
            if isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name) and m.targets[0].id in ('target', 'covers', 'prop'):
                d[m.targets[0].id] = lit(m.value, consts)
        byname[n.name] = d
        if d['prop'] and (d['target'] or d['covers']):
            out.append(d)
    return out


spec = {}
for kind in ('contracts', 'bounded'):
    for f in sorted(glob.glob(os.path.join(HERE, kind, 'c*.py'))):
        for d in classes(f):
            spec.setdefault(d['prop'], []).append((kind, d))
w = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip('\n')]
w.append('')
for f in known['findings']:
    w.append('* known finding `%s` (%s): %s' % (f['id'], f['property'], f['what']))
w.append('')
for f in known['fixed']:
    w.append('* ' + f)
w.append('\n## Properties\n')
for p in props:
    i = p['id']
    w.append('### %s %s\n' % (i, p['title']))
    w.append(p['statement'] + '\n')
    if i not in claims['claimed']:
        w.append('**Not applicable.** %s\n' % claims['not_applicable'].get(i, 'No contract has been written for it yet.'))
        continue
    w.append('How it is decided: ' + claims['claimed'][i] + '\n')
    rows = [d for k, d in spec.get(i, []) if k == 'contracts']
    if rows:
        w.append('| contract | function under contract | what it states |\n|---|---|---|')
        for d in rows:
            w.append('| %s | `%s` | %s |' % (d['name'], d['target'], d['doc'].replace('|', '/')))
        w.append('')
    rows = [d for k, d in spec.get(i, []) if k == 'bounded']
    if rows:
        w.append('Bounded stand-ins (sampled, labelled bounded, never counted as proved):\n')
        for d in rows:
            w.append('* %s: %s%s' % (d['name'], d['covers'], '. ' + d['doc'] if d['doc'] else ''))
        w.append('')
w.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(w))
