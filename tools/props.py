"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py`."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'lib'))

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique,
         note, observe=(), state=()):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=quant), why_tests_cant=why,
      anchors=dict(files=files,
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mechanism],
                   observe_at=list(observe), hook_needed=None),
      _technique=technique, _note=note))


exec(open(os.path.join(HERE, 'props_data.py')).read())


def main():
  import registry
  claimed = [p for p in P if p['id'] in registry.CHECKS]
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
      if p['id'] in registry.CHECKS or p['id'] in NOT_APPLICABLE:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
  checks = []
  for p in claimed:
    checks.append(dict(
        property=p['id'], quick_cmd=f"python3 check.py {p['id']} quick",
        thorough_cmd=f"python3 check.py {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p['_technique'],
        level=registry.CHECKS[p['id']]['level'], level_note=p['_note']))
  manifest = dict(
      version=1, setup_cmd='bash setup.sh', checks=checks,
      not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
      notes='No hooks: the checks use the public API of /repo only. '
            'known_findings.txt records the defects found and repaired.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')

  # DESIGN.md
  design, table = {}, []
  exec(open(os.path.join(HERE, 'design_data.py')).read(), dict(D=design))
  text = open(os.path.join(HERE, 'design.md')).read()
  body = ''
  for p in claimed:
    spec = registry.CHECKS[p['id']]['trace_module']
    body += f"### {p['id']} {p['title']}\nTrace specification: `spec/{spec}.tla`. "
    body += design.get(p['id'], '').strip() + '\n\n'
    body += f"Why tests cannot: {p['why_tests_cant']}\n\n"
  na = ''.join(f'- {k}: {v}\n' for k, v in NOT_APPLICABLE.items()) or '(none)\n'
  seeded = os.path.join(ROOT, 'seeded')
  caught = json.load(open(os.path.join(HERE, 'caught.json')))
  for d in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    m = json.load(open(os.path.join(seeded, d, 'meta.json')))
    table.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} "
                 f"| {caught.get(d, '')} |\n")
  table = '| change | property | breaks | needs | caught by |\n|---|---|---|---|---|\n' + ''.join(table)
  text = text.replace('@@PROPS@@', body).replace('@@NA@@', na).replace('@@SEEDED@@', table)
  with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(text)


if __name__ == '__main__':
  main()
