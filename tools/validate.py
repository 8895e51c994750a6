"""Run by python3-vt: the committed files against their schemas."""
import json, os, jsonschema
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(root + '/properties.jsonl'):
  jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open(root + '/MANIFEST.json')),
                    json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')
