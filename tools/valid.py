import json,jsonschema,glob
jsonschema.validate(json.load(open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl'): jsonschema.validate(json.loads(l),S)
for f in glob.glob(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/evidence/C*.json'): jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok')
