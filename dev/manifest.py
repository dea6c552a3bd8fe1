import json,os
done=[l.strip() for l in open('/verif/dev/done.txt') if l.strip()]
na=json.load(open('/verif/dev/na.json'))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
tech={}
for l in open('/verif/dev/tech.txt'):
    if l.strip(): k,v=l.strip().split('|',1); tech[k]=v
m=dict(version=1,setup_cmd='python3 /verif/setup.py',checks=[],not_applicable=[],notes='check.py <ID> analyses /repo statically; see DESIGN.md')
for i in ids:
    if i in done:
        t=tech.get(i,'abstract interpretation over clang syntax trees')
        m['checks'].append(dict(property=i,quick_cmd='python3 /verif/check.py %s'%i,thorough_cmd='python3 /verif/check.py %s --tier thorough'%i,evidence_file='/verif/evidence/%s.json'%i,technique='static analysis: '+t,level='other',level_note='static analysis of the sources; decided instances and undecided ones are listed in the evidence; undecided instances are not covered'))
    else:
        m['not_applicable'].append(dict(property=i,reason=na.get(i,'check not built yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
