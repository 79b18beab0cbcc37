import json, os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
B='dune/functions/functionspacebases/'; GF='dune/functions/gridfunctions/'; C='dune/functions/common/'; K='dune/functions/backends/'
props=[]
def P(id,title,st,over,text,why,files,mech,observe,claim=None,na=None,level_note=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
    meta.append((id,na,level_note))
meta=[]
exec(open(os.path.join(H,'tools','props.py')).read())
with open(os.path.join(H,'properties.jsonl'),'w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
checks=json.load(open(os.path.join(H,'checks.json')))
m=dict(version=1,setup_cmd="python3 run.py setup",hooks=dict(guard="none (no hooks in /repo)",enable="nothing to enable: the seams are the library's template parameters (grid, vectors, callables), the replaceable operator new, and compiler instrumentation of the checks' own build",source_commits=[]),checks=[],not_applicable=[])
for id,na,note in meta:
    if na: m['not_applicable'].append(dict(property=id,reason=na)); continue
    assert id in checks,id
    m['checks'].append(dict(property=id,quick_cmd=f'python3 run.py check {id} --tier quick',thorough_cmd=f'python3 run.py check {id} --tier thorough',evidence_file=f'evidence/{id}.json',
      technique=checks[id].get('technique','deterministic simulation: seeded search over histories and injected faults against a reference model'),level='exploration',
      level_note=note or 'Seeded search: holds on everything explored, not a proof; counts per run in the evidence file.'))
assert set(checks)=={c['property'] for c in m['checks']},(set(checks)^{c['property'] for c in m['checks']})
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
