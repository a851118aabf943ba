#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the contracts' props lines"""
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
have={}
for f in sorted(glob.glob('contracts/*.spec')):
    cur=None
    for l in open(f):
        m=re.match(r'(func|iterator|theorem)\s+(?:(?:soft|trusted|abstract|funcval)\s+)?([^\s].*)',l)
        if m: cur=m.group(2).split(')(')[0] if m.group(1)=='func' else m.group(1)+' '+m.group(2).strip()
        m=re.match(r'\s+props (.*)',l)
        if m:
            for p in m.group(1).split(): have.setdefault(p,[]).append(re.sub(r'\([a-zA-Z, ]*\)$','',cur))
if have: have.setdefault('C18',['lazy obligations of every iterator']); have.setdefault('C19',['frame obligations of every iterator'])
notes=json.load(open('tools/notes.json')) if os.path.exists('tools/notes.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i} quick',thorough_cmd=f'bash check.sh {i} thorough',evidence_file=f'evidence/{i}.json',
          technique='contract-based deductive verification of the real code: verification conditions from go/ssa of /repo, discharged by SMT (z3, cvc5)',level='proof',
          level_note=notes.get(i,'Every obligation of the contracts named in theorems is generated from the current source and discharged for all inputs; trusted: contracts of library functions, funcval contracts of user functions, axioms of contracts/theory.lisp, mathematical integers, the VC generator and solvers (see evidence). A bounded harness looks for failing inputs and is not counted as proved.'),
          theorems=have[i]))
    else: na.append(dict(property=i,reason=notes.get('NA-'+i,'contracts not written yet')))
json.dump(dict(version=1,setup_cmd='bash setup.sh',hooks=dict(guard='none: no hooks in /repo',enable='nothing to enable',source_commits=[]),checks=checks,not_applicable=na,
  notes='See DESIGN.md. Fix commits in /repo are listed in known-findings.txt.'),open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
