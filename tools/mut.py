#!/usr/bin/env python3
"""mut.py FILE [name...]: apply each variant in FILE (a list of dicts: name, file, old, new, unit, expect) to a
scratch copy of /repo and run the verifier's units on it. expect: 'fail' or 'ok'."""
import sys,os,subprocess,shutil,ast,concurrent.futures as cf,tempfile
muts=eval(open(sys.argv[1]).read())
want=sys.argv[2:]
G=os.environ.get('GOCV','/tmp/x/gocv')
def go(m):
    d=tempfile.mkdtemp(dir='/tmp/x')
    try:
        subprocess.run(['cp','-a','/repo',d+'/r'],check=True)
        r=d+'/r'
        edits=m.get('edits') or [(m['file'],m['old'],m['new'])]
        for f,o,n in edits:
            s=open(f'{r}/{f}').read()
            if s.count(o)<1: return m,'NOMATCH',''
            open(f'{r}/{f}','w').write(s.replace(o,n,1))
        b=subprocess.run(['go','build','./...'],cwd=r,capture_output=True,text=True)
        if b.returncode: return m,'NOBUILD',b.stderr
        t=subprocess.run(['go','vet','./...'],cwd=r,capture_output=True,text=True) if 0 else None
        e=dict(os.environ,GOCV_REPO=r)
        out=''
        for u in m['unit'].split(','):
            p=subprocess.run([G,'unit',u],env=e,capture_output=True,text=True,timeout=900)
            out+=p.stdout+p.stderr
        bad='FAILED' in out or 'error' in out or 'panic' in out
        return m,('fail' if bad else 'ok'),out
    finally: shutil.rmtree(d)
with cf.ThreadPoolExecutor(4) as ex:
    for m,r,out in ex.map(go,[m for m in muts if not want or m['name'] in want]):
        ok=r==m['expect']
        print(('     ' if ok else '!!!! ')+m['name'],r,'' if ok else 'expected '+m['expect'],flush=True)
        if not ok or os.environ.get('V'): print(out)
        elif r=='fail': print('        ',[l.strip() for l in out.splitlines() if 'FAILED' in l or 'error' in l][:2])
