#!/usr/bin/env python3
"""the folding table of Lucene's ASCIIFoldingFilter.java, as code point TAB replacement (code points)"""
import re,sys
src=open('/repo/filters/ascii/ASCIIFoldingFilter.java').read()
def ch(x):
    x=x.strip()
    m=re.match(r"'\\u([0-9A-Fa-f]{4})'",x)
    if m: return int(m.group(1),16)
    m=re.match(r"'\\(.)'",x)
    if m: return ord({'n':'\n','t':'\t','r':'\r'}.get(m.group(1),m.group(1)))
    m=re.match(r"'(.)'",x)
    return ord(m.group(1))
t={};cases=[];out=[]
for l in src.split('\n'):
    l=l.strip()
    m=re.match(r"case ('.+?'):",l)
    if m:
        if out: sys.exit('fallthrough')
        cases.append(ch(m.group(1)))
        continue
    m=re.match(r"output\[outputPos\+\+\] = ('.+?');",l)
    if m and cases: out.append(ch(m.group(1)));continue
    if l.startswith('break') and cases:
        for c in cases:
            assert c not in t and out; t[c]=out
        cases,out=[],[]
for c in sorted(t): print('%d\t%s'%(c,' '.join(map(str,t[c]))))
