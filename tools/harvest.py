#!/usr/bin/env python3
"""Collects script texts from the repository's tests into sim/corpus.txt (run once by hand; the result is committed)."""
import re,glob,sys
out=[]
def cstr(s,i):
    """parses adjacent C string literals from s[i:], returns text,end"""
    r=[];n=len(s)
    while True:
        while i<n and s[i] in ' \t\r\n': i+=1
        if i>=n or s[i]!='"': break
        i+=1
        while s[i]!='"':
            c=s[i]
            if c=='\\':
                d=s[i+1]; i+=2
                if d=='\n': continue
                if d=='\r': 
                    if s[i]=='\n': i+=1
                    continue
                if d in '01234567':
                    m=re.match(r'[0-7]{1,3}',s[i-1:]); r.append(chr(int(m[0],8))); i+=len(m[0])-1; continue
                if d=='x':
                    m=re.match(r'[0-9a-fA-F]+',s[i:]); r.append(chr(int(m[0],16)&255)); i+=len(m[0]); continue
                r.append({'n':'\n','r':'\r','t':'\t','a':'\a','b':'\b','v':'\v','f':'\f'}.get(d,d))
            else: r.append(c); i+=1
        i+=1
    return ''.join(r),i
for f in sorted(glob.glob('/repo/tests/*.cpp')):
    s=open(f,encoding='latin1').read().replace('\r\n','\n')
    texts={}
    for m in re.finditer(r'const\s+char\s*\*\s*(\w+)\s*=\s*(?=")',s):
        t,e=cstr(s,m.end()); texts[m[1]]=t
    seen=set()
    for m in re.finditer(r'(TEST\w*)\(\s*"(?:[^"\\]|\\.)*"\s*,\s*(\w+)',s):
        k=m[2]
        if m[1].startswith('TEST_COMPILE') : continue
        if k in texts and k not in seen:
            seen.add(k); out.append((k,m[1],texts[k]))
seen=set()
with open(sys.argv[1],'w',encoding='latin1',newline='') as o:
    for k,kind,t in out:
        t=t.replace('\r\n','\n').strip('\n')
        if '\0' in t or t in seen or '\x01' in t: continue
        if re.search(r'import std\.(io|file|time|random)|import test\.|import func\.|import win\.|import img|import \w*\.?(canvas)',t): continue
        seen.add(t)
        o.write('\x01%s\n%s\n'%(k,t))
print(len(seen))
