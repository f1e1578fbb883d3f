#!/usr/bin/env python3
# Generates sim/h5wrap.cpp: an interposed wrapper for every public HDF5 function
# with a fixed argument list.  Run once; the result is committed.
import re, subprocess, sys
src = subprocess.run(['g++','-E','-P','-x','c++','-I/usr/include/hdf5/serial','-'],input='#include <hdf5.h>\n',text=True,capture_output=True,check=True).stdout
src = re.sub(r'__attribute__\s*\(\(.*?\)\)\s*(?=[;)])','',src)
src = re.sub(r'\s+',' ',src)
out=[];seen=set()
for m in re.finditer(r'(?<=[;}{])\s*((?:[A-Za-z_][\w ]*?[ \*]+))(H5[A-Za-z0-9_]+)\s*\(([^;{}]*)\)\s*(?=;)',src):
    ret,name,args=m.group(1).strip(),m.group(2),m.group(3).strip()
    if 'typedef' in ret or name in seen or '...' in args: continue
    # split args at top level
    parts=[];d=0;cur=''
    for c in args:
        if c=='(':d+=1
        if c==')':d-=1
        if c==',' and d==0: parts.append(cur);cur=''
        else: cur+=c
    if cur.strip(): parts.append(cur)
    if parts and parts[0].strip()=='void' : parts=[]
    decl=[];call=[];ok=True
    for i,p in enumerate(parts):
        p=p.strip()
        if '(' in p: ok=False;break
        arr=''
        mm=re.match(r'^(.*?)\s*((?:\[[^\]]*\])+)$',p)
        if mm: p,arr=mm.group(1).strip(),mm.group(2)
        toks=re.match(r'^(.*[\s\*])([A-Za-z_]\w*)$',p)
        base=p
        if toks and toks.group(2) not in('int','char','void','unsigned','hid_t','size_t','double','float','long') : base=toks.group(1).strip()
        decl.append(f'{base} a{i}{arr}'); call.append(f'a{i}')
    if not ok: continue
    seen.add(name)
    out.append((ret,name,', '.join(decl),', '.join(call)))
RD='H5Fopen H5Gopen2 H5Dopen2 H5Aopen H5Aread H5Dread H5Dget_space H5Dget_type H5Aget_space H5Aget_type'.split()
WR='H5Fcreate H5Gcreate2 H5Dcreate2 H5Dwrite H5Acreate2 H5Awrite H5Fflush'.split()
def fail(name):
    if name in RD or name in WR: return 'if (sim::h5_fail(%s)) return -1; ' % ('true' if name in WR else 'false')
    return ''
with open(sys.argv[1],'w') as f:
    f.write('// Generated by tools/gen_h5wrap.py.  Do not edit.\n// Every public HDF5 entry point: reports entry and exit to the simulator\n// (two threads inside HDF5 at once is a violation) and is a scheduling point.\n#ifndef _GNU_SOURCE\n#define _GNU_SOURCE\n#endif\n#include <hdf5.h>\n#include <dlfcn.h>\n#include "core.h"\n\nnamespace { struct In { In(const char *n) { sim::h5_enter(n); } ~In() { sim::h5_leave(); } };\ntemplate <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); } }\n\nextern "C" {\n')
    for ret,name,decl,call in out:
        f.write(f'{ret} {name}({decl}) {{ static auto r = real<decltype(&{name})>("{name}"); In in("{name}"); {fail(name)}{"" if ret=="void" else "return "}r({call}); }}\n')
    f.write('}\n')
print(len(out))
