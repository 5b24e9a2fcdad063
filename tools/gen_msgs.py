#!/usr/bin/env python3
"""Generate C++ message/service structs from .msg/.srv text.  usage: gen_msgs.py OUT_INCLUDE DIR...
Every DIR holds <pkg>/(msg|srv)/<Name>.(msg|srv).  A repo package dir (controller_manager_msgs) is given as its parent."""
import os, re, sys
PRIM={'bool':'bool','byte':'uint8_t','char':'uint8_t','float32':'float','float64':'double','int8':'int8_t','uint8':'uint8_t','int16':'int16_t','uint16':'uint16_t','int32':'int32_t','uint32':'uint32_t','int64':'int64_t','uint64':'uint64_t','string':'std::string','wstring':'std::u16string'}
def snake(n):
    s=re.sub(r'(.)([A-Z][a-z]+)',r'\1_\2',n); return re.sub(r'([a-z0-9])([A-Z])',r'\1_\2',s).lower()
def parse(txt):
    out=[]
    for l in txt.splitlines():
        l=re.sub(r'^([^"#]*)#.*',r'\1',l).strip()
        if l: out.append(l)
    return out
def struct(pkg,name,lines,deps):
    f=[];c=[];e=[]
    for l in lines:
        m=re.match(r'^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$',l)
        if m:
            t=PRIM[re.sub(r'<=\d+','',m[1])]; c.append((t,m[2],m[3].strip())); continue
        m=re.match(r'^(\S+)\s+([a-z][A-Za-z0-9_]*)(?:\s+(.+))?$',l)
        if not m: raise SystemExit(f'bad line {l} in {pkg}/{name}')
        t,n,d=m[1],m[2],m[3]
        am=re.match(r'^(.*?)\[(<?=?\d*)\]$',t); base=am[1] if am else t
        base=re.sub(r'<=\d+','',base)
        if base in PRIM: ct=PRIM[base]
        else:
            p,b=base.split('/') if '/' in base else (pkg,base)
            if base=='Header': p,b='std_msgs','Header'
            deps.add((p,b)); ct=f'{p}::msg::{b}'
        if am:
            k=am[2]
            ct=f'std::array<{ct}, {k}>' if k.isdigit() else f'std::vector<{ct}>'
        f.append((ct,n,d))
    s=f'struct {name}\n{{\n  using SharedPtr = std::shared_ptr<{name}>;\n  using ConstSharedPtr = std::shared_ptr<const {name}>;\n  using UniquePtr = std::unique_ptr<{name}>;\n'
    for t,n,v in c:
        if t=='std::string': s+=f'  static inline const std::string {n} = {v};\n'
        else: s+=f'  static constexpr {t} {n} = static_cast<{t}>({v});\n'
    for t,n,d in f:
        s+=f'  using _{n}_type = {t};\n  {t} {n}{{{d if d else ""}}};\n'
    s+=f'  bool operator==(const {name} &) const = default;\n}};\n'
    return s
INC='#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n'
def main():
    out=sys.argv[1]
    for d in sys.argv[2:]:
        for pkg in sorted(os.listdir(d)):
            for kind in ('msg','srv'):
                kd=os.path.join(d,pkg,kind)
                if not os.path.isdir(kd): continue
                for fn in sorted(os.listdir(kd)):
                    n,ext=os.path.splitext(fn)
                    if ext!='.'+kind: continue
                    txt=open(os.path.join(kd,fn)).read(); deps=set()
                    if kind=='msg':
                        body=struct(pkg,n,parse(txt),deps)
                    else:
                        a,b=re.split(r'(?m)^---\s*$',txt,maxsplit=1)
                        body=struct(pkg,n+'_Request',parse(a),deps)+struct(pkg,n+'_Response',parse(b),deps)
                        body+=f'struct {n}\n{{\n  using Request = {n}_Request;\n  using Response = {n}_Response;\n}};\n'
                    s=INC
                    for p,b in sorted(deps): s+=f'#include "{p}/msg/{snake(b)}.hpp"\n'
                    s+=f'namespace {pkg}::{kind}\n{{\n{body}}}\n'
                    path=os.path.join(out,pkg,kind,snake(n)+'.hpp'); os.makedirs(os.path.dirname(path),exist_ok=True)
                    if not (os.path.exists(path) and open(path).read()==s): open(path,'w').write(s)
main()
