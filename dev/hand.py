#!/usr/bin/env python3
"""hand.py OUTDIR [FILE...]: applies the hand-written refactorings of dev/hand/*.go (each block
'//@ package/file.go' followed by functions that replace those of the same name, or new ones)
to a copy of /repo in OUTDIR."""
import sys,re,glob,os,subprocess
out=sys.argv[1]; files=sys.argv[2:] or sorted(glob.glob('/verif/dev/hand/*.txt'))
def split(src):
    # top-level functions/decls of a block
    parts=re.split(r'(?m)^(?=func |const |var |type |//@imports )',src)
    return [p for p in parts if p.strip()]
for f in files:
    for blk in re.split(r'(?m)^//@ ',open(f).read())[1:]:
        name,body=blk.split('\n',1)
        p=out+'/internal/'+name.strip(); s=open(p).read()
        for d in split(body):
            if d.startswith('//@imports '):
                for i in d.split('\n')[0].split()[1:]:
                    s=s.replace('import (','import (\n\t"%s"'%i,1)
                continue
            m=re.match(r'func (\([^)]*\) )?(\w+)',d)
            k=m and re.search(r'(?ms)^func (\([^)]*\) )?%s\(.*?^}\n'%m.group(2),s)
            if k: s=s[:k.start()]+d.rstrip()+'\n'+s[k.end():]
            else: s+='\n'+d.rstrip()+'\n'
        open(p,'w').write(s)
r=subprocess.run('gofmt -l internal; go build ./... && go vet ./internal/tilegroup ./internal/uncompressedheader 2>&1 | head -5',shell=True,cwd=out,capture_output=True,text=True)
print(r.stdout,r.stderr)
