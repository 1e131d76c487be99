import re,json,glob,os,sys
root=sys.argv[1]
s=open(root+'/DESIGN.md').read()
a=s.index("| bug | what it breaks | caught by |"); b=s.index("*Mutants.*")
rows=[]
for p in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(p)); i=os.path.basename(os.path.dirname(p))
    w=d['what_it_breaks'].split('\n')[0]
    if len(w)>105: w=w[:w.rfind(' ',0,103)]+' ...'
    rows.append(f"| {i} | {w} | {d['property']} |")
s=s[:a]+"| bug | what it breaks | caught by |\n|---|---|---|\n"+"\n".join(rows)+"\n\n"+s[b:]
open(root+'/DESIGN.md','w').write(s)
