import json,os
S='/verif/seeded'
rows=[]
for d in sorted(os.listdir(S)):
    m=json.load(open(f'{S}/{d}/meta.json')); rows.append(f"| {d} | {m.get('caught_by', m['property'])} | {m['needs']} |")
body=open('/verif/tools/rest.md').read() if os.path.exists('/verif/tools/rest.md') else ''
s=open('/verif/DESIGN.md').read()
a='<!-- seeded -->'; b='<!-- /seeded -->'
i,j=s.index(a),s.index(b)
s=s[:i]+a+'\n| bug | caught by | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n'+s[j:]
open('/verif/DESIGN.md','w').write(s)
