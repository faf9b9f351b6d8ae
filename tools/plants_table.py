import json,glob,os
rows=['| planted bug | caught by | needs |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); i=os.path.basename(d[:-1])
    rows.append('| %s: %s | %s | %s |'%(i,m['what_it_breaks'].split(';')[0].split(': ')[0],CATCH.get(i,m['property']),m['needs']) if 0 else '| %s | %s | %s |'%(i,m['property'],m['needs']))
t='\n'.join(rows)
p='/verif/DESIGN.md'; s=open(p).read()
if '@PLANTS@' in s: s=s.replace('@PLANTS@','<!-- plants -->\n'+t+'\n<!-- /plants -->')
else:
    a=s.index('<!-- plants -->'); b=s.index('<!-- /plants -->'); s=s[:a]+'<!-- plants -->\n'+t+'\n'+s[b:]
open(p,'w').write(s)
