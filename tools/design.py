# Development tool: writes the sections on properties, findings and planted changes of DESIGN.md.
import json,os,re,sys
sys.path.insert(0,os.path.dirname(__file__))
from design_notes import D
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(root+'/DESIGN.md').read()
esc=lambda t:t.replace('|','\\|')
def put(name,text):
    global s
    a,b="<!-- %s -->"%name,"<!-- end %s -->"%name
    i,j=s.index(a)+len(a),s.index(b)
    s=s[:i]+"\n"+text+"\n"+s[j:]
out=[]
for l in open(root+'/properties.jsonl'):
    p=json.loads(l)
    out.append("### %s — %s\n\n%s\n\n*How.* %s\n\n*Bounds.* %s.\n\n*Anchors.* %s\n"%(p['id'],p['title'],p['statement'],D[p['id']],p['quantifier']['text'],", ".join("`%s`"%f for f in p['anchors']['files'])))
put("properties","\n".join(out))
seeds=[]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(root+'/seeded/'+d+'/meta.json'))
    seeds.append("| %s | %s | %s | %s |"%(d,m['property'],esc(m['what_it_breaks']),esc(m.get('needs',''))))
put("seeds","| change | property | what it breaks | needs |\n|---|---|---|---|\n"+"\n".join(seeds))
f=[]
for l in open(root+'/KNOWN_FINDINGS.txt'):
    m=re.match(r'(known|fixed): property=(\S+) (.*)',l)
    if m and m[1]=='fixed':
        c,t=m[3].split(' ',1); f.append("| %s | `%s` | %s |"%(m[2],c,esc(t)))
    elif m:
        h,lb,t=m[3].split(' ',2); f.append("| %s | recorded (%s) | %s |"%(m[2],h.split('=')[1],esc(t)))
put("findings","| property | repair | what failed |\n|---|---|---|\n"+"\n".join(f))
open(root+'/DESIGN.md','w').write(s)
