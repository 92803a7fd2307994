"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,os,re
STAR=set('''c17-nested-address c17-three-way-helper c16-optimised-destroy c02-trivial-shared-assign c18-copyable-ext'''.split())
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(here,'DESIGN.md'); s=open(p).read()
mark='<!-- table -->'
s=s.split(mark)[0].rstrip()+'\n\n'+mark+'\n'
extra=json.load(open(os.path.join(here,'dev','caught.json'))) if os.path.exists(os.path.join(here,'dev','caught.json')) else {}
s+='| id | needs | what it breaks | caught by |\n| --- | --- | --- | --- |\n'
for d in sorted(os.listdir(os.path.join(here,'seeded'))):
    m=json.load(open(os.path.join(here,'seeded',d,'meta.json')))
    star='*' if d in STAR or d in extra.get('missed',[]) else ''
    s+='| %s%s | %s | %s | %s |\n'%(d,star,m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'),m['property'])
open(p,'w').write(s)
