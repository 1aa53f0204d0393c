import sys,re
p='/verif/engine/incrate/all.rs';s=open(p).read()
name=sys.argv[1]; props=sys.argv[2].split(',')
line='        (&[%s], %s::run), //@%s\n'%(', '.join('"%s"'%x for x in props),name,name)
if f'mod {name};' not in s:
    i=s.index('\nconst _SRC_HASH'); s=s[:i]+f'#[path = "/verif/engine/incrate/{name}.rs"] mod {name}; //@{name}\n'+s[i:]
s=re.sub(r'        \(&\[[^\]]*\], %s::run\), //@%s\n'%(name,name),'',s)
i=s.index('    ]\n}\n\npub fn main'); s=s[:i]+line+s[i:]
open(p,'w').write(s)
