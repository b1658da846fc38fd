"""Development helper: writes harness/protocol_table.inc, the committed oracle of C14. Checks never run it."""
import re
h=open('/repo/include/dap/protocol.h').read()
h=re.sub(r'//.*','',h)
structs={}
for m in re.finditer(r'struct (\w+)(?:\s*:\s*public\s+(\w+))?\s*\{(.*?)\};',h,re.S):
    name,base,body=m.groups()
    fields=[]
    for st in body.split(';'):
        st=' '.join(st.split())
        if not st: continue
        if st.startswith('using'):
            fields.append(st); continue
        mm=re.match(r'(.+?) (\w+)(?: = (.*))?$',st)
        if not mm: print('??',name,st); continue
        fields.append(mm.groups())
    structs[name]=(base,fields)
impl={}
for f in ['types','requests','response','events']:
    s=open('/repo/src/protocol_%s.cpp'%f).read()
    for a in s.split('DAP_IMPLEMENT_STRUCT_TYPEINFO')[1:]:
        a=' '.join(a.split())
        ext=a.startswith('_EXT')
        if ext: a=a[4:]
        if not re.match(r"\( ?(\w+),",a): print("??",f,a[:80]); continue
        nm=re.match(r"\( ?(\w+),",a).group(1)
        fl=re.findall(r'DAP_FIELD\((\w+), "([^"]*)"\)',a)
        impl[nm]=(f,re.match(r'\( ?\w+, (?:(\w+), )?"([^"]*)"',a).groups(),fl)
alias = dict(re.findall(r'using (\w+) = (string|integer|boolean);', h))
def kind(t):
    opt = 0
    m = re.match(r'optional<(.*)>$', t)
    if m: opt = 1; t = m.group(1)
    t = alias.get(t, t)
    k = {"boolean": "b", "integer": "i", "number": "n", "string": "s", "object": "o", "any": "v"}.get(t)
    if not k: k = "a" if t.startswith("array<") else "v" if t.startswith("variant<") else "o"
    return opt, k
out = ["// S(type, DAP name)  F(member, DAP field name, optional, JSON kind)  E(type)  B(type, base)"]
for n in structs:
    base, fs = structs[n]
    if n not in impl: continue
    out.append('S(%s, "%s")' % (n, impl[n][1][1]))
    if base and base not in ("Request", "Response", "Event"): out.append('  B(%s)' % base)
    names = dict(impl[n][2])
    for f in fs:
        if isinstance(f, tuple):
            o, k = kind(f[0])
            out.append('  F(%s, "%s", %d, \'%s\')' % (f[1], names[f[1]], o, k))
    out.append('E(%s)' % n)
open(os.environ.get("OUT", "/tmp/w/protocol_table.inc"), "w").write("\n".join(out) + "\n")
reqs=[(n,[f for f in structs[n][1] if not isinstance(f,tuple)]) for n in structs if structs[n][0]=="Request"]
for n,u in reqs:
    exp=n.replace("Request","Response")
    if u!=["using Response = "+exp]: print(n,u)
