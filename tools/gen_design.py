"""Development helper: rewrites sections 2 and 5 (tables) of DESIGN.md from specs.py, properties.jsonl, seeded/ and caught.json."""
import sys,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/checks')
import specs
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
H={
'C01':("message bytes, cut points of every transport read","a reader over the writer's own output returns the same list of byte strings"),
'C02':("garbage bytes, damaged header bytes, policy","an independent 30-line reference scanner written from the property text (harness/stream.cpp `parseHeader`, `refLenient`, `refStrict`): the delivered messages must be those of the reference; in a session: the stream stays open"),
'C03':("as C02","the reference for the strict grammar; stream closed exactly when the reference says so"),
'C04':("digits of the length field, position of the end of stream","decimal value computed over bytes without wrap-around; delivered size must equal it"),
'C05':("message bytes, outcome of every transport write","recorded transport writes compared with the exact frame"),
'C06':("written bytes, sizes, schedule, spurious wake-ups","sequence of successful writes in lock order; contiguity of each write; deadlock = stranded reader"),
'C07':("items, schedule","each item exactly once, per-putter order, drain after close, deadlock freedom"),
'C08':("schedule, guard operation sequence","critical-section counters; all threads terminate; lock free at the end"),
'C09':("value, schedule, timeouts, clock","value equality; ready/timeout against the recorded time of set_value; no thread left waiting"),
'C10':("operation sequence, kinds, values, sizes","a shadow (kind, value) per container; allocation balance; engine memory checks"),
'C11':("operation sequence, both values","comparison laws over (has, value) pairs"),
'C12':("integers, bytes, tree shape","equality of the decoded value with the original, including type"),
'C13':("JSON text bytes, digits, kinds at typed positions","hand-written byte-level acceptance predicate for numbers/literals/strings, strict type table; no crash"),
'C14':("all leaf values of every structure, which optionals are set","the committed table `harness/protocol_table.inc` of members, DAP names, optionality and kinds (drawn up once at the pinned commit, checked by hand where member and DAP name differ, never regenerated by a check)"),
'C15':("leaf values, schedule, reference counts","sizeof/alignof, equality, allocation balance, object identity, exit-time balance"),
'C16':("response numbers, kinds, texts, order","per-future expectation computed from the history"),
'C17':("request number, handler outcome, response values","frames parsed from the transport with a small independent JSON reader"),
'C18':("schedule, values","wire = whole frames; sequence numbers pairwise different; future values"),
'C19':("envelope field forms, message bytes","decision table from the property text; marker test that quoted text is not interpreted"),
'C20':("schedule, arrival","handler log equals arrival order; one at a time"),
'C21':("schedule, scenario","onClose count, both streams closed, no live thread or allocation, deadlock freedom"),
'C22':("result of every system call, operation sequence, schedule","a descriptor table in the stand-in OS (`sxs_socket`, ...): each close once, no use after close"),
'C23':("parts accepted/delivered per call, sizes, bytes","the stand-in's accepted byte string"),
'C24':("timeout, time of establishment, errors, descriptor values","stand-in clock: waited time <= timeout; blocking flag; result exactly if established"),
'C25':("system call results, schedule","callback counts and times, thread count, start() result"),
'C26':("transfer sizes, bytes, outcomes, C library failures","recorded calls on both sides; a stand-in FILE"),
'C28':("field values, which optionals are set, which JSON members are present and of which kind","field tables written next to the structures in the harness: each described field (own, of the base, of the base's base, whatever the order of the bases) under its name, nothing else touched (guard bytes between fields)"),
'C29':("operation sequence, values, texts","a shadow (success, value, text) per object"),
'C27':("registration order, text lengths and bytes, schedule","first-wins table; text = reference formatting cut to the buffer"),
}
out=[]
for p in sorted(specs.SPECS):
    s=specs.SPECS[p]; n=len(specs.instances(p,'quick'))
    out.append("### %s %s\n"%(p,props[p]['title']))
    out.append("* **Symbolic / enumerated by the solver or scheduler:** %s."%H[p][0])
    out.append("* **Oracle:** %s."%H[p][1])
    out.append("* **Bounds (quick unless stated):** %s."%s['bounds'])
    out.append("* **Outside:** %s."%(s['outside'] or '-'))
    out.append("* **Why beyond tests:** %s"%props[p]['why_tests_cant'])
    files=sorted({i['file'] for i in s['inst']})
    out.append("* %d quick instances of %s.\n"%(n,", ".join("harness/"+f for f in files)))
s=open(V+'/DESIGN.md').read()
a=s.index('### C01'); b=s.index('## 3. Findings')
s=s[:a]+"\n".join(out)+"\n\n"+s[b:]
rows=["| change | property | needs | caught by (quick) |","|---|---|---|---|"]
caught=json.load(open(V+'/tools/caught.json'))
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%i))
    rows.append("| %s | %s | %s | %s |"%(i,m['property'],m['needs'],caught[i]))
a=s.index('| change | property |'); b=s.index('\n\n',a)
s=s[:a]+"\n".join(rows)+s[b:]
open(V+'/DESIGN.md','w').write(s)
