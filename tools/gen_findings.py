"""Writes known_findings.json from the fix commits in /repo (run by hand)."""
import subprocess,json,re
m="""80aa66b(C16) 1225309,9d7a3f4,c3098bc,646fe97,26f0d27,1a4909d,bd77b59(C07) a67b76d,b380d95(C08) 24a9e3b(C08) 37f013f(C08) 92676b4(C09) ab3d039(C02) d9315aa(C09) 860b961(C03) 91fdc2a(C16) bd042a5(C09) 4c0f076,809d1bb,f8c63f9(C10) 2e16c19(C13) 7c9de3e,e7d5b7f,e50542e(C10) b05a75c,e48ea89,0f25b14(C13) ce90e22(C12) 7d174fc(C10) 12dc297(C06) 097b51e(C11) 384937d(C11) 45434a8(C09) 071c530,fbfeef4,ad85b44,da391c9,b2eda23,fb3c685,ea2358b(C04) 1d605dd,93bdce5,0333fbb,64e2ba2(C02) 17a9124(C16) 7ed2321(C07) bd60792(C17) 0729784(C19) fdcaf74(C07) f827ec6,2a5d689,c6c3e23,bff9081(C20) ebc8338(C07) 8c2ed12(C11) 70cc42c(C01) 8fa2821(C11) eaa443e(C04) 7022d34(C09) 90c620e(C13) c0a70ae(C11) 32d3028(C05) ca5d115,cc742d6,5d3f2d5,644d277(C14) 2521613,4cc8476(C10) 353def8(C14) ce727c0(C19) d1f4882(C02) 0a266c8(C12) ce50c55(C10) 264298d,141c565(C12) 79ed6a1(C19) 93432b6,5ccba5a(C09) 71a151c(C11) 3a07780(C17)"""
prop={}
for part in m.split():
    hs,p=re.match(r"(.*)\((C\d+)\)",part).groups()
    for h in hs.split(","): prop[h]=p
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()
fixed=[]
for l in reversed(log):
    h,s=l.split(" ",1)
    if s.startswith("fix: "):
        fixed.append(f"fixed: property={prop[h]} {h} {s[5:]}")
        del prop[h]
print(prop)
json.dump({"known":[{"property":"C09","mechanism":"generalized_degree:isolated-omitted","what":"generalized_degree leaves out nodes that are in no edge: the returned map cannot hold an empty row (networkx gives them an empty counter)"}],"fixed":fixed},open("/verif/known_findings.json","w"),indent=1)
