#!/usr/bin/env python3-vt
"""writes MANIFEST.json from the contract registry"""
import sys,os,json,importlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V,V+'/llvc',V+'/contracts']
import api
for f in sorted(os.listdir(V+'/contracts')):
    if f.endswith('.py') and f!='__init__.py': importlib.import_module(f[:-3])
from native_registry import NATIVE,LEVEL
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={'N01':'needs a contract for the asynchronous network layer (boost::asio callbacks, socket_stream): the ordering of completion handlers is decided by a library whose code no contract here can bring within the verifier\'s reach; the request handling below it is covered by C14-C16',
    'N02':'needs contracts for boost::asio, the operating system and process start-up/shut-down code; outside what function contracts over /repo can express. Exceptions and bounds inside request handling are covered by C13-C18'}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    ts=[t for t in api.TARGETS.values() if i in t.props]
    lvl,note=LEVEL[i]
    fs=sorted({f for t in ts for f in t.funcs})
    tech='contract-based deductive verification of the LLVM IR of the real functions (llvc: weakest-precondition style symbolic execution, loop invariants, callee contracts; Z3/cvc5)' if ts else 'bounded stand-in: randomised native run of the real code against a contract oracle (no obligation discharged yet)'
    ck=dict(property=i,quick_cmd='python3-vt check.py '+i,thorough_cmd='python3-vt check.py %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,technique=tech,level=lvl,level_note=note)
    if ts: ck['theorems']=[t.name for t in ts]
    checks.append(ck)
m=dict(version=1,setup_cmd="python3-vt -c 'import z3, cvc5' && /usr/bin/clang++-18 --version && mkdir -p evidence",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='No hooks in /repo: the verified text is the LLVM IR clang produces from the unmodified sources on every run. known_findings.txt lists the repaired defects (fix: commits).')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
