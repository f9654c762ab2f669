import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s","--reverse"],capture_output=True,text=True).stdout.splitlines()[1:]
props={"the id of one still":"P08","could not be written ended":"P21","took an id the LLI program":"P06","a Y state prepared beside":"P27","JavaScript types of slices":"P26","whose second phase has no first layer":"P19","cross at neighbouring cells off":"P19","a pandora circuit was cut off":"P22","a register of no qubits":"P21","not UTF-8":"P21","output file could not be opened":"P21","the table of rz(pi/2^n)":"P25","controlled rotation with a huge":"P25","rotation decomposing stream":"P25","parse_angle":"P01","split_on":"P23","qasm indices":"P01","rz and crz without":"P01","only white space":"P02","even multiple of pi":"P01","patch ids that are":"P03","BellPairInit with fewer":"P04","the LLI parser refused":"P03","join turned":"P23","str_replace":"P23","get_cells":"P13","printing a patch":"P15","get_operating_qubits":"P18","rz, crz and reset gates were printed":"P01","decomposing a controlled rz":"P25","rz gates by -pi":"P05","default ancilla placement":"P06","first id generated":"P06","noprogress":"P21","computation without slices":"P15","both operators exposed":"P06","rotations asked for":"P06","boost graph search routed":"P07","a reserved cell spawned":"P11","a patch was rotated in the slice":"P12","binding a Y state read":"P11","the wave scheduler kept using":"P09","left out the one it places a patch next":"P18","asking for a patch next to one":"P24","operators that do not touch":"P20","lost its type and text":"P24","operation ids depended":"P21","--condensed given":"P21","graceful run was printed":"P15","proximate dep":"P17","removing an edge":"P17"}
old=json.load(open("/verif/known_findings.json"))
import sys
extra=json.load(open("/verif/tools/fixed_map.json")) if len(sys.argv)>1 else {}
props.update(extra)
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    k=[p for n,p in props.items() if n in s]
    if not k: print("UNMAPPED",l)
    fixed.append(f"fixed: property={k[0] if k else '?'} {h} {s[5:]}")
old["fixed"]=fixed
if not any(f["id"]=="cnot-ancilla-readout" for f in old["findings"]):
    old["findings"].append({"id":"cnot-ancilla-readout","property":"P05","what":"the CX/CZ gadget by two joint measurements prepares or reads its ancilla in the wrong basis: ControlFirst ends with an X readout where Z is needed, TargetFirst starts from |+> where |0> is needed, so the gadget does not act as CX/CZ (e.g. cx q[0],q[1] on a 2-qubit register)","input":"any cx or cz compiled without --local","why_not_repaired":"the regression suite's expected outputs encode these instructions"})
json.dump(old,open("/verif/known_findings.json","w"),indent=1)
