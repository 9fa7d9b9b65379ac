#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits of /repo."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = {"8ca9481":"P02","dcbf390":"P28","7a0f5a7":"P28","3020d0b":"P28","6357524":"P01","f31ac55":"P28","1fa8549":"P01","ae68a99":"P28","08a28d6":"P28","2046e06":"P03","32869f6":"P05","3a25b15":"P12","59eb111":"P12","1c0b950":"P11","1ae84e7":"P19","c59b035":"P19","9290333":"P19","a70316b":"P10","d0b4f73":"P09","cc79ef1":"P05","d0af912":"P13","0b563c0":"P05","b6eaa0f":"P05","966c0ef":"P15","d2fdcb6":"P15","a1b392a":"P14","4205146":"P05","35af0f3":"P14","35c036d":"P14","2143827":"P06","3229a23":"P04","85cee1a":"P04","261ff56":"P04","3386543":"P06","7d6a69d":"P07","884844f":"P27","6cfe5a1":"P27","866d94e":"P27","a5fdcb4":"P26","0b4a8ea":"P21","1541dfc":"P21","ff71137":"P21","01c799a":"P22","1981b67":"P23","18701ab":"P24","c3a083f":"P31","5f65a73":"P30","3463a76":"P30","b975c99":"P14","9c915a8":"P30","f4f3f22":"P30","ea4ccec":"P12","e98e739":"P19","b6b5002":"P15"}
fixed = []
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append("fixed: property=%s %s %s" % (prop.get(h, "?"), h, s[5:]))
json.dump({"findings": [], "fixed": fixed}, open(root + '/known_findings.json', 'w'), indent=1)
print(len(fixed), [x for x in fixed if '?' in x])
