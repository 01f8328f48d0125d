import json,subprocess
p='/verif/known_findings.json'
k=json.load(open(p))
props={'7df4761':'M05','149a687':'M05','74c9a34':'M01','2d83685':'M01','97a87e0':'N04','f038765':'N04','e7aea2b':'N05','2b9965e':'B01','51f516f':'G01','a729be0':'G01','8a68233':'T06','cc0ef5c':'T06','72c0450':'T01','0cfd433':'T04','a1f05e9':'P01','1b706ee':'P01','f63aaa1':'P01','e9b6453':'P01','3f502f8':'P02','1c2056e':'S01','589a48f':'S01','17c3bba':'S01','1a267e5':'S01','407b2bf':'S01','b301d1d':'S01','3b8d812':'S02','d195d88':'S02','9d9a849':'S02','313eaa3':'S02','5895dc4':'S02','ac35443':'S01','f22931c':'D01','7f495fb':'D01','ed9ef25':'S01','7468edc':'C02','c521fc6':'C03','d5c2d08':'C03','8e956cd':'C01','8028b67':'C03','36884dd':'C03','1f506ff':'C03','e32bbb5':'C02','204204d':'G01','759ea73':'P02','1c1a5ea':'S01','2f466fc':'C03','890e086':'N05'}
log=subprocess.run('git -C /repo log --reverse --format=%h\t%s'.split(' '),capture_output=True,text=True).stdout.splitlines()
k['fixed']=[]
for l in log:
    h,s=l.split('\t')
    if not s.startswith('fix:'): continue
    if h not in props: print('missing',h,s)
    k['fixed'].append(f"fixed: property={props.get(h,'?')} {h} {s[5:]}")
json.dump(k,open(p,'w'),indent=1)
