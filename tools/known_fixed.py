import subprocess,re
M="f4f2f80 C03|f0a3985 C01|bebd1f8 C32|ff1291f C07|a1f91e0 C07|36563df C14|67fee73 C09|647e58b C09|e8d9697 C25|c1b7e3e C19|4b7aae0 C19|71a077b C22|4cb48a9 C05|31fe84a C05|4857596 C04|47a8984 C04|f9fe62d C32|bb4687b C04|8a7e4b2 C16|dc4c17f C13|5d06da9 C21|cb4b6f3 C32|eec18ea C32|0d0941a C29|5f72ef9 C20|4139e45 C03|3aa0bc5 C03|7cd1ffe C08|d471805 C11|77abee3 C12|4c2a3a5 C12|7584055 C13|0713bab C13|90c2b76 C14|5bbfb47 C17|a392313 C16|2fe30d6 C21|550c96c C24|38cfbab C26|54371b4 C27|3bd98ec C31|ac5be3a C32|b0b9254 C32|cf09ce7 C31|eb1fb36 C34|e688aa7 C10|f4dd02b C34|8a98dce C34|ac10a59 C34"
log=dict(l.split(' ',1) for l in subprocess.check_output("git -C /repo log --format='%h %s' a2560d0..HEAD",shell=True,text=True).splitlines())
out=["# fixed: a genuine defect repaired by a fix: commit in /repo (suppresses nothing)","# known: a genuine defect that is recorded and not repaired"]
for e in M.split('|'):
    h,p=e.split()
    out.append(f"fixed: property={p} {h} {log.pop(h).replace('fix: ','')}")
print(log)
open('/verif/known-findings.txt','w').write("\n".join(out)+"\n")
