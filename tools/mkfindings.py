import subprocess
log={}
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','868cd7d..'],text=True).splitlines():
    h,s=l.split(' ',1); log[s]=h
P={
'rotate the workers':'C03','worker ids and seeds when restoring':'C07','do not cache the worker seed':'C17','LimitDataset fetched':'C14','WorkerRng.restore_state(None)':'C04','RepeatDataset lost':'C14','EpochizeDataset kept':'C03','PackingDataset created bogus':'C13','GroupBatchDataset restored':'C03','apply encode_batch':'C13','MapDataset resuming':'C03','BatchDataset restore keys after':'C07','BatchDataset length':'C14','BlendDataset restore keys':'C07','ConcatDataset repeated':'C03','IterMapDataset restore keys':'C07','restoring a state must not take':'C04','sample offsets and restore keys of shards':'C07','RetryReadStream':'C11','save the sample index when not':'C22','seed of workers without a sample':'C03','the final checkpoint of a worker':'C03','saving the state of the loader again':'C04'}
import re
out=["# Known findings and repaired defects. Format: see DESIGN.md. Never written by a check.",""]
F=open('/verif/tools/findings.txt').read().strip()
out+= [F,""]
for s,h in reversed(list(log.items())):
    p=next((v for k,v in P.items() if k in s), None)
    if p is None:
        m=re.search(r'\[(C\d\d)\]',s); p=m.group(1) if m else None
    ex=open('/verif/tools/fixprops.txt').read()
    m=re.search(r'^(C\d\d) '+re.escape(s)+'$',ex,re.M)
    if m: p=m.group(1)
    assert p,s
    out.append(f"fixed: property={p} {h} {s.replace('fix: ','')}")
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
