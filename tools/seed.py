"""Plant a bug in a scratch clone (never in /repo), confirm it (demo fails with it, stable tests pass) and save it to /verif/seeded."""
import subprocess, os, json, sys, shutil, tempfile
REL="src/tight_binding_redweasel/"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV="unset PYTHONPATH; export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONPATH=$PWD/src; "
def seed(id, prop, edits, demo, needs, breaks, tests=True, check=True):
    """edits: list of (file, old, new)"""
    d=f"/verif/seeded/{id}"
    wt=tempfile.mkdtemp(prefix="seed_")
    log=[]
    try:
        sh(f"git clone -q {os.environ.get('SRC_REPO','/repo')} {wt}/r"); wt_r=wt+"/r"
        for f,o,n in edits:
            s=open(wt_r+"/"+REL+f).read()
            assert s.count(o)==1,(id,f,s.count(o),o)
        os.makedirs(d,exist_ok=True)
        open(d+"/demo.py","w").write(demo)
        open(d+"/demo.sh","w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexport PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
        r=sh(f"bash {d}/demo.sh",cwd=wt_r)
        log.append(f"   clean demo rc {r.returncode} {(r.stdout+r.stderr)[-300:].strip()}")
        ok=r.returncode==0
        for f,o,n in edits:
            p=wt_r+"/"+REL+f
            s=open(p).read()
            open(p,"w").write(s.replace(o,n))
        open(d+"/patch.diff","w").write(sh(f"git -C {wt_r} diff").stdout)
        r=sh(f"bash {d}/demo.sh",cwd=wt_r)
        log.append(f"   patched demo rc {r.returncode} {(r.stdout+r.stderr)[-300:].strip()}")
        ok=ok and r.returncode!=0
        if tests:
            st=json.load(open("/opt/vp/BASELINE.json"))["stable"]
            ids=" ".join(x.replace(".","/").replace("::",".py::") for x in st)
            t=sh(ENV+f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 {ids}",cwd=wt_r)
            log.append("   tests: "+t.stdout.strip().splitlines()[-1])
            if t.returncode: log += [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:5]
            ok=ok and t.returncode==0
        if ok and check:
            c=sh(f"VERIF_REPO={wt_r} ./run.sh {prop} quick {os.environ.get("H","")}",cwd="/verif")
            log.append(f"   CHECK rc={c.returncode} "+("CAUGHT" if c.returncode==1 else "MISSED")+" "+"".join([l[:200] for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:1]))
    finally:
        shutil.rmtree(wt)
    log.append(f"   {id} "+("OK" if ok else "REJECTED"))
    if not ok: shutil.rmtree(d)
    print(id,prop); print("\n".join(log),flush=True)
    return ok
