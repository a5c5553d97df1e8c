#!/usr/bin/env python3
"""Try many small syntactic changes of one family's files against that family's checks.
usage: run.py FAMILY OUT.jsonl [--n N] [--seed S] [--dur SECONDS] [--jobs J] [--func RE]
Each change is made in a scratch clone, never in /repo. A change that compiles and that no check reports within the
time is a survivor: harmless, outside every statement, or a blind spot. MUTATE_VERIF names a copy of /verif to use. Working files go under /tmp and are removed."""
import sys,os,json,subprocess,random,argparse,re,shutil
from multiprocessing import Pool
VERIF=os.environ.get('MUTATE_VERIF') or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FAM={
 'server':(['boripserver/main.go','boripserver/devices.go'],[('S01','S01 S02 S03 S04 S05 S06'.split()),('E01',['E01'])]),
 'client':(['borip/client.go','borip/packet.go'],[('C01','C01 C02 C03'.split()),('E01',['E01'])]),
 'ax25':(['dsp/ax25/crc.go','dsp/ax25/hdlc.go'],[('A01','A01 A02 A03'.split())]),
 'dsp':(['dsp/'+x+'.go' for x in 'filter biquad downsample demod goertzel sdft conversion math32 util'.split()],[('D01','D01 D02 D03 D04 D05'.split()),('D06',['D06'])]),
 'biquad':(['dsp/biquad.go'],[('D01',['D07'])]),
 'phase':(['dsp/'+x+'.go' for x in 'demod math32 mathfixed'.split()],[('D01',['D09'])]),
 'interp':(['dsp/interpolate.go'],[('D01',['D08'])]),
 'kern':(['dsp/'+x+'.go' for x in 'conversion math32 util window'.split()],[('D01',['D04'])]),
 'dtmf':(['dsp/dtmf/dtmf.go','examples/dtmf_file.go'],[('D06',['D06']),('D01',['D02','D01'])]),
 'asm':(['dsp/conversion_amd64.s','dsp/math32_amd64.s','dsp/conversion_avo_amd64.s'],[('D04',['D04','D01'])]),
 'cpu':(['dsp/cpu_amd64.go','dsp/cpu_arm.go']+['dsp/internal/cpu/%s.go'%x for x in 'cpu cpu_x86 cpu_arm cpu_arm64 cpu_arm64_hwcap cpu_arm64_freebsd cpu_arm64_darwin cpu_arm64_linux cpu_arm64_android cpu_386 cpu_amd64'.split()],[('D11',['D11'])]),
 'arm':(['dsp/%s_%s.s'%(f,a) for f,l in (('conversion','arm arm64 386'),('demod','arm arm64 386'),('downsample','arm arm64 386'),('math32','arm arm64 386'),('mathfixed','arm'),('util','arm arm64 386')) for a in l.split()],[('D04',['D10'])]),
}
def sh(c,env=None,t=300):
    e=dict(os.environ); e.update(env or {})
    try:
        r=subprocess.run(c,shell=True,capture_output=True,text=True,errors="replace",env=e,timeout=t)
        return r.returncode,r.stdout,r.stderr
    except subprocess.TimeoutExpired:
        return 124,'',''
def one(a):
    m,fam,dur=a
    w=str(os.getpid()); tree='/tmp/mw/'+w; b='/tmp/mb/'+w
    if not os.path.isdir(tree):
        os.makedirs('/tmp/mw',exist_ok=True)
        subprocess.run(['git','clone','-q','/repo',tree],check=True)
    p=tree+'/'+m['file']; src=open(p,'rb').read()
    open(p,'wb').write(src[:m['a']]+m['new'].encode()+src[m['b']:])
    try:
        res={}
        for build,props in FAM[fam][1]:
            rc,o,e=sh('bash %s/check.sh %s quick'%(VERIF,build),{'VERIF_REPO':tree,'VERIF_BUILD':b,'VERIF_BUILD_ONLY':'1'})
            if rc: 
                m['result']='nobuild'; m['detail']=(o+e)[-300:]; return m
            for P in props:
                rc,o,e=sh('ulimit -v 16000000; timeout 90 %s/%s/driver probe -prop %s -seed 1 -dur %s -verif %s -sites %s/%s/sites.json'%(b,build,P,dur,VERIF,b,build),{'GOMAXPROCS':'1'})
                o=o.strip()
                res[P]=o.split('\n')[-1][:300] if o else 'rc%d %s'%(rc,e[-200:])
                if not res[P].startswith('QUIET'):
                    m['result']='caught' if res[P].startswith('CAUGHT') else 'error'
                    m['by']=P; m['detail']=res[P]; return m
        m['result']='survived'; return m
    finally:
        open(p,'wb').write(src)
if __name__=='__main__':
    ap=argparse.ArgumentParser(); ap.add_argument('fam'); ap.add_argument('out'); ap.add_argument('--n',type=int,default=10**9); ap.add_argument('--seed',type=int,default=1); ap.add_argument('--dur',default='4'); ap.add_argument('--jobs',type=int,default=7); ap.add_argument('--func',default=''); ap.add_argument('--skip',default='$^'); ap.add_argument('--again',default='',help='only what survived in that file')
    A=ap.parse_args()
    env={'GO111MODULE':'off'}
    sh('cd %s/tools/mutate && go build -o /tmp/mutate.bin main.go'%VERIF,env)
    ms=json.loads(subprocess.run(['/tmp/mutate.bin','/repo']+FAM[A.fam][0],capture_output=True,text=True).stdout)
    ms=[m for m in ms if re.search(A.func,m['func']) and not re.search(A.skip,m['func']+' '+m['desc'])]
    done=set()
    if os.path.exists(A.out):
        for l in open(A.out):
            d=json.loads(l); done.add((d['file'],d['a'],d['b'],d['new']))
    ms=[m for m in ms if (m['file'],m['a'],m['b'],m['new']) not in done]
    random.Random(A.seed).shuffle(ms); ms=ms[:A.n]
    if A.again:
        old={(d['file'],d['a'],d['b'],d['new']) for d in map(json.loads,open(A.again)) if d['result']=='survived'}
        ms=[m for m in ms if (m['file'],m['a'],m['b'],m['new']) in old]
    print(len(ms),'to try')
    c={}
    with Pool(A.jobs) as pool, open(A.out,'a') as f:
        for m in pool.imap_unordered(one,[(m,A.fam,A.dur) for m in ms]):
            f.write(json.dumps(m)+'\n'); f.flush(); c[m['result']]=c.get(m['result'],0)+1
    print(c)
    shutil.rmtree('/tmp/mw',ignore_errors=True); shutil.rmtree('/tmp/mb',ignore_errors=True)
