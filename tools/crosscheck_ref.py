"""Cross-validation of the reference model (mc/ref.py) against pywt."""
import os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
warnings.simplefilter("ignore")
import numpy as np, pywt
from mc import ref
rng=np.random.default_rng(0); worst=0
for w in ref.EVEN:
    f=ref.flen(w)
    for mode in ref.MODES:
        for n in (5,8,13,f,f+1,40):
            if n<2 or (mode=='reflect' and n<5): continue
            x=rng.standard_normal(n)
            for L in (1,2,3):
                try: pc=pywt.wavedec(x,w,mode=mode,level=L)
                except ValueError: continue
                rc=[m@x for m in ref.wavedec_mats(w,n,mode,L)]
                worst=max(worst,max(np.abs(a-b).max() for a,b in zip(pc,rc)))
                pr=pywt.waverec(pc,w); rr=ref.waverec_apply(w,[c[:,None] for c in rc])[:,0]
                worst=max(worst,np.abs(pr-rr).max())
print('dec/rec',worst); worst=0
for w in ref.EVEN:
    for n in (8,16,24):
        x=rng.standard_normal(n)
        L=min(3,ref.swt_max_level(n))
        pc=pywt.swt(x,w,level=L,trim_approx=True)
        rc=[m@x for m in ref.swt_mats(w,n,L)]
        worst=max(worst,max(np.abs(a-b).max() for a,b in zip(pc,rc)))
        pr=pywt.iswt(pc,w) ; rr=ref.iswt_apply(w,[c[:,None] for c in rc])[:,0]
        if np.abs(pr-rr).max()>1e-6: print('iswt',w,n,np.abs(pr-rr).max(),ref.intrinsic_defect(w))
print('swt',worst,len(ref.EVEN),len(ref.DISCRETE)); worst=0
for w in ('haar','db2','bior2.2','sym4'):
    for mode in ref.MODES:
        for sh in ((7,10),(8,8),(12,9)):
            x=rng.standard_normal(sh)
            for L in (1,2):
                p=pywt.wavedec2(x,w,mode=mode,level=L); a,d=ref.wavedecn(w,x,mode,L,2)
                worst=max(worst,np.abs(p[0]-a).max())
                for (h,v,dd),q in zip(p[1:],d):
                    worst=max(worst,np.abs(h-q['da']).max(),np.abs(v-q['ad']).max(),np.abs(dd-q['dd']).max())
                worst=max(worst,np.abs(pywt.waverec2(p,w)-ref.waverecn(w,a,d,2)).max())
        x=rng.standard_normal((7,8,9))
        p=pywt.wavedecn(x,w,mode=mode,level=2); a,d=ref.wavedecn(w,x,mode,2,3)
        worst=max(worst,np.abs(p[0]-a).max())
        for pd,q in zip(p[1:],d):
            for k in q: worst=max(worst,np.abs(pd[k]-q[k]).max())
        worst=max(worst,np.abs(pywt.waverecn(p,w)-ref.waverecn(w,a,d,3)).max())
print('nd',worst)
