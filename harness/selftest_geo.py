import random, sys
from fractions import Fraction as F
import geo
import core
from scipy.optimize import linprog
random.seed(1)
bad=0
for it in range(1500):
    d=random.randint(1,4); m=random.randint(1,7)
    H=[([random.randint(-4,4) for _ in range(d+1)], random.random()<.1) for _ in range(m)]
    c=[random.randint(-3,3) for _ in range(d+1)]
    s,v,x=geo.lp_max(c,H,d)
    A=[[-t for t in r[1:]] for r,e in H if not e]; b=[r[0] for r,e in H if not e]
    E=[r[1:] for r,e in H if e]; f=[-r[0] for r,e in H if e]
    R=linprog([-t for t in c[1:]],A or None,b or None,E or None,f or None,bounds=[(None,None)]*d)
    exp={0:"opt",2:"inf",3:"unb"}.get(R.status)
    if R.status==4: continue
    if s!=exp or (s=="opt" and (abs(float(v)-(-R.fun+c[0]))>1e-7 or not geo.inside(H,x))): bad+=1; print(s,exp,v,R.fun,H,c)
print("bad",bad)
