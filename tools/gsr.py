"""Coefficients of the slow-roll expansions from general slow roll, against those in /repo (python3-vt tools/gsr.py)."""
from sympy import *
e1,e2,e3,e4,lam,al=symbols('e1 e2 e3 e4 lam alpha')
z3=zeta(3)
def dN(x): return diff(x,e1)*e1*e2+diff(x,e2)*e2*e3+diff(x,e3)*e3*e4
def tr(x,n=3):
    y=expand(expand(x).subs({e1:lam*e1,e2:lam*e2,e3:lam*e3,e4:lam*e4},simultaneous=True))
    return sum(y.coeff(lam,i) for i in range(n+1))
# y=-aH tau: dy/dN = (1-e1) y - 1
y=1
for i in range(5):
    y=tr((1+dN(y) if i else 1)/(1-e1) if False else 1+ e1*y+ (dN(y) if i else 0),4)
    # y = 1 + e1 y + dy/dN
print('y',y)
def spec(lnz_H): # ln f = ln y + lnz_H where z/(aH... ) ; returns P*f^2 series
    pass
def P(dlnf_dN_extra):
    # ln f = ln y + g, dg/dN = extra ; d/dlnx = -(y) d/dN   [dlnx/dN = dln(-tau)/dN = -1/y]
    D=lambda q: tr(-y*dN(q),3)
    p=tr(-dN(y)-y*dlnf_dN_extra,3)     # f'/f
    p1=D(p); p2=D(p1)
    f1=p; f2=tr(p1+p**2); f3=tr(p2+3*p*p1+p**3)
    def F(a):
        r=1-2*a*f1+(3*a**2-4+5*pi**2/12)*f1**2+(-a**2+pi**2/12)*f2+(-4*a**3+16*a-Rational(5,3)*pi**2*a-8+6*z3)*f1**3+(3*a**3-8*a+Rational(7,12)*pi**2*a+4-2*z3)*f1*f2+(-a**3/3+pi**2*a/12-Rational(4,3)+2*z3/3)*f3
        return r
    return F
S=P(e1+e2/2); T=P(e1)
def final(F,a):
    u=y-1; return tr(tr(F(a))*tr(1-2*u+3*u**2-4*u**3))      # 1/f^2 = (H^2/(4pi^2 2 e1)) / y^2
# at pivot -k tau=1: quantities at N_cross (k tau=-1) , a=alpha, and y^2 factor
Z=7*z3/3
s=final(S,al); t=final(T,al)
import re
src=open('/repo/primpy/inflation.py').read()
def grab(name):
    m=re.search(r'\n\s+%s = (\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\))'%name,src)
    txt=m.group(1)
    txt=re.sub(r'#.*','',txt); txt=re.sub(r'(?<![\w.*])(\d+)/(\d+)',r'Rational(\1,\2)',txt)
    return eval(txt.replace('\n',' '),dict(e1=e1,e2=e2,e3=e3,e4=e4,alpha=al,Z=Z,pi=pi,zeta=zeta,Rational=Rational))
def part(x,n):
    return expand(expand(x).subs({v:lam*v for v in (e1,e2,e3,e4)},simultaneous=True)).coeff(lam,n)
for n in (1,2,3):
    for q,nm in ((s,'as'),(t,'at')):
        try: g=grab('%s0_%d'%(nm,n)) 
        except Exception as ex: g={'at1':1+2*(-1+al)*e1,'at2':None}.get('%s%d'%(nm,n)); 
        if g is None:
            g=(-3 - 2 * al + 2 * al**2 + pi**2 / 2) * e1**2+ (-2 + 2 * al - al**2 + pi**2 / 12) * e1 * e2
        d=simplify(expand(part(q,n)-part(expand(g),n)))
        print(nm,n,collect(expand(d),[e1,e2,e3,e4]))

# CGS: quantities at k=aH: x*=y ; a = alpha - ln y
lny=lambda: tr((y-1)-(y-1)**2/2+(y-1)**3/3)
A=tr(al-lny())
sc=final(S,A); tc=final(T,A)
d1=e2/2-e1
d2=tr(dN(d1)+d1*(d1-e1)); d3=tr(dN(d2)+d2*(d1-2*e1))
g2=e1*e2; g3=tr(dN(g2)-e1*g2)
def code(astar):
    R=Rational
    o1=1+(4*astar-2)*e1+2*astar*d1+(-astar**2+pi**2/12)*d2+(R(1,3)*astar**3-pi**2/12*astar+R(4,3)-R(2,3)*zeta(3))*d3
    o2=((4*astar**2-19+7*pi**2/3)*e1**2+(3*astar**2+2*astar-20+29*pi**2/12)*e1*d1+(3*astar**2-4+5*pi**2/12)*d1**2
     +(-R(5,3)*astar**3-2*astar**2+20*astar-R(9,4)*pi**2*astar+R(16,3)+pi**2/6-R(14,3)*zeta(3))*e1*d2
     +(-3*astar**3+8*astar-R(7,12)*pi**2*astar-4+2*zeta(3))*d1*d2)
    o3=((4*astar**2+8*astar+16+5*pi**2-48*zeta(3))*e1**3+(-R(5,3)*astar**3+4*astar**2+32*astar-R(9,4)*pi**2*astar+R(88,3)+R(23,3)*pi**2-R(230,3)*zeta(3))*e1**2*d1
     +(3*astar**3+4*astar**2-24*astar+R(13,4)*pi**2*astar+16+R(7,3)*pi**2-30*zeta(3))*e1*d1**2+(4*astar**3-16*astar+R(5,3)*pi**2*astar+8-6*zeta(3))*d1**3)
    t1=1+2*(astar-1)*e1+(-astar**2+2*astar-2+pi**2/12)*g2+(astar**3/3-astar**2+(2-pi**2/12)*astar+pi**2/12-R(2,3)-R(2,3)*zeta(3))*g3
    t2=(2*astar**2-2*astar-3+pi**2/2)*e1**2+(-R(5,3)*astar**3+2*astar**2+(8-R(11,12)*pi**2)*astar+R(7,6)*pi**2-R(26,3)-R(2,3)*zeta(3))*e1*g2
    t3=(R(4,3)*astar**3-8*astar+pi**2*astar+R(16,3)-R(14,3)*zeta(3))*e1**3
    return tr(o1+o2+o3),tr(t1+t2+t3)
for nm,as_ in (('alpha-e1',al-e1),('alpha - e1 - ...',A),('alpha',al)):
    cs,ct=code(as_)
    for n in (1,2,3):
        print(nm,n,'S',factor(collect(expand(part(sc-cs,n)),[e1,e2,e3])),'| T',factor(collect(expand(part(tc-ct,n)),[e1,e2,e3])))
