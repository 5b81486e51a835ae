"""The coefficients of general slow roll by integration of the mode equation (python3-vt tools/gsrnum.py)."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.special import zeta
def lnP(p,q,r):
    # ln f = pL+qL^2/2+rL^3/6 ; z = f/x ; ln z = ln f - L
    def g(L): return p+q*L+r*L*L/2-1   # dln z/dL
    def zpp(x):
        L=np.log(x); a=g(L); b=q+r*L     # x^2 z''/z = a^2 - a + b
        return (a*a-a+b)/x**2
    X=3000.; w2=1-zpp(X); w=np.sqrt(w2)
    e=1e-3; dw2=(-(zpp(X+e)-zpp(X-e))/(2*e))
    y0=[w**-.5,0, -dw2/4/w2*w**-.5, w**.5]   # phi = w^-1/2 e^{i int w}
    f=lambda x,y:[y[2],y[3],-(1-zpp(x))*y[0],-(1-zpp(x))*y[1]]
    s=solve_ivp(f,(X,1e-3),y0,method='DOP853',rtol=1e-13,atol=1e-13)
    x=1e-3; ph=s.y[0,-1]**2+s.y[1,-1]**2; L=np.log(x)
    return np.log(ph*x*x)-2*(p*L+q*L*L/2+r*L**3/6)
h=0.02
mixed=(lnP(h,h,0)-lnP(h,-h,0)-lnP(-h,h,0)+lnP(-h,-h,0))/(4*h*h)
r1=(lnP(0,0,h)-lnP(0,0,-h))/(2*h)
q1=(lnP(0,h,0)-lnP(0,-h,0))/(2*h)
p1=(lnP(h,0,0)-lnP(-h,0,0))/(2*h)
a=2-np.log(2)-np.euler_gamma; z3=zeta(3); pi=np.pi
C1=-2*a; A2=3*a*a-4+5*pi**2/12; B2=-a*a+pi**2/12; C3=-a**3/3+pi**2*a/12-4/3+2*z3/3; M=3*a**3-8*a+7/12*pi**2*a+4-2*z3
# P: pq coefficient: M + 3*C3 (f'''=..3pq) ; ln P pq: minus C1*B2
print(p1,C1); print(q1,B2); print(r1,C3); print(mixed, M+3*C3-C1*B2)
