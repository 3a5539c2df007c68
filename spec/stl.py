"""Reference surface of the aircraft: outlines of the sections (NACA four-digit
airfoils, 50 points), placed on the wing's sections and on the propellers'
blades, and joined by two triangles per outline interval between neighbours."""
import numpy as np
import spec_wing as wing
import spec_prop as prop
from scipy.interpolate import interp1d

N = 50


def digits(name):
    if name[:4] in ("NACA", "naca") and len(name) == 8:
        return name[4:]
    return "2412"


def outline(name):
    """x (forward, from the quarter chord) and z (down) of a unit chord"""
    d = digits(name)
    m, p, t = float(d[0])/100., float(d[1])/10., float(d[2:4])/100.
    th = np.pi*(2.*np.arange(N)/(N - 1.) - 1.)
    x = 0.5*(1. - np.cos(th))
    half = 5.*t*(0.2969*np.sqrt(x) - 0.126*x - 0.3516*x**2 + 0.2843*x**3 - 0.1015*x**4)
    line, slope = 0.*x, 0.*x
    if m > 0 and p > 0:
        line = np.where(x < p, m/p**2*(2.*p*x - x*x), m/(1. - p)**2*(1. - 2.*p + 2.*p*x - x*x))
        slope = np.where(x < p, 2.*m/p**2*(p - x), 2.*m/(1. - p)**2*(p - x))
    a = np.arctan(slope)
    up = np.sign(th)
    return 0.25 - (x - up*half*np.sin(a)), -(line + up*half*np.cos(a))


def blend(foils, s):
    """outlines (stations x points) between the first and the last airfoil"""
    xa, za = outline(foils[0])
    xb, zb = outline(foils[1])
    return xa[None, :] + s[:, None]*(xb - xa)[None, :], za[None, :] + s[:, None]*(zb - za)[None, :]


def facets(C, n, flip):
    """two triangles per outline interval between neighbours of the n stations of
    the outlines C[station, point]; flip: seen from the other side"""
    f = np.arange((n - 1)*2*(N - 1))
    i = f//(2*(N - 1))
    k = f - 2*(N - 1)*i
    j = k//2
    odd = k - 2*j
    out = np.zeros((f.shape[0], 3, 3))
    if flip:
        # (i,j) (i+1,j) (i,j+1)  and  (i,j+1) (i+1,j) (i+1,j+1)
        out[:, 0] = C[i, j + odd]
        out[:, 1] = C[i + 1, j]
        out[:, 2] = C[i + odd, j + 1]
    else:
        # (i,j) (i,j+1) (i+1,j)  and  (i,j+1) (i+1,j+1) (i+1,j)
        out[:, 0] = C[i, j + odd]
        out[:, 1] = C[i + odd, j + 1]
        out[:, 2] = C[i + 1, j]
    return out


def wing_parts(doc):
    g = wing.sections(doc)
    wings = doc["wings"]
    parts = []
    start = 0
    for name, sign in wing.segments(doc):
        w = wings[name]
        n = w["grid"]
        sl = slice(start, start + n)
        start = start + n
        names = list(w["airfoils"])
        root, tip = names[0], names[0]
        if len(names) > 1:
            tip = names[1]
        foils = [root, tip] if sign > 0 else [tip, root]
        X, Z = blend(foils, g["s"][sl])
        ch = g["chord"][sl]
        X, Z = X*ch[:, None], Z*ch[:, None]
        th = (wing.DEG*g["twist"][sl])[:, None]
        ga = sign*wing.DEG*w["dihedral"]
        x = X*np.cos(th) + Z*np.sin(th)
        z = Z*np.cos(th) - X*np.sin(th)
        C = np.zeros((n, N, 3))
        C[:, :, 0] = x
        C[:, :, 1] = np.sin(ga)*z
        C[:, :, 2] = np.cos(ga)*z
        C = C + g["cp"][sl][:, None, :]
        parts.append(facets(C, n, False))
    return parts


def blade_foils(p, z):
    names = list(p["airfoils"])
    if len(names) == 1:
        X, Z = outline(names[0])
        return X[None, :] + 0.*z[:, None], Z[None, :] + 0.*z[:, None]
    loc = [z[0]]
    for nm in names[1:-1]:
        loc.append(p["airfoils"][nm]["span_position"])
    loc.append(z[-1])
    loc = np.array(loc)
    X = np.array([outline(nm)[0] for nm in names])
    Z = np.array([outline(nm)[1] for nm in names])
    return (interp1d(loc, X, kind="linear", axis=0, bounds_error=False, fill_value=(X[0], X[-1]))(z),
            interp1d(loc, Z, kind="linear", axis=0, bounds_error=False, fill_value=(Z[0], Z[-1]))(z))


def blade(p, g, k):
    """outlines of blade k"""
    n = g["n"]
    X, Z = blade_foils(p, g["zeta"])
    c = g["chord"][:, None]
    # pointing up: thickness along the axis, leading edge in the direction of rotation
    x, y = -Z*c, g["rot"]*X*c
    tw = (-g["rot"]*(g["beta"] + g["alpha_L0"]))[:, None]
    bx = x*np.cos(tw) - y*np.sin(tw)
    by = x*np.sin(tw) + y*np.cos(tw)
    bz = -g["r"][:, None] + 0.*bx
    ph = 2.*np.pi*k/g["k"]
    y2 = by*np.cos(ph) - bz*np.sin(ph)
    z2 = by*np.sin(ph) + bz*np.cos(ph)
    th, ga = prop.DEG*p["orientation"]["elevation_angle"], prop.DEG*p["orientation"]["heading_angle"]
    x3, z3 = bx*np.cos(th) + z2*np.sin(th), z2*np.cos(th) - bx*np.sin(th)
    C = np.zeros((n, N, 3))
    C[:, :, 0] = x3*np.cos(ga) - y2*np.sin(ga)
    C[:, :, 1] = x3*np.sin(ga) + y2*np.cos(ga)
    C[:, :, 2] = z3
    return C + g["pos"][None, None, :]


def blade_parts(doc, cg=None):
    parts = []
    props = doc["propellers"]
    for name in props:
        p = props[name]
        g = prop.geometry(p)
        for k in range(p["num_of_blades"]):
            parts.append(facets(blade(p, g, k), p["radial_nodes"], g["rot"] < 0.))
    return parts


def mesh(doc):
    parts = []
    if "wings" in doc:
        parts = wing_parts(doc)
    if "propellers" in doc:
        parts = parts + blade_parts(doc)
    return np.concatenate(parts)
