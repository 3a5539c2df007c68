"""Reference description of the wing model: geometry of the lifting-line
sections and the linearised numerical lifting-line method (Phillips & Snyder),
written from the airplane-file format and the theory, not from the code.
It is never executed: the analyser interprets it abstractly together with the
code and compares value numbers."""
import numpy as np

DEG = np.pi/180.


def tip_of(wings, name, sign):
    root = root_of(wings, name, sign)
    w = wings[name]
    return root + w["span"]*np.array([-np.tan(DEG*w["sweep"]),
                                      sign*np.cos(DEG*w["dihedral"]),
                                      -np.sin(DEG*w["dihedral"])])


def root_of(wings, name, sign):
    w = wings[name]
    c = w["connect"]
    base = np.zeros(3)
    if c["ID"] != 0:
        for other in wings:
            if wings[other]["ID"] == c["ID"]:
                base = tip_of(wings, other, sign)
    return base + np.array([c["dx"], c["dy"] + sign*c["yoffset"], c["dz"]])


def foils(w):
    names = list(w["airfoils"])
    root = w["airfoils"][names[0]]["properties"]
    tip = root
    if len(names) > 1:
        tip = w["airfoils"][names[1]]["properties"]
    return root, tip


def segments(doc):
    out = []
    for name in doc["wings"]:
        side = doc["wings"][name]["side"]
        if side == "both" or side == "left":
            out.append((name, -1.))
        if side == "both" or side == "right":
            out.append((name, 1.))
    return out


def sections(doc, cosine=True):
    """everything known about each section, left to right in each segment"""
    wings = doc["wings"]
    segs = segments(doc)
    total = 0
    for name, sign in segs:
        total += wings[name]["grid"]
    keys = ["chord", "c1", "c2", "twist", "dihedral", "sweep", "area", "eta", "s",
            "cla_l", "cla_r", "al0_l", "al0_r", "cma_l", "cma_r", "cm0_l", "cm0_r",
            "cd0_l", "cd0_r", "cd1_l", "cd1_r", "cd2_l", "cd2_r", "clmax",
            "flap", "cmd", "ma", "me", "mr", "mf"]
    g = {k: np.zeros(total) for k in keys}
    for k in ["cp", "p1", "p2", "un", "ua"]:
        g[k] = np.zeros((total, 3))
    g["name"] = np.empty(total, dtype=object)
    g["main_area"] = 0.
    start = 0
    for name, sign in segs:
        w = wings[name]
        n = w["grid"]
        sl = slice(start, start + n)
        start = start + n
        s, s1, s2 = (np.arange(n) + 0.5)/n, np.arange(n)/n, (np.arange(n) + 1)/n
        if cosine:
            s, s1, s2 = 0.5*(1. - np.cos(np.pi*s)), 0.5*(1. - np.cos(np.pi*s1)), 0.5*(1. - np.cos(np.pi*s2))
        root = root_of(wings, name, sign)
        tip = tip_of(wings, name, sign)
        rf, tf = foils(w)
        rc, tc = w["root_chord"], w["tip_chord"]
        if sign > 0:
            lp, rp, lc, rc2, lf, rf2, eta = root, tip, rc, tc, rf, tf, s
            g["name"][sl] = "right_" + name
        else:
            lp, rp, lc, rc2, lf, rf2, eta = tip, root, tc, rc, tf, rf, 1. - s
            g["name"][sl] = "left_" + name
        g["s"][sl] = s
        g["eta"][sl] = eta
        for k, t in [("cp", s), ("p1", s1), ("p2", s2)]:
            g[k][sl] = lp + t[:, None]*(rp - lp)
        g["chord"][sl] = lc + s*(rc2 - lc)
        g["c1"][sl] = lc + s1*(rc2 - lc)
        g["c2"][sl] = lc + s2*(rc2 - lc)
        twist = w["mounting_angle"] - eta*w["washout"]
        g["twist"][sl] = twist
        g["dihedral"][sl] = w["dihedral"]
        g["sweep"][sl] = w["sweep"]
        width = np.abs(s2 - s1)*w["span"]
        area = width*0.5*(g["c1"][sl] + g["c2"][sl])
        g["area"][sl] = area
        if w["is_main"]:
            g["main_area"] = g["main_area"] + np.sum(area)
        st, ct = np.sin(DEG*twist), np.cos(DEG*twist)
        sd, cd = np.sin(DEG*w["dihedral"]), np.cos(DEG*w["dihedral"])
        g["un"][sl] = np.array([-st, -sign*sd*ct, -cd*ct]).T
        g["ua"][sl] = np.array([-ct, sign*sd*st, cd*st]).T
        for k, p in [("cla", "CL_alpha"), ("al0", "alpha_L0"), ("cma", "Cm_alpha"), ("cm0", "Cm_L0"),
                     ("cd0", "CD0"), ("cd1", "CD0_L"), ("cd2", "CD0_L2")]:
            g[k + "_l"][sl] = lf[p]
            g[k + "_r"][sl] = rf2[p]
        g["clmax"][sl] = lf["CL_max"] + s*(rf2["CL_max"] - lf["CL_max"])
        c = w["control"]
        if c:
            inside = np.logical_and(eta > c["span_root"], eta < c["span_tip"])
            cf = c["chord_root"] + (eta - c["span_root"])/(c["span_tip"] - c["span_root"])*(c["chord_tip"] - c["chord_root"])
            th = np.arccos(2.*cf - 1.)
            ideal = 1. - (th - np.sin(th))/np.pi
            hinge = 3.9598*np.arctan((cf + 0.006527)*89.2574 + 4.898015) - 5.18786
            hinge = hinge*np.where(c["is_sealed"], 1., 0.8)
            g["flap"][sl] = np.where(inside, ideal*hinge, 0.)
            g["cmd"][sl] = np.where(inside, (np.sin(2.*th) - 2.*np.sin(th))/4., 0.)
            mix = c["mix"]
            g["ma"][sl] = np.where(inside, sign*mix.get("aileron", 0.), 0.)
            g["me"][sl] = np.where(inside, mix.get("elevator", 0.), 0.)
            g["mr"][sl] = np.where(inside, sign*mix.get("rudder", 0.), 0.)
            g["mf"][sl] = np.where(inside, mix.get("flap", 0.), 0.)
    g["al0"] = g["al0_l"] + g["s"]*(g["al0_r"] - g["al0_l"])
    return g


def dot(a, b):
    return np.sum(a*b, axis=-1)


def free_stream(V, alpha, beta):
    """velocity of the air relative to the airplane, body axes"""
    ca, sa = np.cos(DEG*alpha), np.sin(DEG*alpha)
    cb, sb = np.cos(DEG*beta), np.sin(DEG*beta)
    return -V/np.sqrt(1. - sa*sa*sb*sb)*np.array([ca*cb, ca*sb, sa*cb])


def wind_axes(F, u):
    """lift, drag and side force: along u (drag), normal to u and to the body
    y axis (lift), and the third direction (side)"""
    l = np.cross(u, np.array([0., 1., 0.]))
    l = l/np.linalg.norm(l)
    s = np.cross(l, u)
    s = s/np.linalg.norm(s)
    L = np.dot(F, l)
    D = np.dot(F, u)
    return L, D, np.dot(F - L*l - D*u, s)


def influence(g, u):
    """velocity induced at section i by a unit horseshoe vortex at section j"""
    a = g["cp"][:, None, :] - g["p1"][None, :, :]
    b = g["cp"][:, None, :] - g["p2"][None, :, :]
    am = np.sqrt(dot(a, a))
    bm = np.sqrt(dot(b, b))
    n = g["cp"].shape[0]
    legb = np.cross(u, b)/(bm*(bm - np.dot(b, u)))[:, :, None]
    lega = np.cross(u, a)/(am*(am - np.dot(a, u)))[:, :, None]
    bound = np.cross(a, b)*((am + bm)/(am*bm*(am*bm + dot(a, b))))[:, :, None]
    idx = np.arange(n)
    own = (idx[:, None] == idx[None, :])[:, :, None]
    return (legb - lega + np.where(own, 0., bound))/(4.*np.pi)


def deflections(g, ctl):
    """control-surface deflection of each section, radians"""
    return DEG*(ctl.get("aileron", 0.)*g["ma"] + ctl.get("elevator", 0.)*g["me"]
                + ctl.get("rudder", 0.)*g["mr"] + ctl.get("flap", 0.)*g["mf"])


def solve(g, cg, u, v, rho, delta):
    """u: direction of the free stream; v: local air velocity at the sections;
    rho: density at the sections; delta: control deflections"""
    q = {}
    n = g["cp"].shape[0]
    dl = g["p2"] - g["p1"]
    vm = np.sqrt(dot(v, v))
    w = influence(g, u)
    cla = g["cla_l"] + g["s"]*(g["cla_r"] - g["cla_l"])
    vxl = np.cross(v, dl)
    ddeg = np.abs(delta)/DEG
    # effectiveness falls off linearly beyond 11 degrees (Phillips fig. 1.7.5)
    eff = g["flap"]*delta*np.where(ddeg > 11., 1.09589743589744 - 8.71794871794872E-03*ddeg, 1.)
    ageo = np.arctan(dot(v, g["un"])/dot(v, g["ua"]))
    cll = g["cla_l"]*(ageo + eff - g["al0_l"])
    clr = g["cla_r"]*(ageo + eff - g["al0_r"])
    B = vm*vm*g["area"]*(cll + g["s"]*(clr - cll))
    idx = np.arange(n)
    A = -(vm*g["area"]*cla)[:, None]*dot(w, g["un"][:, None, :])
    A = A + np.where(idx[:, None] == idx[None, :], (2.*np.sqrt(dot(vxl, vxl)))[:, None], 0.)
    gamma = np.linalg.solve(A, B)
    vi = v + np.sum(gamma[None, :, None]*w, axis=1)
    vim = np.sqrt(dot(vi, vi))
    alpha = np.arctan2(dot(vi, g["un"]), dot(vi, g["ua"]))
    q["alpha"] = alpha
    F = (rho*gamma)[:, None]*np.cross(vi, dl)
    q["forces_xyz"] = F
    # section lift, profile drag and moment
    l = g["cla_l"]*(alpha - g["al0_l"])
    r = g["cla_r"]*(alpha - g["al0_r"])
    cl = l + g["s"]*(r - l)
    q["section_CL"] = cl
    l = g["cd0_l"] + g["cd1_l"]*cl + g["cd2_l"]*cl*cl
    r = g["cd0_r"] + g["cd1_r"]*cl + g["cd2_r"]*cl*cl
    cd = l + g["s"]*(r - l) + 0.002*ddeg
    q["section_CD_parasitic"] = cd
    D = (0.5*rho*vm*vm*cd*g["area"]/vim)[:, None]*vi
    l = g["cm0_l"] + g["cma_l"]*(alpha - g["al0_l"])
    r = g["cm0_r"] + g["cma_r"]*(alpha - g["al0_r"])
    cm = l + g["s"]*(r - l) + delta*g["cmd"]
    q["section_Cm"] = cm
    us = np.cross(g["ua"], g["un"])
    c1, c2 = g["c1"], g["c2"]
    c2ds = np.abs(dot(us, dl))*(c1*c1 + c1*c2 + c2*c2)/3.
    arm = g["cp"] - cg
    M = np.cross(arm, F) - (0.5*rho*vm*vm*cm*c2ds)[:, None]*us
    FI, FV = np.sum(F, axis=0), np.sum(D, axis=0)
    MI, MV = np.sum(M, axis=0), np.sum(np.cross(arm, D), axis=0)
    q["inviscid"] = components(FI, MI, u)
    q["viscous"] = components(FV, MV, u)
    q["total"] = components(FI + FV, MI + MV, u)
    q["stalled"] = cl > g["clmax"]
    return q


def components(F, M, u):
    L, D, S = wind_axes(F, u)
    return {"FL": L, "FD": D, "FS": S, "FX": F[0], "FY": F[1], "FZ": F[2],
            "MX": M[0], "MY": M[1], "MZ": M[2]}


def local_flow(g, cg, V, rho, alpha, beta, p, q, r):
    u = free_stream(1., alpha, beta)
    v = V*u - np.cross(np.array([p, q, r]), g["cp"] - cg)
    return u, v, rho + np.zeros(g["cp"].shape[0])


def cg_of(doc):
    pl = doc["plane"]
    return np.array([pl["CGx"], pl["CGy"], pl["CGz"]])


def wings_alone(doc, aero, ctl):
    g = sections(doc)
    cg = cg_of(doc)
    u, v, rho = local_flow(g, cg, aero["V_mag"], aero["rho"], aero.get("alpha", 0.), aero.get("beta", 0.),
                           aero.get("roll_rate", 0.), aero.get("pitch_rate", 0.), aero.get("yaw_rate", 0.))
    q = solve(g, cg, u, v, rho, deflections(g, ctl))
    return g, q


def wings_local(doc, aero, ctl, local):
    """prescribed density and air velocity at every section"""
    g = sections(doc)
    cg = cg_of(doc)
    v = local[:, 1:]
    if "V_mag" in aero:
        u = free_stream(1., aero.get("alpha", 0.), aero.get("beta", 0.))
    else:
        u = np.mean(v, axis=0)
        u = u/np.linalg.norm(u)
    om = np.array([aero.get("roll_rate", 0.), aero.get("pitch_rate", 0.), aero.get("yaw_rate", 0.)])
    v = v - np.cross(om, g["cp"] - cg)
    return g, solve(g, cg, u, v, local[:, 0], deflections(g, ctl))


def wings_default(doc, ctl):
    """LLModel without an aerodynamic state: unit density, 10 along -x"""
    return wings_alone(doc, {"V_mag": 10., "rho": 1.}, ctl)


def join(parts):
    return np.concatenate(parts)


def vector(v):
    return np.array(v)


def grid_data(doc, cosine):
    g = sections(doc, cosine)
    for k in ["cla", "cma", "cm0"]:
        g[k] = g[k + "_l"] + g["s"]*(g[k + "_r"] - g[k + "_l"])
    g["us"] = np.cross(g["ua"], g["un"])
    c1, c2 = g["c1"], g["c2"]
    g["c2ds"] = np.abs(dot(g["us"], g["p2"] - g["p1"]))*(c1*c1 + c1*c2 + c2*c2)/3.
    g["cg"] = cg_of(doc)
    return g
