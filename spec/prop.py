"""Reference description of the propeller model: blade geometry, section
coefficients, blade-element / vortex theory (Goldstein's relations with
Prandtl's tip loss, Phillips, Mechanics of Flight, ch. 2), dimensional loads and
the contracting inviscid slipstream (Stone).  Interpreted abstractly, never
executed."""
import numpy as np
from scipy.integrate import simps
from scipy.interpolate import interp1d

DEG = np.pi/180.


def tip_law(a, b, x):
    return a + (b - a)*(x - x[0])/(x[-1] - x[0])


def position(p):
    q = p["position"]
    return np.array([q["dx"], q["dy"], q["dz"]])


def geometry(p):
    """blade stations and section data"""
    g = {}
    d, hd, n = p["diameter"], p["hub_diameter"], p["radial_nodes"]
    z = hd/d + (0.999 - hd/d)*np.arange(n)/(n - 1.)
    g["zeta"], g["d"], g["n"] = z, d, n
    g["r"] = 0.5*d*z
    g["k"] = p["num_of_blades"]
    th, ga = DEG*p["orientation"]["elevation_angle"], DEG*p["orientation"]["heading_angle"]
    g["axis"] = np.array([np.cos(th)*np.cos(ga), np.cos(th)*np.sin(ga), -np.sin(th)])
    g["pos"] = position(p)
    g["rot"] = 1. if p["rotation_direction"] == "CCW" else -1.
    names = list(p["airfoils"])
    if len(names) == 1:
        f = p["airfoils"][names[0]]["properties"]
        for k in ["alpha_L0", "CL_alpha", "CL_max", "CD0", "CD0_L", "CD0_L2"]:
            g[k] = f[k] + 0.*z
    else:
        # listed from the root outwards
        first = p["airfoils"][names[0]]["properties"]
        last = p["airfoils"][names[-1]]["properties"]
        loc = [z[0]]
        for nm in names[1:-1]:
            loc.append(p["airfoils"][nm]["span_position"])
        loc.append(z[-1])
        loc = np.array(loc)
        for k in ["alpha_L0", "CL_alpha", "CL_max", "CD0", "CD0_L", "CD0_L2"]:
            val = np.array([p["airfoils"][nm]["properties"][k] for nm in names])
            g[k] = interp1d(loc, val, kind="linear", bounds_error=False, fill_value=(val[0], val[-1]))(z)
    ta = np.tan(g["alpha_L0"])
    pt = p["pitch"]
    two_pi_r = 2.*np.pi*g["r"]
    if pt["type"] == "from_file":
        t = np.loadtxt(pt["filename"])
        chord_line = interp1d(t[:, 0], DEG*t[:, 1], kind="cubic", fill_value="extrapolate")(z)
        lc = two_pi_r*np.tan(chord_line)
        la = two_pi_r*(lc - two_pi_r*ta)/(two_pi_r + lc*ta)
        beta = np.arctan(la/two_pi_r)
    else:
        Kc = 0.5
        if pt["type"] == "ratio":
            Kc = pt["value"]
        if pt["type"] == "value":
            Kc = pt["value"]/d
        K = np.pi*z*(Kc - np.pi*z*ta)/(np.pi*z + Kc*ta)
        beta = np.arctan2(K, np.pi*z)
    if "pitch_increment" in pt:
        beta = beta + DEG*pt["pitch_increment"]
    g["beta"] = beta
    ch = p["chord"]
    if ch["type"] == "default":
        c = 0.075*d*np.sqrt(1. - z*z)
    elif ch["type"] == "linear":
        c = tip_law(ch["root"], ch.get("tip", ch["root"]), z)
    elif ch["type"] == "elliptical":
        c = ch["root"]*np.sqrt(1. - z*z)
    else:
        t = np.loadtxt(ch["filename"])
        c = 0.5*d*interp1d(t[:, 0], t[:, 1], kind="cubic", fill_value="extrapolate")(z)
    g["chord"] = c
    # stall: Corrigan's delay of the stall angle by rotation, Viterna's post-stall law
    cr = c/g["r"]
    ast = g["CL_max"]/g["CL_alpha"]
    dA = ast*((0.1517/cr)**(1./1.084)*cr/0.136 - 1.)
    g["dA"] = dA
    g["ast"] = ast
    g["astn"] = ast + 1.5*g["alpha_L0"]
    g["cdp"], g["cdn"] = ast + dA, -ast + dA
    g["Cdmax"] = 1.11 + 0.018*10.
    return g


def post_stall(g, ast, clmax, a):
    cm = g["Cdmax"]
    A2 = (clmax - cm*np.sin(ast)*np.cos(ast))*np.sin(ast)/np.cos(ast)**2
    return 0.5*cm*np.sin(2.*a) + A2*np.cos(a)**2/np.sin(a)


def lift_branch(g, ast, clmax, a):
    lin = g["CL_alpha"]*a
    mix = 0.5*np.tanh((a - ast)/DEG) + 0.5
    return np.where(a < 2.*DEG, lin, lin + mix*(post_stall(g, ast, clmax, a) - lin)) + g["CL_alpha"]*g["dA"]


def lift(g, alpha):
    up = lift_branch(g, g["ast"], g["CL_max"], alpha - g["dA"])
    dn = lift_branch(g, g["astn"], g["astn"]*g["CL_alpha"], -alpha - g["dA"])
    return np.where(alpha < 0., -dn, up)


def drag(g, alpha, cl):
    polar = g["CD0"] + g["CD0_L"]*cl + g["CD0_L2"]*cl*cl
    out = polar
    cm = g["Cdmax"]
    for lim, sgn in [(g["cdp"], 1.), (g["cdn"], -1.)]:
        cls = lim*g["CL_alpha"]
        cds = g["CD0"] + g["CD0_L"]*cls + g["CD0_L2"]*cls*cls
        B2 = (cds - cm*np.sin(lim)**2)/np.cos(lim)
        out = np.where(sgn*alpha >= sgn*lim, cm*np.sin(alpha)**2 + B2*np.cos(alpha), out)
    return out


def residual(g, einf, ei):
    """blade lift against Goldstein's vortex condition"""
    sol = g["k"]*g["chord"]/g["d"]
    tip = np.arccos(np.exp(-g["k"]*(1. - g["zeta"])/(2.*np.sin(g["beta"][-1]))))
    return sol/(8.*g["zeta"])*lift(g, g["beta"] - einf - ei) - tip*np.tan(ei)*np.sin(einf + ei)


def induced(g, einf, guess):
    """secant iteration per section, kept in the range (0, 1) on the side of the
    pitch angle"""
    sgn = np.sign(g["beta"] - einf)
    x0 = np.where(np.any(guess), guess, g["beta"] - einf)
    x1 = x0*(1. + 1e-4) - 1e-4
    y0 = residual(g, einf, x0)
    y1 = residual(g, einf, x1)
    x2 = 1.*x0
    i = 0
    while True:
        active = np.abs(y1 - y0) > 1e-11
        x2 = np.where(active, x1 - y1*(x1 - x0)/(y1 - y0), x2)
        x2 = np.where(np.abs(x2) < 1., x2, 0.3*sgn)
        x2 = np.where(np.sign(x2) != sgn, -x2, x2)
        i = i + 1
        left = np.where(active)[0].size
        if i > 50 and left < 3:
            return x2
        if left == 0:
            return x2
        if i > 1000:
            raise RuntimeError("not converged")
        x0 = x1
        x1 = x2
        y0 = y1
        y1 = residual(g, einf, x1)


def coefficients(g, J, q):
    """section state and integrated coefficients at advance ratio J, put into q
    (which holds the starting point of the induced angle)"""
    z = g["zeta"]
    einf = np.arctan2(J, np.pi*z)
    ei = induced(g, einf, q["ei"])
    a = g["beta"] - einf - ei
    cl = lift(g, a)
    cd = drag(g, a, cl)
    cla = (lift(g, a + 0.001) - lift(g, a - 0.001))/0.002
    e = einf + ei
    q["einf"], q["ei"], q["alpha"], q["CL"], q["CD"] = einf, ei, a, cl, cd
    sol = g["k"]*g["chord"]/g["d"]
    ci2 = np.cos(ei)**2
    cf2 = np.cos(einf)**2
    tf = np.tan(einf)
    ft = cl*np.cos(e) - cd*np.sin(e)
    fq = cd*np.cos(e) + cl*np.sin(e)
    pi2 = np.pi*np.pi
    q["CT"] = pi2/4.*simps(z**2*sol*ci2/cf2*ft, z)
    q["Cl"] = pi2/8.*simps(z**3*sol*ci2/cf2*fq, z)
    q["CN"] = pi2/8.*simps(z**2*sol*ci2*(2.*tf*fq - tf**2*(cl*np.cos(e) - (cla + cd)*np.sin(e))), z)
    q["Cn"] = pi2/16.*simps(z**3*sol*ci2*(2.*tf*ft + tf**2*((cla + cd)*np.cos(e) + cl*np.sin(e))), z)
    q["CP"] = 2.*np.pi*q["Cl"]


def motor_torque(p, units, n, throttle):
    mt = p["electric_motor"]
    ns = 1. - 0.079*(1. - throttle)
    I = (ns*throttle*mt["battery_voltage"] - mt["gear_reduction"]/mt["motor_kv"]*60.*n)/(
        ns*throttle*mt["battery_resistance"] + mt["speed_control_resistance"] + mt["motor_resistance"])
    t = 7.0432*mt["gear_reduction"]/mt["motor_kv"]*(I - mt["motor_no_load_current"])
    if units != "English":
        t = t*1.3558179483314
    return t


def excess(p, g, units, rho, n, ps, q):
    """blade load less the supplied power or torque"""
    if "brake_power" in ps:
        return rho*n**3*g["d"]**5*q["CP"] - ps["brake_power"]
    return rho*n**2*g["d"]**5*q["Cl"] - motor_torque(p, units, n, ps["electric_throttle"])


def rate(p, g, units, rho, V, ps, q):
    """rotation rate at which the blade load matches the supplied power/torque;
    every evaluation starts its induced angle from the one before"""
    x0 = 15.
    x1 = 22.5
    coefficients(g, V/(x0*g["d"]), q)
    y0 = excess(p, g, units, rho, x0, ps, q)
    if np.abs(y0) < 1e-14:
        return x0
    coefficients(g, V/(x1*g["d"]), q)
    y1 = excess(p, g, units, rho, x1, ps, q)
    for _ in range(1000):
        x2 = x1 - y1*(x1 - x0)/(y1 - y0)
        if np.abs(x2 - x1) < 1e-14:
            return x2
        x0 = x1
        y0 = y1
        x1 = x2
        coefficients(g, V/(x1*g["d"]), q)
        y1 = excess(p, g, units, rho, x1, ps, q)
    raise RuntimeError("not converged")


def operating_point(p, g, units, rho, V, ps):
    """rotation rate and blade coefficients for a propeller setting"""
    d = g["d"]
    q = {"ei": np.zeros(g["n"])}
    if not ps:
        J = 0.5
        n = V/(0.5*d)
    elif "J" in ps:
        J = ps["J"]
        if J == 0. or V == 0.:
            n = ps["rot_per_sec"]
        else:
            n = V/(J*d)
    elif "rot_per_sec" in ps:
        n = ps["rot_per_sec"]
        J = V/(n*d)
    else:
        n = rate(p, g, units, rho, V, ps, q)
        return n, q
    coefficients(g, J, q)
    return n, q


def loads(p, units, cg, V, rho, u, ps):
    """u: unit direction of the air relative to the airplane"""
    g = geometry(p)
    n, q = operating_point(p, g, units, rho, V, ps)
    q["n"] = n
    d, ax, rot = g["d"], g["axis"], g["rot"]
    up = -u
    inc = np.arccos(max(-1., min(1., np.dot(ax, up)/np.sqrt(np.dot(ax, ax))/np.sqrt(np.dot(up, up)))))
    side = np.cross(np.cross(up, ax), ax)
    if inc == 0.:
        side = np.zeros(3)
    else:
        side = side/np.sqrt(np.dot(side, side))
    T = rho*n**2*d**4*q["CT"]
    l = -rot*rho*n**2*d**5*q["Cl"]
    N = rho*n**2*d**4*q["CN"]*inc
    m = rho*n**2*d**5*q["Cn"]*inc
    q["T"], q["l"] = T, l
    q["F"] = T*ax + N*side
    q["M"] = np.cross(g["pos"] - cg, q["F"]) + rot*m*side + l*ax
    vi = 2.*np.pi*n*g["r"]*np.sin(q["ei"])/np.cos(q["einf"])
    q["Vi"] = vi
    q["Vx"] = vi*np.cos(q["ei"] + q["einf"])
    q["Vt"] = vi*np.sin(q["ei"] + q["einf"])
    return g, q


def slipstream(g, q, V, pts):
    """velocity added at the points (uncontracted tube decides membership)"""
    R = 0.5*g["d"]
    rel = pts - g["pos"]
    t = np.sum(rel*g["axis"], axis=1)
    rad = rel - t[:, None]*g["axis"]
    dist = np.sqrt(np.sum(rad*rad, axis=1))
    sw = np.cross(g["axis"], rad)
    swm = np.sqrt(np.sum(sw*sw, axis=1))
    s = -t
    kd = 1. + s/np.sqrt(s*s + R*R)
    r = g["r"]
    n = g["n"]
    m = pts.shape[0]
    vx, vt = q["Vx"], q["Vt"]
    # streamlines conserve mass between neighbouring stations
    rp = np.zeros((n, m))
    rp[0] = r[0]
    for i in range(1, n):
        w = vx[i] + vx[i - 1]
        rp[i] = np.sqrt(rp[i - 1]**2 + (r[i]**2 - r[i - 1]**2)*(2.*V + w)/(2.*V + kd*w))
    axial = vx[:, None]*kd[None, :]
    swirl = 2.*vt[:, None]*r[:, None]/rp
    h = int(n/10)
    idx = np.arange(n)
    swirl = np.where((idx < h)[:, None], swirl[h][None, :]*rp/rp[h][None, :], swirl)
    ax_pt = np.zeros(m)
    sw_pt = np.zeros(m)
    for j in range(m):
        ax_pt[j] = np.interp(dist[j], rp[:, j], axial[:, j], left=0., right=0.)
        sw_pt[j] = np.interp(dist[j], rp[:, j], swirl[:, j], left=0., right=0.)
    inside = np.logical_and(dist <= R, t < 0.)
    dv = -ax_pt[:, None]*g["axis"] + g["rot"]*sw_pt[:, None]*sw/swm[:, None]
    return np.where(inside[:, None], dv, 0.)


def field(rho, V, u, dv):
    """density and velocity at the points"""
    out = np.zeros((dv.shape[0], 4))
    out[:, 0] = rho
    out[:, 1:] = V*u + dv
    return out


def totals(q, u):
    """force and moment components and wind-axis components of one propeller"""
    L = np.cross(u, [0., 1., 0.])
    L = L/np.sqrt(np.dot(L, L))
    S = np.cross(L, u)
    S = S/np.sqrt(np.dot(S, S))
    F, M = q["F"], q["M"]
    return {"FX": F[0], "FY": F[1], "FZ": F[2], "MX": M[0], "MY": M[1], "MZ": M[2],
            "FL": np.dot(F, L), "FD": np.dot(F, u), "FS": np.dot(F, S)}
