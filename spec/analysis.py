"""Reference definitions of the analyses built on top of solve: derivatives,
target lift, pitch trim, stall searches and aerodynamic centre.  mu is the
aircraft; every load is asked for with a complete state."""
import numpy as np
import spec_wing as wing

PARTS = [("CL", "FL", 0), ("CD", "FD", 0), ("CS", "FS", 0), ("CX", "FX", 0), ("CY", "FY", 0), ("CZ", "FZ", 0),
         ("Cl", "MX", 1), ("Cm", "MY", 2), ("Cn", "MZ", 1)]
ANGLES = [("alpha", "a"), ("beta", "b")]
RATES = [("roll_rate", "pbar", 1), ("pitch_rate", "qbar", 2), ("yaw_rate", "rbar", 1)]
CONTROLS = [("aileron", "da"), ("elevator", "de"), ("rudder", "dr"), ("flap", "df")]


def lengths(main_area, spans, lon, lat):
    """reference lengths: those of the description; missing ones from the
    reference area and twice the longest semispan"""
    if lat is None:
        if lon is None:
            lat = 2.*spans[0]
            for s in spans:
                lat = np.maximum(lat, 2.*s)
        else:
            lat = main_area/lon
    if lon is None:
        lon = main_area/lat
    return lon, lat


def in_degrees(v):
    return v*(180./np.pi)


def flight(aero):
    if not aero:
        return {"V_mag": 10., "rho": 0.0023769, "alpha": 0., "beta": 0., "roll_rate": 0., "pitch_rate": 0., "yaw_rate": 0.}
    out = dict(aero)
    for k in ["alpha", "beta", "roll_rate", "pitch_rate", "yaw_rate"]:
        out[k] = aero.get(k, 0.)
    return out


def controls(ctl):
    out = {}
    for k in ["aileron", "elevator", "rudder", "flap"]:
        out[k] = ctl.get(k, 0.) if ctl else 0.
    return out


def shifted(state, key, d):
    s = dict(state)
    s[key] = s[key] + d
    return s


def difference(out, lo, hi, step, dp, ref, sfx):
    """central difference over 2*step of the coefficients"""
    for name, load, l in PARTS:
        out[name + "_" + sfx] = (hi[load] - lo[load])/(2.*step*dp*ref[l])


def dynamic(a, S):
    return 0.5*a["rho"]*a["V_mag"]*a["V_mag"]*S


def stability(mu, aero, ctl, ps, S, lon, lat):
    a = flight(aero)
    out = {}
    h = 0.5
    for key, sfx in ANGLES:
        lo = mu.solve(shifted(a, key, -h), ctl, ps)
        hi = mu.solve(shifted(a, key, h), ctl, ps)
        difference(out, lo, hi, np.radians(h), dynamic(a, S), [1., lat, lon], sfx)
    return out


def damping(mu, aero, ctl, ps, S, lon, lat):
    a = flight(aero)
    out = {}
    h = 0.005
    for key, sfx, l in RATES:
        d = 2.*h*a["V_mag"]/[1., lat, lon][l]
        lo = mu.solve(shifted(a, key, -d), ctl, ps)
        hi = mu.solve(shifted(a, key, d), ctl, ps)
        difference(out, lo, hi, h, dynamic(a, S), [1., lat, lon], sfx)
    return out


def control(mu, aero, ctl, ps, S, lon, lat):
    a = flight(aero)
    c = controls(ctl)
    out = {}
    h = 0.25
    for key, sfx in CONTROLS:
        lo = mu.solve(a, shifted(c, key, -h), ps)
        hi = mu.solve(a, shifted(c, key, h), ps)
        difference(out, lo, hi, np.radians(h), dynamic(a, S), [1., lat, lon], sfx)
    return out


def replaced(state, key, v):
    s = dict(state)
    s[key] = v
    return s


def target_lift(mu, L, aero, ctl, ps, error, report):
    """secant search on the angle of attack, at most 20 corrections"""
    a = flight(aero)
    x0 = a["alpha"]
    x1 = 1.5*x0 + 0.1
    y0 = mu.solve(replaced(a, "alpha", x0), ctl, ps)["FL"] - L
    y1 = mu.solve(replaced(a, "alpha", x1), ctl, ps)["FL"] - L
    n = 0
    while True:
        x2 = x1 - y1*(x1 - x0)/(y1 - y0)
        if abs(x2 - x1) < error:
            return {"alpha": x2}
        x0, y0, x1 = x1, y1, x2
        y1 = mu.solve(replaced(a, "alpha", x1), ctl, ps)["FL"] - L
        n += 1
        if n > 20:
            if report:
                return {"error": "unliftable"}
            raise RuntimeError("no angle of attack gives the lift")


def slopes(mu, a, c, ps, al, de, h):
    up = mu.solve(replaced(a, "alpha", al + h), replaced(c, "elevator", de), ps)
    dn = mu.solve(replaced(a, "alpha", al - h), replaced(c, "elevator", de), ps)
    ue = mu.solve(replaced(a, "alpha", al), replaced(c, "elevator", de + h), ps)
    ne = mu.solve(replaced(a, "alpha", al), replaced(c, "elevator", de - h), ps)
    r = np.radians(2.*h)
    return [[(up["FL"] - dn["FL"])/r, (ue["FL"] - ne["FL"])/r],
            [(up["MY"] - dn["MY"])/r, (ue["MY"] - ne["MY"])/r]]


def pitch_trim(mu, L, m, aero, ctl, ps, error, report):
    """Newton iteration on angle of attack and elevator from zero"""
    a = flight(aero)
    c = controls(ctl)
    al, de = 0., 0.
    n = 0
    while True:
        r = mu.solve(replaced(a, "alpha", al), replaced(c, "elevator", de), ps)
        e0 = r["FL"] - L
        e1 = r["MY"] - m
        if abs(e0) < error and abs(e1) < error:
            return {"alpha": al, "elevator": de}
        J = slopes(mu, a, c, ps, al, de, 0.25)
        if J[0][1] == 0 and J[1][1] == 0:
            if report:
                return {"error": "no_elevator"}
            raise RuntimeError("no elevator")
        d = np.degrees(np.matmul(np.linalg.inv(np.array(J)), -np.array([e0, e1])))
        al = al + d[0]
        de = de + d[1]
        n += 1
        if n > 100:
            if report:
                return {"error": "untrimmable"}
            raise RuntimeError("no trim")


def stall_onset(mu, stalled, aero, ctl, ps, report):
    """first angle of attack 0, 0.1, 0.2, ... at which a section exceeds its
    maximum lift"""
    a = flight(aero)
    al = 0.
    while True:
        r = mu.solve(replaced(a, "alpha", al), ctl, ps)
        s = stalled(al)
        if s:
            out = dict(s)
            out["alpha"] = round(al, 2)
            out["lift"] = r["FL"]
            return out
        al = al + 0.1
        if al > 90.:
            if report:
                return {"error": "unstallable"}
            raise RuntimeError("no stall")


def first_stalled(q, g):
    """wing and span location of the first stalled section"""
    at = np.where(q["stalled"])
    if at[0].size >= 1:
        name = g["name"][at][0]
        s = g["s"][at][0]
        return {"stalled_wing": name, "span_location": s if name[:5] == "right" else 1 - s}
    return None


def stall_airspeed(mu, weight, aero, ctl, ps, error, report):
    """secant search on the airspeed at which the lift at stall onset is the weight"""
    a = flight(aero)
    x0 = a["V_mag"]
    x1 = 1.5*x0 + 0.1
    s1 = mu.stall_onset(replaced(a, "V_mag", x0), ctl, ps)
    y0 = s1["lift"] - weight
    s1 = mu.stall_onset(replaced(a, "V_mag", x1), ctl, ps)
    y1 = s1["lift"] - weight
    n = 0
    while True:
        x2 = x1 - y1*(x1 - x0)/(y1 - y0)
        if abs(x2 - x1) < error:
            out = dict(s1)
            out["airspeed"] = x2
            return out
        x0, y0, x1 = x1, y1, x2
        s1 = mu.stall_onset(replaced(a, "V_mag", x1), ctl, ps)
        y1 = s1["lift"] - weight
        n += 1
        if n > 100:
            if report:
                return {"error": "unstallable"}
            raise RuntimeError("no stall airspeed")


def aero_center(mu, aero, ctl, ps, S, lon, cg):
    a = flight(aero)
    grid = np.arange(-10, 10, 0.05)
    N, A, M = [], [], []
    for al in grid:
        r = mu.solve(replaced(a, "alpha", al), ctl, ps)
        N.append(-r["FZ"])
        A.append(-r["FX"])
        M.append(r["MY"])
    q = dynamic(a, S)
    N, A, M = np.array(N)/q, np.array(A)/q, np.array(M)/(q*lon)
    t = np.radians(grid)
    s, c = np.sin(t), np.cos(t)
    L, D = N*c - A*s, A*c + N*s
    # lift: L = La*(sin(t) - tan(t0)*cos(t)), least squares
    sc, ss, cc = np.sum(s*c), np.sum(s*s), np.sum(c*c)
    t0 = np.arctan((np.sum(L*c)*ss - np.sum(L*s)*sc)/(np.sum(L*c)*sc - np.sum(L*s)*cc))
    b = s - np.tan(t0)*c
    La = np.sum(L*b)/np.sum(b*b)
    # drag polar
    P = np.array([[L.size, np.sum(L), np.sum(L*L)],
                  [np.sum(L), np.sum(L*L), np.sum(L*L*L)],
                  [np.sum(L*L), np.sum(L*L*L), np.sum(L*L*L*L)]])
    D0, D1, D2 = np.matmul(np.linalg.inv(P), np.array([np.sum(D), np.sum(D*L), np.sum(D*L*L)]))
    # moment: M = M0*sin(2t) + MN*N + MA*A
    z = np.sin(2*t)
    P = np.array([[np.sum(z*z), np.sum(z*N), np.sum(z*A)],
                  [np.sum(z*N), np.sum(N*N), np.sum(N*A)],
                  [np.sum(z*A), np.sum(N*A), np.sum(A*A)]])
    M0, MN, MA = np.matmul(np.linalg.inv(P), np.array([np.sum(M*z), np.sum(M*N), np.sum(M*A)]))
    al = np.radians(a["alpha"])
    den = 2*La + 3*D0 - 2*D2*La*La
    X = lon*((4 + 2*D0/La + (12*al*al - 4)*D2*La)/den*M0 + MN)
    Z = -lon*((4*t0 + 4*D1 + 12*al*D2*La)/den*M0 + MA)
    return [X + cg[0], 0., Z + cg[2]]


def wing_stall(doc, aero, ctl):
    """stall onset of an airplane without propellers on the reference wing model"""
    a = flight(aero)
    al = 0.
    while True:
        g, q = wing.wings_alone(doc, replaced(a, "alpha", al), ctl)
        s = first_stalled(q, g)
        if s:
            out = dict(s)
            out["alpha"] = round(al, 2)
            out["lift"] = q["total"]["FL"]
            return out
        al = al + 0.1
        if al > 90.:
            raise RuntimeError("no stall")
