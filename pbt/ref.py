"""Independent reference models (nothing here calls AMAT).

Frame: planet-fixed, z along the rotation axis; longitude theta and latitude phi in rad; heading psi counted from the
local east towards north; flight-path angle gamma above the local horizontal; bank delta turns the lift vector from
the vertical plane towards the left (north for an eastward flight).
"""
import numpy as np
from scipy.integrate import solve_ivp


def local_axes(theta, phi):
	ct, s_t, cp, sp = np.cos(theta), np.sin(theta), np.cos(phi), np.sin(phi)
	up = np.array([cp * ct, cp * s_t, sp])
	east = np.array([-s_t, ct, 0.0 * ct])
	north = np.array([-sp * ct, -sp * s_t, cp])
	return up, east, north


def cart(r, theta, phi, v, psi, gamma):
	"""planet-fixed position and planet-relative velocity vectors"""
	up, east, north = local_axes(theta, phi)
	return r * up, v * (np.sin(gamma) * up + np.cos(gamma) * (np.cos(psi) * east + np.sin(psi) * north))


def gravity(R, GM, RP, J2, J3):
	"""gradient of GM/r (1 - J2 (RP/r)^2 P2 - J3 (RP/r)^3 P3), written in Cartesian coordinates"""
	x, y, z = R
	r2 = x * x + y * y + z * z
	r = np.sqrt(r2)
	z2 = z * z / r2
	g = -GM / r ** 3 * np.array([x, y, z])
	k2 = -1.5 * J2 * GM * RP ** 2 / r ** 5
	g = g + k2 * np.array([x * (1 - 5 * z2), y * (1 - 5 * z2), z * (3 - 5 * z2)])
	k3 = -0.5 * J3 * GM * RP ** 3 / r ** 7
	g = g + k3 * np.array([x * (5 * (3 * z - 7 * z * z2)), y * (5 * (3 * z - 7 * z * z2)), (30 * z * z - 35 * z * z * z2 - 3 * r2)])
	return g


def rates(state, P, aD, aL, delta, eps=0.0):
	"""d/dt of (r, theta, phi, v, psi, gamma, downrange), SI.

	P: dict with GM RP OMEGA J2 J3; aD, aL: drag and lift acceleration magnitudes (signed lift).
	eps: the regularisation of the 1/cos(gamma) factor of the heading equation (0 = exact kinematics).
	Returns (rates, A, B) with heading rate = A/(cos(gamma)+eps) + B.
	"""
	r, theta, phi, v, psi, gamma = state[:6]
	up, east, north = local_axes(theta, phi)
	R, V = cart(r, theta, phi, v, psi, gamma)
	that = V / v
	hhat = np.cos(psi) * east + np.sin(psi) * north          # horizontal direction of flight
	nhat = np.cos(gamma) * up - np.sin(gamma) * hhat         # lift-up direction
	what = -np.sin(psi) * east + np.cos(psi) * north         # to the left
	W = P["OMEGA"]
	cor = np.array([2 * W * V[1], -2 * W * V[0], 0.0])       # -2 omega x V
	cen = np.array([W * W * R[0], W * W * R[1], 0.0])        # -omega x (omega x R)
	acc = gravity(R, P["GM"], P["RP"], P["J2"], P["J3"])
	acc = acc + cor + cen
	acc = acc - aD * that + aL * (np.cos(delta) * nhat + np.sin(delta) * what)
	vr, vh = v * np.sin(gamma), v * np.cos(gamma)
	dv = float(acc @ that)
	dgamma = float(acc @ nhat) / v + v * np.cos(gamma) / r
	# heading: lateral acceleration turns the horizontal velocity; the second term is the turning of the east axis
	A = float(acc @ what) / v
	# Coriolis part that does not carry 1/cos(gamma): -2 Omega sin(phi)
	part = -2 * P["OMEGA"] * np.sin(phi)
	A = A - part * np.cos(gamma)
	B = part - v / r * np.cos(gamma) * np.cos(psi) * np.tan(phi)
	dpsi = A / (np.cos(gamma) + eps) + B
	d = np.array([vr, vh * np.cos(psi) / (r * np.cos(phi)), vh * np.sin(psi) / r, dv, dpsi, dgamma, vh])
	return d, A, B


def pconst(p):
	return dict(GM=p.GM, RP=p.RP, OMEGA=p.OMEGA, J2=p.J2, J3=p.J3)


def fly(x0, T, P, rho, mass, A, CD, CL, delta, eps=0.01, t_eval=None, rtol=1e-9, stop=None, max_step=np.inf):
	"""reference trajectory from x0 (SI) for T seconds; rho(h); CD may be a function of (h, v)"""
	def rhs(t, y):
		q = 0.5 * rho(y[0] - P["RP"]) * y[3] ** 2 * A / mass
		cd = CD(y[0] - P["RP"], y[3]) if callable(CD) else CD
		return rates(y, P, q * cd, q * CL, delta, eps)[0]
	sc = np.array([P["RP"], 1, 1, np.sqrt(P["GM"] / P["RP"]), 1, 1, P["RP"]])
	ev = None
	if stop is not None:
		ev = lambda t, y: stop(y)
		ev.terminal = True
	return solve_ivp(rhs, (0, T), x0, method="DOP853", t_eval=t_eval, rtol=rtol, atol=rtol * sc, events=ev, max_step=max_step)


# ------------------------------------------------------------------ two-body
def orbit(R, V, GM):
	"""classical elements of the osculating orbit from Cartesian vectors"""
	R, V = np.asarray(R, float), np.asarray(V, float)
	r, v = np.linalg.norm(R), np.linalg.norm(V)
	E = v * v / 2 - GM / r
	h = np.cross(R, V)
	e = np.cross(V, h) / GM - R / r
	a = -GM / (2 * E)
	ecc = np.linalg.norm(e)
	hh = np.linalg.norm(h)
	i = np.arctan2(np.hypot(h[0], h[1]), h[2])
	Om = np.arctan2(h[0], -h[1]) % (2 * np.pi)
	n = np.array([np.cos(Om), np.sin(Om), 0.0])
	m = np.cross(h / hh, n)
	om = np.arctan2(e @ m, e @ n) % (2 * np.pi)
	ta = np.arctan2(R @ m, R @ n) - om
	return dict(E=E, h=hh, h_vec=h, e_vec=e, e=ecc, a=a, i=i, OMEGA=Om, omega=om, theta=(ta + np.pi) % (2 * np.pi) - np.pi,
				ra=a * (1 + ecc), rp=a * (1 - ecc))


def elements_to_cart(a, e, i, Om, om, ta, GM):
	"""position and velocity at true anomaly ta (works for hyperbolas, a < 0)"""
	p = a * (1 - e * e)
	r = p / (1 + e * np.cos(ta))
	n = np.array([np.cos(Om), np.sin(Om), 0.0])
	m = np.array([-np.sin(Om) * np.cos(i), np.cos(Om) * np.cos(i), np.sin(i)])
	P = np.cos(om) * n + np.sin(om) * m
	Q = -np.sin(om) * n + np.cos(om) * m
	R = r * (np.cos(ta) * P + np.sin(ta) * Q)
	V = np.sqrt(GM / p) * (-np.sin(ta) * P + (e + np.cos(ta)) * Q)
	return R, V


def inertial(R, V, OMEGA):
	return R, V + np.cross(np.array([0, 0, OMEGA]), R)
