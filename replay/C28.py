from common import *
import math
from osgeo import osr
from utilities.vincenty import vinc_dist

osr.UseExceptions()
A, B = 6378137., 6356752.3142
F = (A - B) / A


def formula(f, a, p1, l1, p2, l2):
    """Vincenty (1975), written from the GDA manual"""
    b = a * (1 - f)
    u1, u2 = [math.atan((1 - f) * math.tan(p)) for p in (p1, p2)]
    w = l2 - l1
    x = w
    for _ in range(200):
        s2 = (math.cos(u2) * math.sin(x)) ** 2 + (
            math.cos(u1) * math.sin(u2) -
            math.sin(u1) * math.cos(u2) * math.cos(x)) ** 2
        ss = math.sqrt(s2)
        cs = math.sin(u1) * math.sin(u2) + \
            math.cos(u1) * math.cos(u2) * math.cos(x)
        sg = math.atan2(ss, cs)
        sa = max(-1., min(1., math.cos(u1) * math.cos(u2) * math.sin(x) /
                          ss))
        ca2 = 1 - sa * sa
        # along the equator the midpoint does not matter
        c2 = cs - 2 * math.sin(u1) * math.sin(u2) / ca2 if ca2 > 1e-12 else 0.
        c = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
        y = w + (1 - c) * f * sa * (sg + c * ss * (c2 + c * cs * (
            2 * c2 * c2 - 1)))
        if y == 0 or abs((x - y) / y) <= 1e-9:
            break
        x = y
    else:
        return None
    q = ca2 * (a * a - b * b) / (b * b)
    k = 1 + q / 16384 * (4096 + q * (-768 + q * (320 - 175 * q)))
    m = q / 1024 * (256 + q * (-128 + q * (74 - 47 * q)))
    d = m * ss * (c2 + m / 4 * (cs * (2 * c2 * c2 - 1) - m / 6 * c2 * (
        4 * s2 - 3) * (4 * c2 * c2 - 3)))
    return b * k * (sg - d)


def geodesic(p1, l1, p2, l2):
    """distance from PROJ: azimuthal equidistant about the first point"""
    geo = osr.SpatialReference()
    geo.ImportFromProj4('+proj=longlat +a=%r +b=%r +no_defs' % (A, B))
    az = osr.SpatialReference()
    az.ImportFromProj4('+proj=aeqd +lat_0=%.17g +lon_0=%.17g +a=%r +b=%r '
                       '+units=m +no_defs' % (
                           math.degrees(p1), math.degrees(l1), A, B))
    for s in (geo, az):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    x, y, _ = osr.CoordinateTransformation(geo, az).TransformPoint(
        math.degrees(l2), math.degrees(p2), 0)
    return math.hypot(x, y)


def pairs(h):
    r = h.rng
    for p, q, d in ((0, 0, .001), (0, 0, 1e-5), (0, 0, .5), (0, .3, 0),
                    (-.3, .3, .2), (1.5, 1.5, .3), (0, 1e-9, .002),
                    (-1e-9, 1e-9, .01), (.7, .7, 1e-6), (-.6, -.6001, 0),
                    (.4, .4, 6.28), (.4, .5, -6.2)):
        for l in (0., 1.9, -2.5):
            yield float(p), l, float(q), l + float(d)
    while True:
        p, l = float(r.uniform(-1.5, 1.5)), float(r.uniform(-3, 3))
        k = int(r.randint(0, 6))
        w = float(10 ** r.uniform(-7.7, 0))
        t = float(r.uniform(0, 2 * math.pi))
        q, m = p + w * math.sin(t), l + w * math.cos(t)
        if k == 0:
            m = l
        elif k == 1:
            q = p
        elif k == 2:
            p = q = float(r.choice([0., 1e-9, -1e-10, 3e-8]))
        elif k == 3:
            q = float(r.uniform(-1.2, 1.2))
            m = l + float(r.uniform(-1.5, 1.5))
        if abs(q) < 1.56 and max(abs(p - q), abs(l - m)) > 1.2e-8:
            yield p, l, q, m


def distance(h):
    for n, (p, l, q, m) in enumerate(pairs(h)):
        if not h.more() or n > (60000 if h.thorough else 3000):
            return
        desc = {'latitude 1': p, 'longitude 1': l, 'latitude 2': q,
                'longitude 2': m, 'in': 'radians'}
        h.case(desc)
        want = formula(F, A, p, l, q, m)
        if want is None:
            continue
        got, err = h.call(vinc_dist, F, A, p, l, q, m)
        if err:
            return h.fail('vinc_dist raises ' + err, desc)
        s = float(got[0])
        desc['distance'] = s
        tol = 2e-8 + 1e-12 * want
        if abs(p) < 1e-6 and abs(q) < 1e-6:
            tol += 2e-9 * want
        if not abs(s - want) <= tol:
            return h.fail("not the distance of Vincenty's formula", dict(
                desc, expected=want))
        back, err = h.call(vinc_dist, F, A, q, m, p, l)
        if err:
            return h.fail('vinc_dist raises ' + err, dict(
                desc, exchanged=True))
        if not abs(float(back[0]) - s) <= tol:
            return h.fail('another distance with the points exchanged',
                          dict(desc, exchanged=float(back[0])))
        if n < 40 or n % 10 == 0:
            true = geodesic(p, l, q, m)
            # the iteration stops at one part in 10^9 of the longitude
            if not abs(s - true) <= 1e-6 + 2e-9 * (true + A * abs(m - l)):
                return h.fail('not the length of the geodesic', dict(
                    desc, expected=true))


def near(h):
    r = h.rng
    for n in range(300):
        if not h.more():
            return
        p, l = float(r.uniform(-1.5, 1.5)), float(r.uniform(-3, 3))
        k = n % 3
        q = p + (0., 9e-9, -9e-9)[k]
        m = l + float(r.choice([0., 9e-9, -9e-9]))
        desc = {'latitude 1': p, 'longitude 1': l, 'latitude 2': q,
                'longitude 2': m}
        h.case(desc)
        got, err = h.call(vinc_dist, F, A, p, l, q, m)
        if err:
            return h.fail('vinc_dist raises ' + err, desc)
        if got[0] != 0:
            return h.fail('coinciding points are apart', dict(
                desc, distance=got[0]))


def reference(h):
    """GDA manual: Flinders Peak to Buninyong, GRS80"""
    d = lambda g, m, s: math.radians(abs(g) + m / 60 + s / 3600)
    desc = {'line': 'Flinders Peak - Buninyong'}
    h.case(desc)
    got, err = h.call(vinc_dist, 1 / 298.257222101, 6378137.,
                      -d(37, 57, 3.72030), d(144, 25, 29.52440),
                      -d(37, 39, 10.15610), d(143, 55, 35.38390))
    if err:
        return h.fail('vinc_dist raises ' + err, desc)
    if abs(got[0] - 54972.271) > 6e-4:
        h.fail('not the published distance', dict(desc, distance=got[0]))


h_rule = ('pairs of points from 10 cm to 9000 km apart, along parallels, '
          'meridians and the equator, across the date line; against the '
          "formula written independently and PROJ's geodesics")
main(reference, near, distance)
