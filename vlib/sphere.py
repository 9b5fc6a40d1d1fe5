"""Independent spherical geometry on unit vectors."""
import math


def vec(lon, lat):
    lon, lat = math.radians(math.fmod(lon, 360)), math.radians(lat)
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def norm(u):
    return math.sqrt(dot(u, u))


def add(u, v, a=1, b=1):
    return tuple(a * x + b * y for x, y in zip(u, v))


def unit(u):
    n = norm(u)
    return tuple(x / n for x in u)


def angle(u, v):
    return math.atan2(norm(cross(u, v)), dot(u, v))


def dist(u, v):
    "Chord between unit vectors: the error measure used throughout."
    return norm(add(u, v, 1, -1))


def frame(lon, lat):
    "North and east unit tangents."
    lo, la = math.radians(math.fmod(lon, 360)), math.radians(lat)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    east = (-math.sin(lo), math.cos(lo), 0.0)
    return north, east


def geo(u):
    return math.degrees(math.atan2(u[1], u[0])), math.degrees(math.atan2(u[2], math.hypot(u[0], u[1])))


def travel(lon, lat, bearing, d):
    "Destination vector; bearing in degrees counter-clockwise from north, d in radians."
    n, e = frame(lon, lat)
    b = math.radians(math.fmod(bearing, 360))
    t = add(n, e, math.cos(b), -math.sin(b))
    return add(vec(lon, lat), t, math.cos(d), math.sin(d))


def angdiff(a, b):
    "Difference of two angles in degrees, in -180..180."
    return (a - b + 180) % 360 - 180
