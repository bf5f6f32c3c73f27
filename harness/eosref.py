"""The published equations of state, written down independently of /repo.

Jackett & McDougall (1995) in the form of MITgcm's EOS (pressure in bar), Jackett
et al. (2006), and TEOS-10's 75-term specific volume (Roquet et al. 2015)."""
import math

JFW = [999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536332e-9]
JSW = [8.24493e-1, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9, -5.72466e-3, 1.0227e-4, -1.6546e-6, 4.8314e-4]
KFW = [1.965933e4, 1.444304e2, -1.706103, 9.648704e-3, -4.190253e-5]
KSW = [5.284855e1, -3.101089e-1, 6.283263e-3, -5.084188e-5, 3.886640e-1, 9.085835e-3, -4.619924e-4]
KP = [3.186519, 2.212276e-2, -2.984642e-4, 1.956415e-6, 6.704388e-3, -1.847318e-4, 2.059331e-7, 1.480266e-4,
      2.102898e-4, -1.202016e-5, 1.394680e-7, -2.040237e-6, 6.128773e-8, 6.207323e-10]


def jmd95(s, t, p, sqrt=math.sqrt):
    p = 0.1 * p  # dbar -> bar
    r = sqrt(s)
    rho0 = sum(c * t**i for i, c in enumerate(JFW)) + s * sum(c * t**i for i, c in enumerate(JSW[:5])) \
        + s * r * sum(c * t**i for i, c in enumerate(JSW[5:8])) + s * s * JSW[8]
    K = sum(c * t**i for i, c in enumerate(KFW)) + s * sum(c * t**i for i, c in enumerate(KSW[:4])) \
        + s * r * sum(c * t**i for i, c in enumerate(KSW[4:]))
    K += p * (sum(c * t**i for i, c in enumerate(KP[:4])) + s * sum(c * t**i for i, c in enumerate(KP[4:7])) + s * r * KP[7])
    K += p * p * (sum(c * t**i for i, c in enumerate(KP[8:11])) + s * sum(c * t**i for i, c in enumerate(KP[11:14])))
    return rho0 / (1 - p / K)


def jmdfwg06(s, t, p, sqrt=math.sqrt):
    s15 = s * sqrt(s)
    num = 9.9984085444849347e02 + 7.3471625860981584e00 * t - 5.3211231792841769e-02 * t**2 + 3.6492439109814549e-04 * t**3 \
        + 2.5880571023991390e00 * s - 6.7168282786692355e-03 * s * t + 1.9203202055760151e-03 * s**2 \
        + 1.1798263740430364e-02 * p + 9.8920219266399117e-08 * p * t**2 + 4.6996642771754730e-06 * p * s \
        - 2.5862187075154352e-08 * p**2 - 3.2921414007960662e-12 * p**2 * t**2
    den = 1.0 + 7.2815210113327091e-03 * t - 4.4787265461983921e-05 * t**2 + 3.3851002965802430e-07 * t**3 \
        + 1.3651202389758572e-10 * t**4 + 1.7632126669040377e-03 * s - 8.8066583251206474e-06 * s * t \
        - 1.8832689434804897e-10 * s * t**3 + 5.7463776745432097e-06 * s15 + 1.4716275472242334e-09 * s15 * t**2 \
        + 6.7103246285651894e-06 * p - 2.4461698007024582e-17 * p**2 * t**3 - 9.1534417604289062e-18 * p**3 * t
    return num / den


# TEOS-10, 75-term polynomial (Roquet et al. 2015, table as in gsw_specvol): v_ijk of x^i y^j z^k
V75 = {
    (0, 0, 0): 1.0769995862e-3,
    (0, 0, 1): -6.0799143809e-5,
    (0, 0, 2): 9.9856169219e-6,
    (0, 0, 3): -1.1309361437e-6,
    (0, 0, 4): 1.0531153080e-7,
    (0, 0, 5): -1.2647261286e-8,
    (0, 0, 6): 1.9613503930e-9,
    (0, 1, 0): -1.5649734675e-5,
    (0, 1, 1): 1.8505765429e-5,
    (0, 1, 2): -1.1736386731e-6,
    (0, 1, 3): -3.6527006553e-7,
    (0, 1, 4): 3.1454099902e-7,
    (0, 2, 0): 2.7762106484e-5,
    (0, 2, 1): -1.1716606853e-5,
    (0, 2, 2): 2.1305028740e-6,
    (0, 2, 3): 2.8695905159e-7,
    (0, 3, 0): -1.6521159259e-5,
    (0, 3, 1): 7.9279656173e-6,
    (0, 3, 2): -4.6132540037e-7,
    (0, 4, 0): 6.9111322702e-6,
    (0, 4, 1): -3.4102187482e-6,
    (0, 4, 2): -6.3352916514e-8,
    (0, 5, 0): -8.0539615540e-7,
    (0, 5, 1): 5.0736766814e-7,
    (0, 6, 0): 2.0543094268e-7,
    (1, 0, 0): -3.1038981976e-4,
    (1, 0, 1): 2.4262468747e-5,
    (1, 0, 2): -5.8484432984e-7,
    (1, 0, 3): 3.6310188515e-7,
    (1, 0, 4): -1.1147125423e-7,
    (1, 1, 0): 3.5009599764e-5,
    (1, 1, 1): -9.5677088156e-6,
    (1, 1, 2): -5.5699154557e-6,
    (1, 1, 3): -2.7295696237e-7,
    (1, 2, 0): -3.7435842344e-5,
    (1, 2, 1): -2.3678308361e-7,
    (1, 2, 2): 3.9137387080e-7,
    (1, 3, 0): 2.4141479483e-5,
    (1, 3, 1): -3.4558773655e-6,
    (1, 3, 2): 7.7618888092e-9,
    (1, 4, 0): -8.7595873154e-6,
    (1, 4, 1): 1.2956717783e-6,
    (1, 5, 0): -3.3052758900e-7,
    (2, 0, 0): 6.6928067038e-4,
    (2, 0, 1): -3.4792460974e-5,
    (2, 0, 2): -4.8122251597e-6,
    (2, 0, 3): 1.6746303780e-8,
    (2, 1, 0): -4.3592678561e-5,
    (2, 1, 1): 1.1100834765e-5,
    (2, 1, 2): 5.4620748834e-6,
    (2, 2, 0): 3.5907822760e-5,
    (2, 2, 1): 2.9283346295e-6,
    (2, 2, 2): -6.5731104067e-7,
    (2, 3, 0): -1.4353633048e-5,
    (2, 3, 1): 3.1655306078e-7,
    (2, 4, 0): 4.3703680598e-6,
    (3, 0, 0): -8.5047933937e-4,
    (3, 0, 1): 3.7470777305e-5,
    (3, 0, 2): 4.9263106998e-6,
    (3, 1, 0): 3.4532461828e-5,
    (3, 1, 1): -9.8447117844e-6,
    (3, 1, 2): -1.3544185627e-6,
    (3, 2, 0): -1.8698584187e-5,
    (3, 2, 1): -4.8826139200e-7,
    (3, 3, 0): 2.2863324556e-6,
    (4, 0, 0): 5.8086069943e-4,
    (4, 0, 1): -1.7322218612e-5,
    (4, 0, 2): -1.7811974727e-6,
    (4, 1, 0): -1.1959409788e-5,
    (4, 1, 1): 2.5909225260e-6,
    (4, 2, 0): 3.8595339244e-6,
    (5, 0, 0): -2.1092370507e-4,
    (5, 0, 1): 3.0927427253e-6,
    (5, 1, 0): 1.3864594581e-6,
    (6, 0, 0): 3.1932457305e-5,
}
SFAC, OFFSET = 0.0248826675584615, 5.971840214030754e-1


def specvol75(s, t, p, sqrt=math.sqrt):
    x, y, z = sqrt(SFAC * s + OFFSET), t * 0.025, p * 1e-4
    return sum(c * x**i * y**j * z**k for (i, j, k), c in V75.items())


def specvol(s, t, p):
    import gsw

    return float(gsw.specvol(s, t, p))


REF = {"jmd95": jmd95, "jmdfwg06": jmdfwg06, "gsw": specvol}
