"""Published elastic properties of the rocks of the USGS San Francisco Bay models, in km, km/s and g/cm**3 (Aagaard and others, 2010, electronic
supplement with the corrections listed in the rules module; Hirakawa and Aagaard, 2021), and the rocks of fault blocks and zones."""
import math

NODATA = -1.0e20
INF = math.inf


def poly(c, d):
    return sum(a * d ** k for k, a in enumerate(c))


def pieces(*p):
    """Pieces (upper depth, depth of origin, coefficients of the powers of depth below the origin)."""
    def f(d):
        for top, d0, c in p:
            if d < top:
                return poly(c, d - d0)
    return f


def brocher_vs(vp):
    return poly([0.7858, -1.2344, 0.7949, -0.1238, 0.0064], vp)


def gardner(vp):
    return 1.74 * vp ** 0.25


def nafe_drake(c0):
    return lambda vp: poly([c0, 1.6612, -0.4721, 0.0671, -0.0043, 0.0001], vp)


def qs_of(vs):
    return poly([-16.0, 104.13, -25.225, 8.2184], vs)


def rock(vp, vs=None, density=None, low_q=True):
    """vs and density: pieces (upper depth, function of depth and Vp); the generic relation below them."""
    def f(d):
        p = vp(d)
        s = next((g(d, p) for top, g in (vs or []) if d < top), None)
        s = brocher_vs(p) if s is None else s
        r = next((g(d, p) for top, g in (density or []) if d < top), None)
        r = gardner(p) if r is None else r
        q = 13.0 if low_q and s < 0.3 else qs_of(s)
        return (1000.0 * r, 1000.0 * p, 1000.0 * s, 2.0 * q, q)
    return f


def franciscan(a):
    return rock(pieces((1.0, 0.0, [a + 2.5, 2.0]), (3.0, 1.0, [a + 4.5, 0.45]), (INF, 3.0, [a + 5.4, 0.0588])),
                density=[(3.0, lambda d, p: gardner(5.4 + a))])


def const(v):
    return lambda d, p: v


SB = pieces((0.75, 0.0, [1.8, 1.2]), (4.0, 0.75, [2.7, 0.597]), (7.0, 4.0, [4.64, 0.417]), (INF, 7.0, [5.891, 0.06]))
LIN50 = [(0.05, lambda d, p: 0.5 + 0.4 * d)]
ND_OPHIOLITE, ND_GRANITE = nafe_drake(0.227), nafe_drake(0.06)
ROCKS = {
    "mantle": rock(pieces((20.0, 0.0, [7.77]), (INF, 20.0, [7.77, 0.001])), [(20.0, const(4.41)), (INF, lambda d, p: 4.41 + 0.0006 * (d - 20.0))],
                   [(INF, const(3.3))]),
    "ophiolite": rock(pieces((10.0, 0.0, [5.9]), (INF, 10.0, [5.9, 0.056])), density=[(INF, lambda d, p: ND_OPHIOLITE(p))]),
    "foothills": franciscan(0.13), "napa_sonoma": franciscan(0.03), "berkeley": franciscan(-0.03),
    "granite": rock(pieces((0.5, 0.0, [1.5, 5.0]), (1.5, 0.5, [4.0, 1.3]), (2.5, 1.5, [5.3, 0.3]), (5.0, 2.5, [5.6, 0.08]), (INF, 5.0, [5.8, 0.06])),
                    density=[(3.0, lambda d, p: ND_GRANITE(5.64)), (INF, lambda d, p: ND_GRANITE(p))]),
    "gvs": rock(pieces((3.6, 0.0, [2.5, 0.5833]), (8.0, 3.6, [4.6, 0.18182]), (11.0, 8.0, [5.4, 0.166]), (INF, 11.0, [5.9, 0.0666])),
                [(1.0, lambda d, p: 0.6 + 1.183 * d), (5.0, lambda d, p: 1.5 + 0.2836 * d)], [(3.0, const(gardner(4.25)))]),
    "qt": rock(pieces((0.04, 0.0, [0.7, 42.968, -575.8, 2931.6, -3977.6]), (0.5, 0.0, [1.5, 3.735, -3.543]), (10.0, 0.0, [2.24, 0.6]),
                      (INF, 0.0, [8.24])), [(0.025, lambda d, p: 0.08 + 2.5 * d), (0.05, lambda d, p: (p - 1.36) / 1.16)]),
    "lahonda": rock(pieces((3.0, 0.0, [2.24, 2.62, -0.74432, 0.0707]), (INF, 3.0, [5.32, 0.027])), [(0.05, lambda d, p: 0.5 + 6.633 * d)]),
    "southbay": rock(SB, LIN50),
    "halfmoon": rock(pieces((0.05, 0.0, [0.7, 31.4]), (4.0, 0.05, [2.24, 0.6]), (7.0, 4.0, [4.64, 0.417]), (INF, 7.0, [5.891, 0.06])), LIN50),
    "water": lambda d: (1030.0, 1500.0, NODATA, 63000.0, NODATA),
    "outside": lambda d: (NODATA,) * 5,
    "gvs2008": rock(pieces((4.0, 0.0, [2.75, 0.4725]), (7.0, 4.0, [4.64, 0.3]), (INF, 7.0, [5.54, 0.06])), low_q=False),
    "cenozoic2005": rock(pieces((4.0, 0.0, [2.24, 0.6]), (7.0, 4.0, [4.64, 0.3]), (INF, 7.0, [5.54, 0.06])), low_q=False),
    "livermore": rock(pieces((6.44444, 0.0, [1.64, 0.6]), (INF, 6.44444, [5.506667, 0.06])), low_q=False),
    "walnutcreek": rock(pieces((0.75, 0.0, [1.8, 1.2]), (4.0, 0.75, [2.7, 0.597]), (7.0, 4.0, [4.64, 0.3]), (INF, 7.0, [5.54, 0.06])), LIN50),
}
AZIMUTH = 323.638
# Rocks on both sides of a line through a point, at a right angle to the azimuth: (x, y, rock on the side of the azimuth, other rock)
SPLIT = {"sanleandro": (92724.2, 285582.4, "gvs2008", "cenozoic2005"), "napa_f": (62999.3, 360755.6, "napa_sonoma", "gvs2008"),
         "napa_c": (81696.7, 328741.7, "cenozoic2005", "walnutcreek"), "sonoma_f": (47249.3, 360648.4, "napa_sonoma", "gvs2008"),
         "sonoma_c": (47249.3, 360648.4, "gvs2008", "cenozoic2005")}
D08 = {"Mantle": "mantle", "Lower Crust": "ophiolite", "Great_Valley_Ophiolite": "ophiolite", "San Leandro G": "ophiolite", "Logan G": "ophiolite",
       "Kjf_Berkeley": "berkeley", "Kjf_Chabot": "berkeley", "Kjf_Foothills": "foothills", "Kjf_Merced": "napa_sonoma", "Kjf_Sur": "berkeley",
       "Kjf_Napa_Somoma": "napa_sonoma", "Kjf_Bay Block": "napa_sonoma", "Kjf_Evergreen": "berkeley", "Kjf_E_Diablo": "berkeley",
       "Kjf_W_Diablo": "berkeley", "Valley Sequence": "gvs", "Kgr_Gab": "granite", "Kgr_Halfmoon": "granite", "Kgr_SCoast": "granite",
       "Kgr_NShelf": "granite", "Great Valley Seq": "gvs", "Cenozoic_Great Valley": "southbay", "Cenozoic_Halfmoon": "halfmoon",
       "Cenozoic_Ever": "southbay", "T_SouthBay": "southbay", "T_La Honda": "lahonda", "T_Pilarcitos": "southbay",
       "T_Bay_Block_Santa_Rosa": "southbay", "T_Berkeley": "southbay", "Cenozoic": "southbay", "QT_Bay_Block_Santa Rosa": "qt",
       "QT_Merced_Pilarcitos": "qt", "QT_South_Bay": "qt", "<null>": "outside", "water": "water", "": "outside"}
R08 = {"mantle": "mantle", "mafic lower crust": "ophiolite", "GV gabbro": "ophiolite", "KJf_Foothills": "foothills", "KJf_W_Diablo": "berkeley",
       "KJf_E_Diablo": "berkeley", "KJf_Sur": "berkeley", "KJf_Viscaino": "foothills", "KJf_Coastal_Belt": "berkeley", "<null>": "outside", "K": "gvs",
       "Kgr": "granite", "KJF_Bay_Block": "napa_sonoma", "Cs_Coast Ranges": "southbay", "Cs_Offshore": "southbay", "T_Foothills": "southbay",
       "T_Great_Valley": "southbay", "T_Salinia": "southbay", "Q_Salinia": "qt", "water": "water", "": "outside"}
# Changes of version 21.1 of the detailed model: (zone, fault block)
D21 = {("Kjf_Napa_Somoma", "Napa"): "napa_f", ("Valley Sequence", "San Leandro"): "sanleandro", ("Valley Sequence", "Sunol"): "gvs2008",
       ("Great Valley Seq", "Berkeley"): "gvs2008", ("Great Valley Seq", "Chabot"): "gvs2008", ("Great Valley Seq", "W Diablo Range"): "gvs2008",
       ("Cenozoic", "Napa"): "napa_c", ("Cenozoic", "Sonoma"): "sonoma_c", ("Cenozoic", "Alexander"): "gvs2008",
       ("Cenozoic", "W Diablo Range"): "livermore", ("T_Bay_Block_Santa_Rosa", "Santa Rosa"): "cenozoic2005",
       ("T_Berkeley", "Berkeley"): "gvs2008", ("T_Berkeley", "Chabot"): "gvs2008"}
VERSIONS = {"USGS_SFCVM_detailed_v08-3-0": (D08, {}), "USGS_SFCVM_regional_v08-3-0": (R08, {}), "USGS_SFCVM_detailed_v21-1": (D08, D21)}
BLOCKS = ["Alexander", "Berkeley", "Central Bay Block", "Chabot", "E Diablo Range", "Evergreen", "Foothills", "GV basement", "Gabilan",
          "Great Valley", "Halfmoon Bay", "La Honda", "Merced", "N. shelf", "Napa", "Pilarcitos", "Quin Sabe", "San Felipe", "San Leandro",
          "Santa Rosa", "Sonoma", "Sunol", "Sur", "W Diablo Range", "deep_felsic", "south_coast C"]
REGIONAL = ["Bay Block", "Coastal_Belt", "E_Diablo Range", "Farallone", "GVS", "GV_Basement", "Great Valley", "Salinia", "Sliver", "Sur", "Viscaino",
            "West Diablo"]
DEPTHS = [0.0, 25.0, 40.0, 50.0, 500.0, 750.0, 1000.0, 1500.0, 2500.0, 3000.0, 3600.0, 4000.0, 5000.0, 6444.44, 7000.0, 8000.0, 10000.0, 11000.0,
          20000.0]


def side(name, x, y):
    """Distance from the line of SPLIT along the azimuth."""
    x0, y0 = SPLIT[name][:2]
    a = math.radians(AZIMUTH)
    return (x - x0) * math.sin(a) + (y - y0) * math.cos(a)


def name_of(version, block, zone):
    zones, changes = VERSIONS[version]
    return changes.get((zone, block), zones[zone])


def values(name, x, y, depth):
    """Density, Vp, Vs, Qp, Qs at a depth in m; None close to the line between two rocks."""
    if name in SPLIT:
        s = side(name, x, y)
        if abs(s) < 1.0e-4:
            return None
        name = SPLIT[name][2 if s > 0.0 else 3]
    return ROCKS[name](round(depth / 1000.0, 9) if depth in DEPTHS else depth / 1000.0)  # 6444.44 / 1000 is less than 6.44444
