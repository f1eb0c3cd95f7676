"""What the published definitions say: sizes in SI units and base dimensions, typed in by hand.

Base dimensions: m, kg, s, A, K, mol, cd, bit.  Independent of the code under test.
"""

_T = """
m 1 m1 | cm 1e-2 m1 | mm 1e-3 m1 | um 1e-6 m1 | nm 1e-9 m1 | km 1e3 m1 | inch 0.0254 m1 | ft 0.3048 m1
yd 0.9144 m1 | mi 1609.344 m1 | nmi 1852 m1 | angstrom 1e-10 m1 | au 149597870691 m1
kg 1 kg1 | g 1e-3 kg1 | mg 1e-6 kg1 | lb 0.45359237 kg1 | oz 0.028349523125 kg1 | tonne 1e3 kg1
s 1 s1 | ms 1e-3 s1 | us 1e-6 s1 | ns 1e-9 s1 | min 60 s1 | h 3600 s1 | day 86400 s1 | week 604800 s1
A 1 A1 | mA 1e-3 A1 | K 1 K1 | degC 1 K1 | degF 0.55555555555555555556 K1 | mol 1 mol1 | mmol 1e-3 mol1
cd 1 cd1 | bit 1 bit1 | byte 8 bit1 | kB 8000 bit1
rad 1 - | degree 0.017453292519943295769 - | arcmin 2.9088820866572159615e-4 - | turn 6.283185307179586477 -
sr 1 - | percent 0.01 - | count 1 -
N 1 m1kg1s-2 | kN 1e3 m1kg1s-2 | dyn 1e-5 m1kg1s-2 | lbf 4.4482216152605 m1kg1s-2
J 1 m2kg1s-2 | erg 1e-7 m2kg1s-2 | eV 1.60217653e-19 m2kg1s-2 | cal 4.184 m2kg1s-2 | kWh 3.6e6 m2kg1s-2
W 1 m2kg1s-3 | kW 1e3 m2kg1s-3 | hp 745.6998715822701 m2kg1s-3
Pa 1 m-1kg1s-2 | kPa 1e3 m-1kg1s-2 | bar 1e5 m-1kg1s-2 | atm 101325 m-1kg1s-2 | psi 6894.757293168359 m-1kg1s-2
torr 133.32236842105263 m-1kg1s-2 | mmHg 133.322387415 m-1kg1s-2
Hz 1 s-1 | kHz 1e3 s-1 | rpm 0.10471975511965977462 s-1
V 1 m2kg1s-3A-1 | mV 1e-3 m2kg1s-3A-1 | C 1 A1s1 | ohm 1 m2kg1s-3A-2 | F 1 m-2kg-1s4A2
T 1 kg1s-2A-1 | G 1e-4 kg1s-2A-1 | Wb 1 m2kg1s-2A-1 | H 1 m2kg1s-2A-2 | S 1 m-2kg-1s3A2
Gy 1 m2s-2 | rem 0.01 m2s-2 | Ci 3.7e10 s-1
L 1e-3 m3 | mL 1e-6 m3 | gallon 0.003785411784 m3 | cc 1e-6 m3 | hectare 1e4 m2 | barn 1e-28 m2
M 1e3 mol1m-3 | mM 1 mol1m-3 | P 0.1 m-1kg1s-1 | cP 1e-3 m-1kg1s-1 | St 1e-4 m2s-1
g_0 9.80665 m1s-2 | knot 0.51444444444444444444 m1s-1
"""

import re

FACT = {}       # label -> (size, {base: power})
for _e in _T.replace('\n', '|').split('|'):
    _e = _e.split()
    if _e:
        FACT[_e[0]] = (float(_e[1]), {b: int(p) for b, p in re.findall(r'([a-zA-Z]+)(-?\d+)', _e[2])})

# labels of the same unit, for aliases in operations
ALIAS = {'m': ['meter', 'meters', 'metre'], 'km': ['kilometer', 'kilometers'], 's': ['sec', 'second', 'seconds'],
         'kg': ['kilogram', 'kilograms'], 'ft': ['foot', 'feet'], 'J': ['joule', 'joules'], 'V': ['volt', 'volts'],
         'N': ['newton', 'newtons'], 'h': ['hour', 'hours', 'hr'], 'min': ['minute', 'minutes'],
         'Hz': ['hertz'], 'W': ['watt', 'watts'], 'inch': ['inches', 'international_inch'], 'lb': ['pound'],
         'degree': ['deg', 'arcdegree', 'degrees'], 'rad': ['radian', 'radians'], 'K': ['kelvin', 'degK']}

GROUPS = {}     # dimension -> labels
for _l, (_f, _d) in FACT.items():
    GROUPS.setdefault(tuple(sorted(_d.items())), []).append(_l)
BIG_GROUPS = sorted(g for g in GROUPS.values() if len(g) > 1)

BASE = {'m': ('UnitLength', 'length'), 'kg': ('UnitMass', 'mass'), 's': ('UnitTime', 'time'),
        'A': ('UnitCurrent', 'current'), 'K': ('UnitTemperature', 'temperature'),
        'mol': ('UnitSubstance', 'substance'), 'cd': ('UnitLuminousIntensity', 'luminous_intensity'),
        'bit': ('UnitInformation', 'information')}


def size_of(dims):
    """(size, base dimensions) of {label: power}"""
    f, b = 1.0, {}
    for l, p in dims.items():
        ff, bb = FACT[l]
        f *= ff ** p
        for k, v in bb.items():
            b[k] = b.get(k, 0) + v * p
    return f, {k: v for k, v in b.items() if abs(v) > 1e-9}
