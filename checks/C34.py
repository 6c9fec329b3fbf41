"""The initialisers of the physical constants of the library are evaluated and compared with the CODATA values, converted
to the units the library calculates in (gigahertz, volt per centimeter, gauss, micrometer) by dimensional analysis."""
from core import *
from facts import *
import math
from C26 import CODATA, library_constants
FLOORS = {"constants": 12}

def run(rep):
    get = library_constants()
    C = lambda n: CODATA[n][0]
    h, e, c, me, eps0 = C("Planck constant"), C("elementary charge"), C("speed of light in vacuum"), C("electron mass"), C("vacuum electric permittivity")
    GHz, Vcm, G, um = h * 1e9, 1e2, 1e-4, 1e-6            # joule, volt per meter, tesla, meter
    k = 1 / (4 * math.pi * eps0)
    want = {
        "au2GHz": (C("Hartree energy") / GHz, "Hartree energy in GHz"),
        "au2Vcm": (C("atomic unit of electric field") / Vcm, "atomic unit of the electric field in V/cm"),
        "au2G": (C("atomic unit of mag. flux density") / G, "atomic unit of the magnetic field in G"),
        "au2um": (C("Bohr radius") / um, "Bohr radius in um"),
        "inverse_electric_constant": (k / (Vcm ** 2 * um ** 3 / GHz), "1/(4 pi eps0) in (V/cm)^2 um^3/GHz"),
        "coulombs_constant": (k / (Vcm ** 2 * um ** 3 / GHz), "1/(4 pi eps0) in (V/cm)^2 um^3/GHz"),
        "sqrt_inverse_electric_constant": (math.sqrt(k / (Vcm ** 2 * um ** 3 / GHz)), "sqrt(1/(4 pi eps0))"),
        "inverse_electron_rest_mass": (GHz / (Vcm / G) ** 2 / me, "inverse electron mass"),
        "electron_rest_mass": (me / (GHz / (Vcm / G) ** 2), "electron mass in GHz/((V/cm)/G)^2"),
        "elementary_charge": (e / (GHz / um / Vcm), "elementary charge in GHz/um/(V/cm)"),
        "bohr_magneton": (C("Bohr magneton") / (GHz / G), "Bohr magneton in GHz/G"),
        "reduced_planck_constant": (h / (2 * math.pi) / (GHz * um / (Vcm / G)), "hbar in GHz um/((V/cm)/G)"),
        "speed_of_light": (c / (Vcm / G), "speed of light in (V/cm)/G"),
        "muB": (0.5, "Bohr magneton in atomic units"),
        "gS": (2.00231930436092, "g-factor of the electron spin"),
        "gL": (1.0, "g-factor of the orbital momentum"),
    }
    for n, (w, what) in want.items():
        try: got = get(n)
        except AnalysisError as x:
            if n in ("au2GHz", "au2Vcm", "au2G", "au2um"): raise
            rep.note(f"{n}: {x}"); continue                  # a constant may be removed when nothing uses it
        rep.count("constants")
        rep.check(abs(got - w) <= 1e-7 * abs(w), n, f"Constants.hpp: {n} = {got:.10g}: {what}", f"Constants.hpp: {n} is {got:.10g}, the {what} is {w:.10g}")
    # g-factors are not conversions: exact relations between the constants
    s = get("sqrt_inverse_electric_constant")
    rep.check(abs(s * s - get("inverse_electric_constant")) < 1e-12, "square", "the square root squared is the constant", f"Constants.hpp: sqrt_inverse_electric_constant squared is {s * s:.15g}, inverse_electric_constant is {get('inverse_electric_constant'):.15g}")
    rep.rules.append("constant evaluation against CODATA values in the units of the library")
