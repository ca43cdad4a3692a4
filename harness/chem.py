"""Small synthetic mechanisms (isomers with identical thermodynamics)."""

THERMO = """  thermo:
    model: NASA7
    temperature-ranges: [200.0, 6000.0]
    data:
    - [3.5, 0.0, 0.0, 0.0, 0.0, -1000.0, 5.0]
  transport:
    model: gas
    geometry: linear
    well-depth: 100.0
    diameter: 3.0
"""

#: concentration (kmol/m^3) of one unit of amount; all mixtures have total amount S
T_REF = 1000.0
R_GAS = 8314.46261815324


def species_yaml(names, composition="N: 2"):
    return "".join(
        f"- name: {n}\n  composition: {{{composition}}}\n{THERMO}" for n in names
    )


def isomer_mech(names, phase="gas", extra_phases="", reactions="", header=""):
    txt = header
    txt += "units: {length: m, quantity: kmol, activation-energy: K}\n"
    txt += f"""phases:
{extra_phases}- name: {phase}
  thermo: ideal-gas
  elements: [N]
  species: [{', '.join(names)}]
  kinetics: bulk
  reactions: [{phase}-reactions]
  transport: mixture-averaged
  state: {{T: 1000.0, P: 1 atm}}
species:
"""
    txt += species_yaml(names)
    txt += f"{phase}-reactions:" + ("\n" + reactions if reactions else " []\n")
    return txt
