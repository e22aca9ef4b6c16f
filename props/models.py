"""The documented dispersion models: parameters with defaults, independent of the implementation."""

# name: (kind, single parameters, repeated parameters) in documented order
MODELS = {
    "Cauchy": ("n", [("n0", 1.5), ("n1", 0), ("n2", 0), ("k0", 0), ("k1", 0), ("k2", 0)], []),
    "CauchyCustomExponent": ("n", [("n0", 1.5)], [("f", 0), ("e", 1)]),
    "CauchyUrbach": ("n", [("n0", 1.5), ("B", 0), ("C", 0), ("D", 0), ("Eg", 2), ("Eu", 0.5)], []),
    "Sellmeier": ("eps", [], [("A", 0), ("B", 0)]),
    "SellmeierCustomExponent": ("eps", [], [("A", 0), ("e_A", 1), ("B", 0), ("e_B", 1)]),
    "DrudeEnergy": ("eps", [("A", 0), ("gamma", 0)], []),
    "DrudeResistivity": ("eps", [("rho_opt", 1), ("tau", 1)], []),
    "LorentzLambda": ("eps", [], [("A", 1), ("lambda_r", 0), ("gamma", 0)]),
    "LorentzEnergy": ("eps", [], [("A", 1), ("E", 0), ("gamma", 0)]),
    "Gaussian": ("eps", [], [("A", 1), ("E", 1), ("sigma", 1)]),
    "Tanguy": ("eps", [("A", 1), ("d", 3), ("gamma", 0.1), ("R", 0.1), ("Eg", 1), ("a", 0), ("b", 0)], []),
    "TaucLorentz": ("eps", [("Eg", 1)], [("A", 20), ("E", 1.5), ("C", 1)]),
    "CodyLorentz": ("eps", [("Eg", 1.6), ("A", 100), ("Et", 1.8), ("gamma", 2.4), ("Ep", 0.8), ("E0", 3.6), ("Eu", 0.05)], []),
    "Poles": ("eps", [("A_ir", 1), ("A_uv", 1), ("E_uv", 6)], []),
    "EpsilonInf": ("eps", [("eps", 1)], []),
    "ConstantRefractiveIndex": ("n", [("n", 1)], []),
    "Polynomial": ("eps", [("e0", 1)], [("f", 0), ("e", 0)]),
}
