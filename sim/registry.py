REGISTRY = {"H01": ("work_hyp", "HypothesisStore"),
            "M01": ("work_mu", "MuBounds"), "H02": ("work_mu", "CachedHulls"), "E01": ("work_mu", "ExponentPairs"),
            "B01": ("work_beta", "BestBeta"),
            }
REGISTRY.update({"P01": ("work_poly", "PolyHistory"), "P02": ("work_poly", "PolyDecisions"), "P03": ("work_poly", "PolyMaps")})
REGISTRY.update({"G01": ("work_region", "Regions"), "G02": ("work_region", "RegionMaps")})
REGISTRY.update({"L01": ("work_lv", "LVRegion"), "L02": ("work_lv", "Conversions")})
REGISTRY.update({"D01": ("work_zd", "ZeroDensity"), "Z01": ("work_zd", "BestDensity")})
REGISTRY.update({"A01": ("work_ad", "EnergyRegion"), "A02": ("work_ad", "EnergyBounds")})
REGISTRY.update({"F01": ("work_fn", "PiecewiseAffine"), "F02": ("work_fn", "RationalFunctions")})
REGISTRY.update({"H03": ("work_prov", "Provenance"), "R01": ("work_prov", "References")})
REGISTRY.update({"X01": ("work_der", "Derivations")})
REGISTRY.update({"N01": ("work_gap", "PrimeGaps"), "D02": ("work_gap", "PairDensities")})
REGISTRY.update({"T01": ("work_text", "PrintedForms")})
REGISTRY.update({"V01": ("work_plot", "Plots")})
REGISTRY.update({"C01": ("work_lit", "Literature")})
