REGISTRY = {
    "C01": ("pd_cache", "C01"), "C02": ("pd_cache", "C02"), "C03": ("faults", "C03"), "C20": ("shared", "C20"),
    "C04": ("formulas", "C04"), "C05": ("formulas", "C05"), "C06": ("formulas", "C06"), "C07": ("formulas", "C07"),
    "C08": ("formulas", "C08"), "C28": ("formulas", "C28"),
    "C09": ("randomised", "C09"), "C10": ("randomised", "C10"), "C17": ("randomised", "C17"),
    "C18": ("randomised", "C18"),
    "C11": ("forests", "C11"), "C12": ("forests", "C12"), "C13": ("boosted", "C13"), "C14": ("boosted", "C14"),
    "C15": ("tables", "C15"), "C16": ("readonly", "C16"), "C19": ("refit", "C19"), "C21": ("lifecycle", "C21"),
    "C22": ("plots", "C22"), "C23": ("plots", "C23"), "C24": ("plots", "C24"),
    "C25": ("compare", "C25"), "C26": ("compare", "C26"), "C27": ("profiles", "C27"), "C29": ("symmetry", "C29"), "C30": ("frames", "C30"), "C31": ("frames", "C31"),
    "C32": ("options", "C32"),
}
