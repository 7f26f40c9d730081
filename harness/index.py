MODULES = {
    "C01": "c01_timing",
    "C02": "c02_digital",
    "C03": "c03_shapes",
    "C04": "c04_e2e",
    "C05": "c05_acq",
    "C06": "c06_loops",
    "C07": "c07_cond",
    "C08": "c08_valid",
    "C09": "c09_overlap",
    "C10": "c10_carrier",
    "C11": "c11_compensation",
    "C12": "c12_latency",
    "C13": "c13_grid",
    "C15": "c15_values",
    "C16": "c16_settings",
    "C17": "c17_reuse",
    "C18": "c18_crosstalk",
    "C19": "c19_software",
    "C20": "c20_library",
    "C22": "c22_gates",
    "C23": "c23_distinct",
    "C24": "c24_json",
}
