M = "TLA+ specification checked with TLC; behaviours replayed on the code and recorded traces judged by TLC"
CHECKS = {
    "C01": ("p_session", "c01", "model_checking", M),
    "C02": ("p_session", "c02", "model_checking", M),
    "C03": ("p_container", "c03", "model_checking", M),
    "C04": ("p_foreign", "c04", "model_checking", M),
    "C05": ("p_malformed", "c05", "model_checking", M),
    "C06": ("p_damage", "c06", "model_checking", M),
    "C07": ("p_split", "c07", "model_checking", M),
    "C08": ("p_iterate", "c08", "model_checking", M),
    "C09": ("p_encode", "c09", "model_checking", M),
    "C10": ("p_lzma", "c10", "model_checking", M),
    "C11": ("p_alone", "c11", "model_checking", M),
    "C12": ("p_filters", "c12", "model_checking", M),
    "C13": ("p_bcj2", "c13", "model_checking", M),
    "C14": ("p_crypt", "c14", "model_checking", M),
    "C15": ("p_crypt", "c15", "model_checking", M),
    "C16": ("p_paths", "c16", "model_checking", M),
    "C17": ("p_paths", "c17", "model_checking", M),
    "C18": ("p_session", "c18", "model_checking", M),
    "C19": ("p_store", "c19", "model_checking", M),
    "C20": ("p_iterate", "c20", "model_checking", M),
    "C21": ("p_store", "c21", "model_checking", M),
    "C22": ("p_store", "c22", "model_checking", M),
}
NOTE = ("Bounded: the specification's behaviours are enumerated or sampled within the bounds stated in DESIGN.md and every recorded run "
        "of the code is judged by TLC against the specification. Trusts TLC, the harness that records what the code did, and the "
        "independent digests it takes of contents.")
NOTES = {}
NA = {}
