"""The checks: which machinery decides each property."""
EVERY = "every value of every input (bit-precise, no bound)"


def kani(names, bounds=EVERY, **more):
    return [{"harness": name, "bounds": bounds, **more} for name in names.split()]


def union_find(n, **more):
    # The chains of parents that a lookup follows are at most n - 1 long.
    return {
        "harness": f"union_find_{n}",
        "bounds": f"{n} elements, every sequence of up to {n - 1} unions with the lookups before each and three after",
        "tighten": [("9UnionFind", ["3new"], n)],
        "flags": ["--no-assertion-reach-checks"],
        **more,
    }


KANI = "bounded model checking of the compiled code (Kani, CBMC with a SAT back end), counterexamples replayed natively"

CHECKS = {
    "C01": {},
    "C02": {},
    "C03": {},
    "C04": {},
    "C05": {},
    "C06": {},
    "C07": {"symex": False, "technique": KANI, "kani": kani("lab_range_f64 lab_range_f32 xyz_range_f64 xyz_range_f32")},
    "C08": {},
    "C09": {},
    "C10": {},
    "C11": {},
    "C12": {},
    "C13": {},
    "C14": {},
    "C15": {},
    "C16": {},
    "C17": {},
    "C18": {"symex": False, "technique": KANI, "kani": [
        union_find(3), union_find(4), union_find(5, optional=True), union_find(6, tier="thorough", optional=True),
    ]},
    "C19": {},
    "C20": {},
    "C21": {},
    "C22": {},
    "C23": {"symex": False, "technique": KANI, "kani": kani(
        "swatch_order_f64 swatch_order_f32 swatch_transitive_f64 swatch_transitive_f32 "
        "edge_order_f64 edge_order_f32 edge_transitive_f64 edge_transitive_f32")},
    "C24": {"symex": False, "technique": KANI, "kani":
        kani("clamp_u8 clamp_u16 clamp_u32 clamp_u64 clamp_u128 clamp_f32 clamp_f64 "
             "convert_to_u8 convert_to_u16 convert_to_u32 convert_to_u64 convert_to_u128 "
             "convert_to_f32 convert_to_f64 convert_between_floats")
        + kani("clamp_inverted_u8 clamp_inverted_u16 clamp_inverted_u32 clamp_inverted_u64 clamp_inverted_u128 "
               "clamp_inverted_f32 clamp_inverted_f64 convert_misfit_u8 convert_misfit_u16 convert_misfit_u32",
               refuses=True)},
}
