"""Which contract modules, oracle and Lean file decide which property."""
PROPS = {}

def _add(ids, contracts, oracle, lean=None, level="proof"):
    for i in ids.split():
        PROPS[i] = {"contracts": contracts.split(), "oracle": oracle, "lean": lean, "level": level}

_add("C01 C02 C03 C04 C05", "bbox", "bbox")
_add("C06", "buffer", "buffer")
_add("C07 C08", "simplify", "simplify")
_add("C11 C12", "compass", "compass")
_add("C17", "vlv", "vlv")
_add("C18", "grid", "grid")
_add("C29", "gradient", "gradient")
_add("C30", "stats", "stats", lean=[("Gini.lean", ["Gini.formulas_agree", "Gini.between"])])
_add("C31", "names", "names", lean=[("Osa.lean", ["Osa.exact_cost", "Osa.symmetric", "Osa.zero_iff", "Osa.at_least", "Osa.at_most"])])
_add("C32 C33", "table", "table", level="other")
_add("C34", "tqdm", "tqdm")
_add("C24 C25 C26", "raster", "raster")
_add("C09 C10 C14 C16", "proj", "proj")
_add("C27 C28", "vector", "vector")
_add("C19", "rg", "rg", level="other")
_add("C20", "pf", "pf", level="other")
_add("C21 C22 C23", "shp", "shp", level="other")
_add("C35", "frame", "frame")
_add("C13", "proj", "proj", lean=[("Projections.lean", ["Projections.iso_injective"])])
_add("C15", "proj", "proj", lean=[("Projections.lean", ["Projections.eckert_start", "Projections.eckert_step", "Projections.eckert_range"])])

TRUSTED = [
    "pyvc (this repository): symbolic semantics of the Python subset, checked against CPython by the concrete cross-check",
    "z3 5.3, cvc5 1.4",
    "Lean 4 kernel and Mathlib (properties with lean_theorems)",
    "CPython's parser (ast)",
]
BASE_ASSUMPTIONS = [
    "floating point is treated as exact real arithmetic (rounding, overflow, nan and inf excluded); ints are mathematical, as in Python",
    "no monkey-patching of builtins or of coral's modules from outside; single thread",
    "library functions (math, struct, codecs, ...) follow their documented contracts, given as axioms in pyvc/builtins_.py",
]
BOUNDED = "Deductive verification with a stated bound: every obligation generated from the current source is discharged for all values (unknown numbers and texts, exact real arithmetic), with the sizes below enumerated; these units are labelled bounded and not counted as proved. "
NOTES = {
    "C18": "fields alone are proved for all sizes, ranges and values; rows (GRow) are bounded: 0..4 fields.",
    "C19": "Bounded: 0..3 columns, up to 3 entities of up to 2 segments of up to 2 rows; GRow.encode and decode by the contracts that C18 verifies, readvlv and writevlv by those of C17.",
    "C20": "quantize and readascii are proved for all inputs. Bounded: up to 2 entities of up to 2 parts of up to 3 points; readvlv and writevlv by the contracts that C17 verifies, haversine is unknown.",
    "C21": "Bounded: 0..3 shapes (null shapes among them) of up to 3 parts of up to 2 points, every shape type, saved up to 3 times.",
    "C22": "Bounded: 0..3 shapes (null shapes among them) of up to 3 parts of up to 2 points, every shape type, saved up to 3 times; tables of up to 3 fields and 2 records.",
    "C23": "Bounded: up to 3 fields and 3 records; sizes, decimals, numbers and texts are unknown.",
    "C26": "fillpolygons and scanpolygon are proved for all inputs; the rows of a new scan line table are bounded: 1..4.",
    "C32": "Rows are unbounded. Bounded: tables of up to 3 columns.",
    "C33": "Rows and comment lines are unbounded. Bounded: tables of up to 3 columns.",
}
NA = {}
