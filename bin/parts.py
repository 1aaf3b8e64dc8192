"""What every check runs: a driver (recorded behaviours of the real code) and a specification."""


def pipe(prop, quick, thorough):
    """quick, thorough: (scenarios screened, scenarios given to TLC)"""
    return {
        "name": "pipe",
        "driver": {"quick": ["pipe", prop, "@SEED", quick[0], quick[1]],
                   "thorough": ["pipe", prop, "@SEED", thorough[0], thorough[1]]},
        "feature": {"quick": "", "thorough": "full"},
        "spec": "Pipeline.tla", "cfg": "Pipeline.cfg",
        "states": lambda o: 2 + len(o["stages"]),
        "assumptions": [
            "programs of at most 4 circuits and 14 instructions per circuit; values over fields of 2, 3, 7, 13, 2^31-1 and the BN254 scalar field (thorough: more)",
            "field arithmetic of the two external field crates is replaced by the shim's (checked against Fld.tla)",
            "random coefficients: a rejection must show for one of 400 challenge assignments",
        ],
    }


def utils(kind, quick, thorough, gen=True, assume=()):
    r = {
        "name": kind, "crate": "utils",
        "driver": {"quick": [kind, "@SEED", quick, "@GEN"], "thorough": [kind, "@SEED", thorough, "@GEN"]},
        "spec": "Utils.tla", "cfg": "Utils.cfg",
        "states": lambda o: 1 + (len(o["ops"]) if o["kind"] in ("heap", "pool", "uf") else 1),
        "assumptions": list(assume),
    }
    if gen:
        r["gen"] = {"spec": "UtilsGen.tla",
                    "cfg": {t: f"UtilsGen.{kind}.{t}.cfg" for t in ("quick", "thorough")}}
    return r


def facts(prop, quick, thorough, assume=()):
    return {
        "name": "facts",
        "driver": {"quick": ["facts", prop, "@SEED", quick], "thorough": ["facts", prop, "@SEED", thorough]},
        "spec": "Facts.tla", "cfg": "Facts.cfg",
        "states": lambda o: 2,
        "assumptions": list(assume),
    }


def trace(driver, prop, spec, states, quick, thorough, assume=()):
    return {
        "name": driver,
        "driver": {"quick": [driver, prop, "@SEED", quick], "thorough": [driver, prop, "@SEED", thorough]},
        "spec": spec + ".tla", "cfg": spec + ".cfg",
        "states": states,
        "assumptions": list(assume),
    }


def wit_states(o):
    return 1 + len(o["ops"]) if o["kind"] == "hold" else 2


def bytes_states(o):
    return 2 + len(o["flips"]) if "flips" in o else 2 if o["kind"] == "image" else 3


def cuda_states(o):
    return 1 + len(o["ops"]) if o["kind"] == "hist" else 2


SERDES = "numbers, vectors, maps and options of the external serdes crate are written by the shim's implementation; what the repository's own code adds is what is checked"


CUDA = ["memories of at most 72 elements, up to 5 calls of kernels with at most 3 parameters of at most 8 elements and 8 operations",
        "four configurations: 2 lanes over F3, 4 over F5, 2 over F97, 1 over BN254"]
DUMMY = "proofs are those of the dummy proving system; the Expander backends cannot be built here"

FRONT = ["bodies of at most 14 operations, functions nested at most 7 deep; six assignments per program",
         "the prover is honest: outputs of unconstrained operations and hints are those of their implementations"]

def std(prop, spec, quick, thorough, assume=()):
    return {**trace("std", prop, spec, lambda o: 1 + len(o["cases"]), quick, thorough, assume), "crate": "std"}


STD = ["fields of 2^31-1, 2^64-2^32+1 and the BN254 scalar field (shim arithmetic); gadgets of small size",
       "challenges are drawn at random by the evaluator: a false claim must be refused in one of the repeated runs"]

PARTS = {
    "S01": [std("S01", "Std", 1500, 60000, STD + ["lookup tables of at most 8 rows with distinct keys"])],
    "S02": [std("S02", "Std", 1500, 60000, STD + ["provers that answer hints differently: limbs shifted, carried over, negated, or summing modulo the field"])],
    "S03": [std("S03", "Std", 1500, 60000, STD + ["matrices of at most 5 rows and columns"])],
    "S04": [std("S04", "Sha", 400, 12000, ["messages of at most six blocks"])],
    "S05": [std("S05", "Sponge", 1500, 60000, ["states of 8, 12 and 16 elements, inputs of at most four blocks"])],
    "S06": [std("S06", "Std", 1500, 40000, ["numbers below 2^2048 in limbs below 2^120; the prover is honest (the library's range proofs of limbs are empty)"])],
    "S07": [std("S07", "Std", 2000, 80000, STD)],
    "S08": [std("S08", "Emu", 1200, 30000, ["numbers in limbs of eight bits over 2^31-1, the fields of BLS12-381; programs of at most 40 steps", "one lie of a prover per run: about a product, a quotient, an inverse or a copy"])],
    "S09": [std("S09", "Emu", 600, 9000, ["one program of at most ten steps per run; at most three pairings", "multiples beyond the seed and the cofactors are taken in the driver, for the inputs of pairings only, and checked"])],
    "S10": [std("S10", "Std", 1500, 40000, ["numbers below 2^2048 in limbs below 2^120; the prover of limb carries is honest (the library's range proofs of limbs are empty)", "the hash part of the circuit, which constrains nothing, is not looked at"])],
    "F06": [std("F06", "Load", 6000, 150000, ["texts of at most thirty lines over 2^31-1; the prover answers the loader's bit hint honestly (its decomposition is unconstrained)"])],
    "L01": [{**trace("go", "L01", "GoLib", lambda o: 1 + len(o["calls"]), 8000, 150000, ["damaged bytes are cut or changed in the header: a changed size may ask for more memory than there is"]), "crate": "go"}],
    "L02": [{**trace("go", "L02", "GoSide", lambda o: 2, 12000, 200000, ["the fields both sides have: 2^31-1, the BN254 scalar field and GF(2)", "gnark's field elements, hint registry and structure walk are stand-ins (shims/gosrc)"]), "crate": "go", "go": True}],
    "L03": [{**trace("go", "L03", "GoBuild", lambda o: 2, 8000, 120000, ["the fields both sides have: 2^31-1, the BN254 scalar field and GF(2)", "gnark's variables, hint identifiers, bit conversions and structure walk are stand-ins (shims/gosrc)", "functions are named ones: closures of one function share a name"]), "crate": "go", "go": True}],
    "C01": [pipe("C01", (30000, 8000), (600000, 60000))],
    "C02": [pipe("C02", (30000, 8000), (600000, 60000))],
    "C03": [pipe("C03", (30000, 8000), (600000, 60000))],
    "C04": [pipe("C04", (30000, 8000), (600000, 60000))],
    "C05": [pipe("C05", (30000, 8000), (600000, 60000))],
    "C06": [pipe("C06", (30000, 8000), (600000, 60000))],
    "C07": [pipe("C07", (30000, 8000), (600000, 60000))],
    "W01": [trace("wit", "W01", "Witness", wit_states, 12000, 300000, ["programs of at most 4 circuits; batches of up to three blocks"])],
    "W02": [trace("wit", "W02", "Witness", wit_states, 15000, 400000, ["up to three blocks of lanes"])],
    "D01": [trace("bytes", "D01", "Bytes", bytes_states, 15000, 300000, [SERDES])],
    "D02": [trace("bytes", "D02", "Bytes", bytes_states, 8000, 150000, [SERDES, "one changed byte, or eight changed to 255, per reading"])],
    "D03": [trace("bytes", "D03", "Bytes", bytes_states, 10000, 200000, ["plain memory stands in for the shared window; vectors of plain data are copied by the shim"])],
    "F01": [trace("front", "F01", "Front", lambda o: 2, 12000, 150000, FRONT)],
    "F02": [trace("front", "F02", "Front", lambda o: 2, 12000, 150000, FRONT)],
    "F03": [trace("front", "F03", "Front", lambda o: 2, 12000, 150000, FRONT)],
    "F04": [trace("tables", "F04", "Tables", lambda o: 2, 12000, 200000, ["identifiers of user hints: twenty keys per run; operand pairs exhaustively for p <= 13, sampled above"])],
    "F05": [trace("flat", "F05", "Flat", lambda o: 2, 12000, 100000, ["eleven declared structures; lengths of vectors and values are generated"])],
    "Z01": [trace("cuda", "Z01", "Cuda", cuda_states, 12000, 300000, ["kernels with at most 3 parameters of at most 12 elements and 8 operations", CUDA[1]])],
    "Z02": [trace("cuda", "Z02", "Cuda", cuda_states, 2500, 100000, CUDA)],
    "Z03": [trace("cuda", "Z03", "Cuda", cuda_states, 2500, 100000, CUDA)],
    "Z04": [trace("cuda", "Z04", "Cuda", cuda_states, 2500, 100000, CUDA + [DUMMY])],
    "Z05": [trace("cuda", "Z05", "Cuda", cuda_states, 1250, 50000, CUDA + [DUMMY])],
    "Z06": [trace("cuda", "Z06", "Cuda", cuda_states, 8000, 200000, ["arrays nested at most 5 deep with at most 256 elements", CUDA[1]])],
    "W03": [pipe("W03", (20000, 6000), (300000, 40000))],
    "C08": [facts("C08", 4000, 150000, ["two processes and eight compilations per program; a dependence on hashing that needs more than these to show is missed"])],
    "C09": [facts("C09", 30000, 600000, ["programs of at most 4 circuits, generated valid and then changed in up to two places"])],
    "C10": [facts("C10", 30000, 600000, ["circuits of at most 4 layers, generated valid and then changed in up to two places"])],
    "C11": [facts("C11", 20000, 400000)],
    "C12": [facts("C12", 15000, 300000, ["the backend's own types are the shim's, with the fields the exporter fills in"])],
    "C13": [utils("im", 8000, 200000)],
    "U01": [utils("heap", 4000, 60000)],
    "U02": [utils("shm", 300, 6000, gen=False, assume=[
        "hash parameters are drawn by the code's own generator; repeated builds sample them", "a build that takes over 60 s counts as endless"])],
    "U03": [utils("pool", 4000, 60000)],
    "U04": [utils("uf", 4000, 60000)],
    "U05": [utils("graph", 4000, 40000, assume=["graphs of up to 3 (thorough: 4) vertices exhaustively, up to 9 sampled"])],
}

PIPE_NOTE = ("recorded compilations checked against the specification",
             "Every stage the real passes produced for generated programs is evaluated by TLC on sampled inputs "
             "(all inputs where the field is small) and compared with the meaning of the base program; bounded by program size and sampling.")
NOTES = {k: PIPE_NOTE for k in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "W03"]}
UTIL_NOTE = ("operation sequences generated by the model are replayed on the code and the recorded results checked against the abstract machine",
             "All operation sequences up to a small length (generated by TLC) and longer random ones; every recorded result is a step of the abstract machine or an alarm.")
NOTES.update({k: UTIL_NOTE for k in ["C13", "U01", "U02", "U03", "U04", "U05"]})
NOTES.update({
    "S01": ("recorded runs of lookup circuits checked against the specification", "Tables, queries and counts are generated; the specification says which are answered by the table, and the debug builder and the compiled circuit must accept exactly those."),
    "S02": ("recorded runs of range proofs checked against the specification", "Values around every boundary, honest and other answers to the hints; the specification says which values are in range and which of the answers can convince."),
    "S03": ("recorded runs of matrix products checked against the specification", "Products, changed products and mismatched dimensions; the specification multiplies the matrices."),
    "S04": ("recorded runs of hash circuits checked against a specification of SHA-256", "The specification derives the constants, pads and compresses; circuits over GF(2) and over 2^31-1 and every helper must give its bits, and refuse others."),
    "S05": ("recorded runs of hash circuits checked against a specification of Poseidon", "The specification derives the constants from Keccak-256; the circuit and the implementation on numbers must both give its state."),
    "S06": ("recorded runs of big-number circuits checked against the specification", "The specification computes with the integers the limbs stand for."),
    "S07": ("recorded runs of helper circuits checked against the specification", "Every helper has its function in the specification; the debug builder and the compiled circuit must give it and refuse others."),
    "S08": ("recorded runs of emulated-field circuits checked against the specification", "The specification computes modulo the primes and in the towers from their definitions; every step's result, of an honest or a lying prover, must be its value."),
    "S09": ("recorded runs of curve circuits checked against the specification", "The specification has the group law, the endomorphisms, decompression, hashing and the membership conditions; pairings of known multiples must be accepted exactly when their exponents add up to zero."),
    "S10": ("recorded runs of the RSA circuit checked against the specification", "The specification squares, divides and compares integers; the circuit must accept exactly the right traces, and the plain arithmetic must give the integers' results."),
    "F06": ("recorded runs of loaded circuits checked against the specification", "The specification gives every gate its function and says which texts are refused; generated texts are loaded, run in the debug builder and compiled, and compared."),
    "L01": ("recorded histories of calls checked against the specification", "Every answer of the C interface is compared with what the library makes of the same bytes, which the other properties judge, whatever was called before."),
    "L02": ("artifacts exchanged by both sides and what they did with them, checked against the specification", "Source circuits written by the Go packages are read by the library; witness solvers and layered circuits of the library are read, rewritten, solved and evaluated by the Go packages; the specification gives the values."),
    "L03": ("circuits built by the Go builder checked against the specification", "Programs of builder operations, calls and assertions are run on the Go builder; the source circuit it produces, as the library reads it, is evaluated by the specification with honest and dishonest hints and compared with the program's meaning."),
    "F01": ("recorded runs of generated circuits checked against the specification", "Programs of builder operations are compiled, solved and evaluated by the real code; TLC gives every operation its mathematical meaning and compares outputs, rejections and refusals."),
    "F02": ("recorded runs of generated circuits checked against the specification", "Debug evaluation and the compiled circuit are both compared, run by run, with the outputs, failures and hint calls of the specification."),
    "F03": ("recorded runs of generated circuits checked against the specification", "In the specification a call runs the body of the function, whatever the mechanism; programs mix all mechanisms, argument structures and constant arguments."),
    "F04": ("recorded tables checked against the specification", "Every operator and hint on all operand pairs of small fields and edge values of large ones, every identifier near the built-in ones, all arities; Keccak-256 is specified for the identifiers of user hints."),
    "F05": ("recorded flattenings checked against the specification", "The specification flattens a value by its declared type; dump, load, counts, defaults and compiled circuits must agree."),
    "Z01": ("recorded runs of compiled kernels checked against the specification", "The specification runs the kernel function and locates every argument in the circuit's inputs; calls, hints and the circuit's verdict on right and wrong outputs must agree, for random arrangements of the arguments."),
    "Z02": ("recorded histories of a context checked against the specification", "The state machine holds memories and handles; every call must give the kernel function of every instance's slice, or be refused, as in the specification."),
    "Z03": ("recorded histories of a context checked against the specification", "Handles carry the element order that the definitions of reshape and transpose give; reading, calls, layout and proofs must show it."),
    "Z04": ("recorded histories of a context checked against the specification", "The specification derives where every memory has to be cut, the padded memories, the announced lengths and bit orders, and what every proof of honest or changed memories must say."),
    "Z05": ("recorded histories of two contexts checked against the specification", "The saved graph is loaded into a context with the same or other calls; the specification says whether it belongs, and continues with it."),
    "Z06": ("recorded copies checked against the specification", "Nested host arrays, regular or not, in all modes; what comes back, and what is refused, is what the specification says."),
    "W01": ("recorded solving runs checked against the specification", "The specification solves each assignment by evaluating the program; single and batched solving of the real code must give its values or its failure."),
    "W02": ("operation sequences on real witnesses checked against the abstract witness", "The abstract witness is a sequence of assignments; iterating, packing, writing and reading of the real one must show exactly it."),
    "D01": ("recorded bytes checked against the specified layout", "The specification encodes the object; bytes written, object read back and bytes consumed are compared."),
    "D02": ("recorded readings of damaged bytes checked against the specified layout", "Every cut, sampled changed bytes and foreign configurations; an accepted reading must be of an object that is written as exactly those bytes."),
    "D03": ("recorded memory images checked against the specification", "Graph out equals graph in without hint programs, sizes agree, and surrounding memory is untouched; graphs with custom gates are refused."),
    "C08": ("recorded compilations checked against the specification", "Compilation is a function in the specification; digests of repeated compilations in three processes are compared with its first answer."),
    "C09": ("recorded validations checked against the specification", "Generated programs in every form, most of them broken in one or two places; TLC decides whether each is well formed and compares with what validation and compilation said."),
    "C10": ("recorded validations checked against the specification", "Generated layered circuits of both kinds, most of them broken in one or two places; TLC decides whether each is well formed and compares with what validation said."),
    "C11": ("recorded statistics checked against the specification", "The specification expands the program or circuit and counts."),
    "C12": ("recorded exports checked against the specification", "The exported description is compared with the circuit by TLC, segment by segment."),
})
