"""Which deductive parts decide which property, at what level, on what assumptions."""
import traceback
from common import *
import kani, verus

KANI_TRUST = ["Kani 0.68.0's translation of MIR and CBMC 6.11.0 (with CaDiCaL) as the back end",
    "kani/http, kani/hyper: plain-data stand-ins for `http` and `hyper` (accessors and builders mean what their documentation says)"]
FUT = "kani: futures 0.1.31 is the real crate, except for one import line per file that Kani's toolchain rejects"
PEND = "a user-supplied future is pending at most once before it resolves (control-flow case split; all data symbolic)"
NOMEM = "Kani's memory-safety and integer-overflow obligations are off: the functions under contract are safe Rust without arithmetic"
INFO = {}
def info(ids, level, note, technique="contracts discharged by a deductive verifier", trusted=(), assumes=()):
    for i in ids.split(): INFO[i] = dict(level=level, note=note, technique=technique, trusted=list(trusted), assumes=list(assumes))

VERUS_TRUST = ["Verus 0.2026.09.13 with Z3, and vstd",
    "verus/extract: the mechanical rewriting of /repo's functions into Verus' dialect (rules R1-R21 in DESIGN.md)",
    "contracts assumed of what derive/src/from_request/parse.rs calls: syn's Attribute/Meta/Fields parsing, proc_macro2 identifiers, String/str/slice/IndexMap operations, sorting, case conversion (verus/parse.spec, `external_body`)",
    "the meaning of the few regular-expression forms the derive emits (escaped literals, `[^/]+`, `.*`, anchors, groups), stated in verus/parse.spec"]
VERUS_CTX = [VERUS_TRUST[0], VERUS_TRUST[1], "contracts assumed of what derive/src/request_context.rs calls: syn's Attribute/Path/Meta/Fields, synstructure's gen_impl/add_bounds, quote! (its text is compared with the one the compiled programs use) (verus/context.spec)"]
GEN_TRUST = KANI_TRUST + ["kani/regex: which patterns match a class of paths and what their groups capture is asked of the real regex crate on every run (kani/gentab); kani/lazy, kani/su, kani/sj, kani/http, kani/hyper are stand-ins"]
GEN_ASSUME = [NOMEM, "generated parsers are proved for the seven programs of kani/gen (all request data, part outcomes and contexts symbolic; cases split by path class, failing part and pending part); other programs are run natively only",
    "a guard, body or forwarded type is pending at most once before it resolves"]
V = "Verus contracts (deductive, unbounded) on derive/src/from_request/parse.rs"
G = "Kani proof harnesses stating the contract of the derived parser, per program"
info("C02", "proof", "PathMap::build, add_route, find_overlap and what they call, for all declarations: rejected iff two patterns share a path or two routes their paths and method; the overlap named is matched by both.", V, VERUS_TRUST, ["extraction as in DESIGN.md; panics are rejections"])
info("C16", "proof", "VariantData::parse, ItemData::parse, Route::parse, RoutePath::parse and PathMap::build accept exactly the well-formed declarations, for all declarations. That what is accepted also compiles and works is explored natively only (generated programs and the zoo).", V, VERUS_TRUST, ["that accepted declarations compile is checked on generated programs (bounded)"])
info("C01 C03", "translation_validation", "The table of routes (patterns' regular expressions, implied HEAD routes, methods) is proved for all declarations; that derived parsers choose by it is proved per program of kani/gen and explored on generated programs.", V + "; " + G, VERUS_TRUST + GEN_TRUST, GEN_ASSUME)
info("C04 C05 C06 C07 C08", "translation_validation", "The roles of fields, placeholder order and the route table are proved for all declarations; the derived parsers' behaviour is proved per program of kani/gen and explored on generated programs.", V + "; " + G, VERUS_TRUST + GEN_TRUST, GEN_ASSUME)
info("C15", "translation_validation", "Which `#[as_ref]`s are rejected and which conversions are generated is proved of derive_request_context for all declarations; that the generated text converts, and which component derived parsers hand on, is proved per program of kani/gen; other programs and rejections explored natively.", V.replace("from_request/parse.rs", "request_context.rs") + "; " + G, VERUS_CTX + GEN_TRUST, GEN_ASSUME)
K = "Kani proof harnesses (pre/postconditions) over the real functions"
info("C09", "proof", "All bodies (any length up to 2^40, contents arbitrary) through Json/HtmlForm::from_body, given that `concat2` yields the body's bytes in order; the real `concat2` is checked on scripts of up to four steps.", K,
    KANI_TRUST + [FUT, "kani/sj, kani/su: stand-ins for the decoders, which record the bytes they get and answer arbitrarily (what a decoder makes of the bytes is its own contract)"], [NOMEM, "`Stream::concat2` concatenates (checked for at most four chunks)"])
info("C10 C11", "proof", "AsyncService::call and SyncService::call, all requests, contexts, responses and errors.", K,
    KANI_TRUST + [FUT, "kani/tt: tokio_threadpool::blocking runs its closure once when it grants a slot"], [NOMEM, PEND, "handlers and FromRequest implementations don't panic (panics are C13's)"])
info("C12", "proof", "All statuses and sources; method lists of any content, the `Allow` text for lists of up to two methods.", K, KANI_TRUST, [NOMEM, "the Allow header's text is checked for 0, 1 and 2 methods (bounded)"])
info("C13", "proof", "Panics while the service is called or polled (first or second poll), all payloads and results.", K,
    KANI_TRUST + [FUT, "std::panic::catch_unwind is replaced by its contract (returns Err(payload) iff the closure panics): Kani does not unwind"], [NOMEM, PEND])
info("C14", "proof", "`blocking` with any closure result, slot granted at the first, second or third poll, or never.", K, KANI_TRUST + [FUT, "kani/tt: tokio_threadpool::blocking runs its closure once when it grants a slot"], [NOMEM, "a slot is refused at most twice before it is granted"])
info("C17", "proof", "FromRequest::from_request, from_request_sync and both services' call, all requests, contexts and outcomes.", K,
    KANI_TRUST + [FUT, "kani/tokio: Runtime::block_on polls the future until it resolves"], [NOMEM, PEND])
info("C18", "proof", "Clones, made services and later calls of both services; make_service_by_cloning over any service.", K, KANI_TRUST + [FUT], [NOMEM, PEND])

def run(pid):
    """(summaries of the parts that ran, reasons why others are undecided)"""
    parts, why = [], []
    def part(name, f):
        try:
            r = f()
        except Broken as e:
            why.append(dict(layer=name, why=str(e)[:500]))
            return
        except Exception as e:
            why.append(dict(layer=name, why="internal: " + traceback.format_exc()[-800:]))
            return
        for r in r if isinstance(r, list) else [r]:
            if not r["built"]: why.append(dict(layer=name, why="not verifiable: " + str(r["reason"])[:500]))
            parts.append(r)
    if pid in verus.SPECS: part("verus", lambda: verus.run_specs(pid))
    if pid in kani.GEN: part("kani gen", lambda: kani.run_gen(pid))
    if pid in kani.SVC: part("kani svc", lambda: kani.run_svc(pid))
    return parts, why
