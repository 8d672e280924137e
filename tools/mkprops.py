import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PARSE="derive/src/from_request/parse.rs"; GEN="derive/src/from_request/mod.rs"; SVC="src/service.rs"; LIB="src/lib.rs"; ERR="src/error.rs"; BODY="src/body.rs"; RC="derive/src/request_context.rs"
p("C01","Requests are dispatched to exactly the variant whose declared route matches",
 "For every type deriving FromRequest and every request, the request is decoded as a given routed variant only if one of that variant's declared routes has the request's method and a path pattern matching the whole request path, and if such a variant exists no other variant (and no fallback) is chosen. In a pattern, literal segments match verbatim (no character is special), `{x}` matches exactly one non-empty segment without `/`, a trailing `{x...}` matches the whole remainder of the path including slashes and the empty remainder, and `*` matches only the path `*`. The query string, headers and body never influence which variant is chosen.",
 ["programs","inputs"],"every set of route declarations the derive accepts, every method (standard or extension), every request path of any length and content",
 "The tests try a few dozen method/path pairs on a handful of enums; the guarantee quantifies over every accepted pattern (including regex metacharacters, empty segments, trailing slashes, `*`) and every path.",
 [PARSE,GEN],[("pattern to regex translation (escaping, placeholders, anchoring)",PARSE+" RoutePath::parse"),("segment classification",PARSE+" PathSegment::parse"),("RegexSet match + (index, method) dispatch arms",GEN+" derive_from_request"),("path/method table",PARSE+" PathMap::add_route")],
 ["the value produced by FromRequest::from_request_and_body of a derived type"])
p("C02","Route sets are rejected at compile time iff some path or request is ambiguous",
 "Deriving FromRequest fails for two routes with different path patterns exactly when some request path is matched by both patterns, and the path named in the error message really is matched by both; otherwise they are accepted together. Two routes whose patterns match the same paths are rejected exactly when they also have the same method. The verdict does not depend on the order in which the routes are declared.",
 ["programs"],"every pair (and set) of well-formed path patterns of any number of segments, in every declaration order, with every combination of methods",
 "The unit tests list 19 pattern pairs in one order; the guarantee is an equivalence (no missed overlap, no spurious rejection) over an infinite set of pattern pairs.",
 [PARSE],[("overlap search",PARSE+" RoutePath::find_overlap"),("segment iteration repeating a rest-placeholder",PARSE+" SegmentsFused::next / RoutePath::segments_fused"),("pairwise overlap check and duplicate detection",PARSE+" PathMap::build / PathMap::add_route / RoutePath::matches_same_paths")],
 ["acceptance or panic message of the derive"])
p("C03","Every GET route also answers HEAD unless a HEAD route for its paths is declared",
 "For every accepted route set and every path, a HEAD request is decoded as the variant of the explicitly declared HEAD route matching the path if there is one, and otherwise exactly as the GET request for the same path would be decoded. No other method is ever implied by a declared route, and HEAD counts among the accepted methods exactly where it is accepted.",
 ["programs","inputs"],"every accepted set of routes (any mix of GET/HEAD/other routes, in any order, on one or several variants), every request path",
 "Tests cover three enums; the guarantee couples the implied routes of every GET pattern with every explicitly declared HEAD pattern.",
 [PARSE,GEN],[("implied HEAD registration",PARSE+" PathMap::build (implied_head_routes)"),("dispatch arms",GEN+" regex_match_arms")],
 ["value or error produced for HEAD vs. GET requests"])
p("C04","Unroutable requests give 404, wrong methods 405 with the exact allowed set",
 "Without a fallback route, a request whose path matches no declared pattern fails with a hyperdrive error of status 404. A request whose path matches a pattern that has no route for its method fails with status 405, and the allowed methods are exactly (as a set) those of the routes sharing that pattern for whose variant all path placeholders convert successfully from this path (the implied HEAD included). No guard, body or forward decoding runs for such a request.",
 ["programs","inputs"],"every accepted route set without fallback, every method, every path, every behaviour of the placeholder types' FromStr",
 "The tests check three fixed 405 cases; the allowed set depends on the request path through every FromStr conversion of every variant sharing a pattern.",
 [GEN,PARSE,ERR],[("error arms collecting accepted methods",GEN+" find_accepted_methods"),("FromStr-aware path check",GEN+" variant_matches_path"),("error construction",ERR+" Error::wrong_method / from_status")],
 ["the error of from_request_and_body: http_status() and allowed_methods()"])
p("C05","Placeholders receive exactly their part of the path; failed conversions give 404",
 "In a matched route every placeholder field is built by its type's FromStr from exactly the substring of the request path at that placeholder's position (for `{x...}` the entire rest), as it appears in the request without decoding, whichever of the variant's routes matched and in whatever order the fields are declared. If any of these conversions fails, the result is a hyperdrive error with status 404 whose source is the conversion error, and no query, guard, body or forward decoding takes place.",
 ["programs","inputs"],"every accepted route with any number of placeholders, any field order, several routes per variant; every path; every FromStr implementation",
 "Tests use two or three placeholders with integer and String types in one order; the guarantee ties capture indices to fields for all patterns and paths.",
 [GEN,PARSE],[("capture by index and FromStr",GEN+" construct_variant (placeholders)"),("placeholder order per route",PARSE+" RoutePath::parse / VariantData::parse")],
 ["field values / error of from_request_and_body"])
p("C06","Query fields decode the raw query string or the request fails with 400",
 "A `#[query_params]` field holds exactly what serde_urlencoded decodes from the request's query string, the part after `?`, or from the empty string if the request has none. If that decoding fails the request fails with a hyperdrive error with status 400 carrying the decoding error as its source, and no guard, body or forward decoding takes place. A type whose fields are all optional decodes successfully when there is no query string, and an optional query struct is absent then.",
 ["inputs","programs"],"every query string (absent, empty, percent-encoded, repeated keys, malformed), every deserializable parameter type, any combination with placeholders and guards",
 "Tests decode four well-formed query strings; the guarantee covers every query string and the failure status.",
 [GEN],[("query decoding",GEN+" construct_variant (query)")],
 ["field values / error of from_request_and_body"])
p("C07","Guards must all succeed, in declaration order, before body or forward run",
 "A variant or struct is produced only if every guard field's check succeeded for this request. Guards run one after another in field declaration order, each is started exactly once and only after the previous one has resolved successfully; the first failing guard's error is the result unchanged, and later guards, the body field and the forwarded field are then never started. The body or forwarded field is decoded only after all guards have succeeded.",
 ["programs","schedules","inputs"],"every declaration order and number of guards relative to other fields, every pattern of guard outcomes, immediate or asynchronous completion after any number of polls",
 "Tests use at most one guard that resolves immediately; the guarantee is about ordering and fail-closed behaviour over all combinations of outcomes and completion times.",
 [GEN],[("reverse chaining of guards with and_then",GEN+" construct_variant (guards)"),("guard classification of fields",PARSE+" VariantData::parse")],
 ["calls observed by guard/body/forward implementations and the resulting value or error"])
p("C08","Fallbacks get exactly the requests no route accepts; 405 errors are merged",
 "If the type has a fallback (a `#[forward]` field without route), every request whose path matches no declared pattern, or matches one only with other methods, is decoded by forwarding the unmodified request, body and context to the inner type, and no other request is. A success of the inner type gives the fallback variant; its error is the result unchanged, except that when the outer path matched with other methods and the inner error is a 405, the result is a 405 allowing exactly the union of the outer accepted methods for this path and the inner allowed methods. A `#[forward]` field on a routed variant is likewise decoded from the unmodified request, body and context.",
 ["programs","inputs"],"every accepted route set with a fallback, every inner FromRequest behaviour (success, hyperdrive error of any status, 405 with any method set, foreign error), every method and path",
 "Tests try one nested enum and six requests; the guarantee covers every inner outcome crossed with every outer match state.",
 [GEN],[("fallback construction in wrong-method arms with map_err",GEN+" regex_match_arms"),("fallback catch-all arm",GEN+" derive_from_request"),("fallback uniqueness",PARSE+" PathMap::build")],
 ["value/error of from_request_and_body; what the inner FromRequest observes"])
p("C09","Json and HtmlForm bodies decode the whole body independent of how it is chunked",
 "Decoding a request body as Json<T> or HtmlForm<T> yields exactly what serde_json or serde_urlencoded yields for the concatenation of all body chunks, for every way of splitting the body into chunks and every timing of their arrival. A decoding error or an error of the body stream makes the request fail with that error, never a partial value; content headers are ignored.",
 ["inputs","schedules","fault_sequences"],"every body byte string, every split into (possibly empty) chunks, every pattern of not-ready polls, a stream error at any position",
 "Tests only use bodies consisting of one ready chunk.",
 [BODY],[("concat2 then from_slice/from_bytes",BODY+" Json/HtmlForm FromBody impls")],
 ["FromBody::from_body result; #[body] fields"])
p("C10","Responses to HEAD requests have an empty body, and nothing else is altered",
 "Through AsyncService and SyncService, the response to a HEAD request always has an empty body while its status and headers are exactly those the handler produced; for any other method the handler's response is delivered unchanged, body included.",
 ["inputs","schedules"],"every request method, every handler response (status, headers, body), immediate or delayed handler completion, both service adapters",
 "Tests check one HEAD and one GET request per adapter with a fixed body.",
 [SVC],[("HEAD body suppression",SVC+" AsyncService::call / SyncService::call")],
 ["response future of Service::call"])
p("C11","Services answer hyperdrive errors with their response, pass others through",
 "Through AsyncService and SyncService, whenever decoding the request (or, for AsyncService, the handler) fails with a hyperdrive error, the client receives that error's own response (its status, and its Allow header for 405) with an empty body, and the service future succeeds. Any other error makes the service future fail with that same error. If decoding fails the handler is never called.",
 ["inputs","schedules","fault_sequences"],"every error status and method set, every foreign error type, error raised while decoding or in the handler, immediately or after any number of polls",
 "Tests cover a 404 on one enum; the guarantee covers all errors at every point of the pipeline.",
 [SVC,ERR],[("or_else downcast to Error",SVC+" AsyncService::call / SyncService::call")],
 ["result of the Service::call future; handler invocations"])
p("C12","Errors keep status, source and allowed methods and render them as a response",
 "An error can only be built with a 4xx or 5xx status, and reports exactly the status, source and (for 405 errors only) the method list it was built with. Its response has that status, and has an Allow header exactly if the status is 405, listing exactly the allowed methods in order separated by `, ` (empty for none). Its textual form is the status, followed by `: ` and the source's text if there is a source.",
 ["inputs"],"every status code 100..999, every list of methods including extension methods, every source error",
 "Tests and doc examples build three errors; the guarantee is over all statuses and method lists.",
 [ERR],[("constructors with status assertion",ERR+" Error::new_impl / from_status / with_source / wrong_method"),("response construction",ERR+" Error::response"),("Display",ERR+" impl Display")],
 ["Error::http_status/source/allowed_methods/response/to_string"])
p("C13","catch_unwind calls its handler once per panic, else is transparent",
 "With ServiceExt::catch_unwind, a panic in the wrapped service, whether while the request future is created or during any later poll of it, never escapes; the panic handler is called exactly once with the original payload and its result becomes the result of the request. If the wrapped service does not panic, its response or error is delivered unchanged and the handler is never called; the request reaches the wrapped service unchanged, and later requests are served normally after a panic.",
 ["fault_sequences","schedules","histories"],"every point at which the wrapped service may panic (call, n-th poll), every payload, every handler result, any sequence of requests",
 "The tests panic at one point per test; the guarantee covers every poll and every sequence.",
 [SVC],[("catch_unwind around call and around the future",SVC+" CatchUnwind::call")],
 ["result of the CatchUnwind future; panic handler invocations"])
p("C14","blocking runs its closure exactly once and yields exactly its result",
 "The future returned by hyperdrive::blocking runs the given closure exactly once, not before the executor grants a blocking slot, and resolves to exactly the closure's Ok or Err value; while no slot is available it is pending and the closure has not run. If the executor cannot block at all it panics instead of resolving.",
 ["schedules","inputs"],"every number of not-ready answers before a slot is granted, every closure result, polls outside a thread pool",
 "Only exercised indirectly through SyncService, always with a free slot.",
 [LIB],[("poll_fn around tokio_threadpool::blocking with Option::take",LIB+" blocking")],
 ["polls of the returned future; closure invocations"])
p("C15","Derived request contexts convert to themselves, NoContext and each marked field",
 "For every type deriving RequestContext, AsRef<Self> returns the value itself, AsRef<NoContext> is available, and for each field marked `#[as_ref]` AsRef of that field's type returns a reference to exactly that field; no other conversions are generated. Guards and bodies in a derived FromRequest receive the component of the request's context selected by this conversion, and forwarded fields receive the whole context. `#[as_ref]` anywhere but on a struct field, with arguments, or repeated is rejected at compile time.",
 ["programs","inputs"],"every struct or enum shape (named, tuple, unit, generic), any subset of marked fields, every context value",
 "Tests check two structs; a wrong field or index for other shapes would go unnoticed.",
 [RC,LIB,GEN],[("AsRef impl generation",RC+" derive_request_context"),("NoContext conversions",LIB+" NoContext"),("context.as_ref() in generated code",GEN+" construct_variant")],
 ["AsRef results by address; context observed by guards"])
p("C16","Malformed declarations are rejected at compile time; well-formed ones work",
 "The derive rejects: paths not starting with `/` (other than `*`), placeholders that are no identifiers, name no field or repeat within a path, `{x...}` not at the end, routes of one variant with different placeholder lists, misused or repeated attributes, fields with two roles, a variant with both body and forward, body or query fields without a route, constructible tuple variants, several fallbacks, and types nothing can construct. Every declaration free of these errors and of ambiguous routes is accepted and compiles, also for generic types, multiple routes per variant and arbitrary field order. Declarations of one variant never change the decoding of another.",
 ["programs"],"every declaration built from the documented attributes, in any combination and order",
 "16 should_panic tests sample single errors; the guarantee is an equivalence over all declarations.",
 [PARSE,GEN],[("path parsing errors",PARSE+" RoutePath::parse, PathSegment::parse, valid_ident"),("attribute and field role checks",PARSE+" ItemData::parse, VariantData::parse, insert"),("constructibility, tuple and fallback checks",GEN+" derive_from_request, "+PARSE+" PathMap::build")],
 ["acceptance or panic of the derive; compilation of its output"])
p("C17","Requests are handed on unmodified; async and sync entry points agree",
 "from_request decodes exactly the same way as from_request_and_body on the request's own head and body, and from_request_sync returns exactly the result the asynchronous entry point resolves to. Every guard, body decoder, forwarded type and service handler sees the method, URI, version, headers and extensions of the original request, and the body decoder or forwarded type sees the complete original body.",
 ["inputs","schedules"],"every request (method, URI, version, headers, extensions, body), every decoder outcome and number of polls, both service adapters",
 "The tests compare a handful of requests and never look at headers, version or extensions.",
 [LIB,SVC],[("request splitting",LIB+" FromRequest::from_request"),("synchronous driver",LIB+" FromRequest::from_request_sync"),("request splitting in the services",SVC+" AsyncService::call / SyncService::call")],
 ["what decoders and handlers observe; results of the three entry points"])
p("C18","Cloned services and made services share the handler and serve requests alike",
 "Every clone of an AsyncService or SyncService and every service obtained from it per connection calls the same handler with an equal context and serves any sequence of requests exactly as the original would; make_service_by_cloning yields clones of the wrapped service. Each request is decoded with the context given at construction and leads to at most one handler call, exactly one if decoding succeeds.",
 ["histories","inputs"],"any interleaving of cloning, making services and serving requests, any context value",
 "Tests create one service and serve a few requests.",
 [SVC],[("Clone / MakeService impls",SVC+" AsyncService, SyncService, MakeServiceByCloning"),("context cloned per request",SVC+" call")],
 ["handler invocations, contexts observed, responses"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
