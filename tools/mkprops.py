#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the text has one source.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or ["public API of the package, http.Handler served in-process"],hook_needed=None)))

p("C01","A request reaches exactly the responder the routing rules select",
 "A request is handled by the responder found by matching its host and then each decoded path segment, where at every level a static template wins over pattern templates, pattern templates are tried in registration order, and a wildcard is used last; the port of the host is ignored, a static host wins over pattern hosts, and the root resource is used only when no host matches. When no responder matches a segment and no enclosing responder is a subtree handler, the answer is 404 and no handler runs. The choice depends on nothing but the tree and the request.",
 ["configurations","inputs"],"all valid responder trees (any depth, breadth, mix of static/pattern/wildcard, registration order) and all request hosts and paths",
 "Tests sample a few fixed trees with a few dozen URLs each; precedence, order and dead-end interplay are combinatorial in tree shape and path.",
 ["router.go","responder.go","resource.go","host.go","template.go","utils.go"],
 [("host selection","router.go Router.passRequest"),("segment matching","responder.go passRequest"),("segment iteration","utils.go Args.nextPathSegment")])
p("C02","Handlers see exactly the host and path values of the matched templates",
 "When a responder handles a request, every dynamic segment of the host and resource templates on its path has its value available under its name, equal to the percent-decoded text it matched (an encoded slash included), and a name that occurs on no template on the way is absent. Values captured by siblings that were tried and did not match never appear and never influence the match.",
 ["configurations","inputs"],"all trees with dynamic segments and all requests, including encoded and multi-byte text and partially matching siblings",
 "Tests read values for hand-picked URLs; leakage from failed siblings, encoded slashes and many values per path need generated combinations.",
 ["template.go","responder.go","router.go","utils.go"],
 [("value capture","template.go Template.Match"),("passing values between levels","responder.go passRequest"),("values accessor","utils.go Args.HostPathValues")])
p("C03","Every request is answered exactly once",
 "For every request the router produces exactly one response: at most one terminal answer among a method handler, a not-allowed answer, a redirect, a bad-request answer and a not-found answer, and never none. When the handler or middleware that owns a request reports it handled, nothing else writes to that response, and when everything on the way reports it not handled, exactly one not-found answer is produced.",
 ["configurations","inputs"],"all trees, configurations, handler and middleware results, and requests",
 "Tests look at the status of single requests and do not count header writes or terminal answers across combinations of subtree fallback, dropped and handled results.",
 ["router.go","responder.go","resource.go","host.go","middleware.go"],
 [("boolean handled protocol","responder.go passRequest, resource.go and host.go handleOrPassRequest"),("final not-found","router.go Router.ServeHTTP")])
p("C04","Method dispatch, 405 with a complete Allow list, and default OPTIONS",
 "For any set of methods (standard or custom, any number, set in any order and possibly re-set) a request whose method is in the set runs the handler last set for it and no other. Any other method gets the not-allowed handler, by default 405 with an Allow header listing exactly the supported methods, OPTIONS included. A responder with at least one handler and no OPTIONS handler answers OPTIONS with 200 and the same Allow list.",
 ["configurations","inputs"],"all sets and insertion orders of methods (0 to dozens), all request methods, handlers set singly, in lists or from an implementation value",
 "Tests use a handful of methods; the method table has a size-dependent lookup and a hand-written sort whose correctness depends on set size and insertion order.",
 ["requesthandler.go","responder.go"],
 [("method table","requesthandler.go _MethodHandlerPairs get/set/sort"),("dispatch","requesthandler.go handleRequest"),("Allow","requesthandler.go allowedHTTPMethods")])
p("C05","A secure responder never handles a plain HTTP request",
 "A responder configured as secure runs its handlers only for requests received over TLS; an insecure request is answered 404, or, if the responder redirects insecure requests, by a permanent redirect to the same URL with the https scheme. A responder not configured as secure treats both alike, and the policy of one responder never affects the parents, siblings or children it shares a path with.",
 ["configurations","inputs"],"all combinations of security flags over the responders of a tree, however they were set, and requests with and without TLS",
 "Tests cover the flag on isolated responders; interaction with subtree fallback, redirects, other flags and neighbours is combinatorial.",
 ["resource.go","host.go","responder.go","config.go"],
 [("scheme check","resource.go and host.go handleOrPassRequest"),("flags","config.go asFlags, responder.go configure")])
p("C06","Trailing slash policy: redirect, drop or ignore, per responder",
 "When a resource is the last segment of a request's path and the presence of the trailing slash differs from its own, it answers with a permanent redirect to the same URL with the slash added or removed by default, 404 when strict, and handles the request when lenient; when they agree it handles the request. For a host the same policy applies only when it handles a deeper path as a subtree handler, and never to the root path or to a resource that handles a deeper path as a subtree handler.",
 ["configurations","inputs"],"all configurations of trailing slash flags over resources, hosts and subtree handlers, and all request paths of any length",
 "Tests enumerate some flag combinations on short fixed paths; boundary lengths, subtree hosts and combinations with other policies are not settled.",
 ["resource.go","host.go","utils.go"],
 [("trailing slash check","resource.go and host.go handleOrPassRequest"),("detection","utils.go pathHasTrailingSlash")])
p("C07","Unclean paths are redirected to the clean URL, faithfully and in one step",
 "A request with empty or dot segments is matched by its clean path and answered by a permanent redirect to the clean path unless the responder is lenient, in which case it is handled. Every canonical redirect (https, clean path, trailing slash) is a single redirect that applies all needed corrections at once and changes nothing else: host, port, query, method-preserving status code and the exact decoded content of every segment, encoded slashes included, stay. Following it reaches the same responder with the same values without another canonical redirect.",
 ["configurations","inputs"],"all trees and flags, all unclean spellings of paths, percent-encodings, queries, ports and hosts",
 "Tests compare a few literal Location headers; fidelity must hold for every encoding and every combination of corrections.",
 ["resource.go","host.go","utils.go"],
 [("path cleaning","utils.go getArgs"),("redirect URL","resource.go/host.go handleOrPassRequest, utils.go cloneRequestURL")])
p("C08","Configured redirects go to the configured target plus the remaining path",
 "A responder configured to redirect requests never runs its request handler: it redirects with the configured code to the configured URL, and when it acts for a deeper path the remaining escaped path is appended with exactly one slash at the joint. A redirect of any request applies to the responder and everything below it without running request passers, handlers or the descendants, while a plain redirect lets existing descendants answer first and applies the security, clean path and trailing slash policies before redirecting. The target is the same for every request, however many were redirected before.",
 ["configurations","inputs","histories"],"all targets (absolute, relative, with and without trailing slash), codes, trees, paths and sequences of requests",
 "Tests check a few targets and paths once; joints, encodings, subtree interplay and repeated use need generation.",
 ["requesthandler.go","responder.go","resource.go","host.go"],
 [("redirect handler construction","requesthandler.go redirector"),("wiring","responder.go RedirectRequestTo, RedirectAnyRequestTo")])
p("C09","Subtree handlers get what nobody below handles, with the remaining path",
 "When no responder below matches the rest of the path, the nearest matched subtree handler handles the request, and if none exists the answer is 404; a responder below that matches the whole path always takes precedence. The subtree handler sees as the remaining path exactly the escaped part of the request's path below its own segment, with a leading slash unless it's a resource with a trailing slash (a host with one isn't decided). The responder currently acting is reported as the host and resource in charge.",
 ["configurations","inputs"],"all trees with nested subtree handlers, dead-ended branches of any depth, and all request paths and encodings",
 "Tests use few fixed nestings; backing out of partially matching branches must restore position for every depth and encoding.",
 ["resource.go","host.go","responder.go","utils.go"],
 [("fallback","resource.go/host.go handleOrPassRequest, responder.go passRequest"),("remaining path","utils.go Args.RemainingPath")])
p("C10","Middlewares wrap in the order they are passed, at every level",
 "Request passer, request handler and method handler middlewares of a responder run nested with the last wrapped one outermost, each exactly once per request that goes through the wrapped function, and in the order router passer, host passer, resource passers from the root down, request handler, method handler. Request passer middlewares run only on the responders the request is passed through, and request and method handler middlewares only on the responder that handles it. Every middleware and handler gets the very response writer, and a request with the data, that the one outside of it (the server for the outermost) passed.",
 ["configurations","inputs"],"all trees, numbers of middlewares, calls and mixtures of the wrapping operations, and all requests",
 "Tests check the order for one or two wrappers on fixed trees; order must hold for any interleaving of wrapping calls.",
 ["responder.go","router.go","requesthandler.go","middleware.go"],
 [("wrapping","responder.go WrapRequestPasser, WrapRequestHandler, WrapHandlerOf"),("router passer","router.go WrapRequestPasser"),("invocation","resource.go/host.go handleOrPassRequest")])
p("C11","Bulk operations reach every responder in scope exactly once",
 "Wrapping for a subtree or for all, with a method list, '*' or '!', applies the middlewares exactly once to every existing handler in scope and to nothing outside it, skipping responders that have no such handler. Setting shared data for a subtree or for all sets it exactly on the responders in scope that had none, and setting a configuration applies it exactly to those in scope not configured with properties other than security and trailing slash.",
 ["configurations","histories"],"all trees (hosts and root included), scopes and sequences of bulk and single operations",
 "Tests use one fixed tree; completeness of the traversal depends on tree shape and kinds of children.",
 ["router.go","responder.go","middleware.go","utils.go"],
 [("traversal","utils.go traverseAndCall"),("bulk operations","responder.go *ForSubtree, WrapSubtree*; router.go *ForAll, WrapAll*")])
p("C12","A middleware that stops a request stops it, and nothing else",
 "If a middleware does not call the next handler and reports the request handled, no further middleware or handler runs for that request and the response is the middleware's own. If it reports it not handled, control goes on exactly as for an unhandled request: to the nearest enclosing subtree handler that was matched, or to a single not-found answer. Middlewares outside the stopping one complete normally and see its result, and other requests are unaffected.",
 ["configurations","inputs","histories"],"all positions and kinds of stopping middlewares in all trees, per request decisions, and sequences of requests",
 "Tests stop a request in a few positions; result propagation through nested passers and subtree handlers is combinatorial.",
 ["middleware.go","responder.go","resource.go","host.go","router.go"],
 [("handled result propagation","responder.go passRequest, resource.go/host.go handleOrPassRequest")])
p("C13","net/http handlers and middlewares behave natively after conversion",
 "A converted net/http handler is called exactly once per request with the very response writer that was passed and a request carrying the same data, the request's arguments being available from its context exactly for the converters that promise them. A converted net/http middleware decides for each request on its own whether the next handler runs, may replace the writer or the request, and its decision for one request never influences another, also when conversions are nested or shared between responders. The request that the caller and the outer middlewares hold isn't changed.",
 ["inputs","histories","schedules"],"all converters in all positions, nesting, sharing, sequences and concurrent mixtures of passed and stopped requests",
 "Tests convert a handler and call it once; state shared between requests shows only over histories and schedules.",
 ["middleware.go","requesthandler.go","utils.go"],
 [("conversion","middleware.go Mw; requesthandler.go Hr, FnHr, HrWithArgs, FnHrWithArgs"),("retrieval","utils.go ArgsFrom")])
p("C14","A request's result does not depend on earlier requests",
 "On a fixed tree the response to a request, the handlers and middlewares run for it, and everything they can observe through their arguments are the same whatever requests were served before, including requests that were not found, malformed, redirected, stopped, that stored custom arguments, or whose handler panicked.",
 ["histories"],"all sequences of requests before a given request, on any tree",
 "Tests serve requests in one fixed sequence; recycled per-request state leaks only in specific sequences.",
 ["utils.go","router.go","resource.go","host.go"],
 [("recycled arguments","utils.go getArgs, putArgsInThePool")])
p("C15","Concurrent requests are race-free and isolated from each other",
 "A router whose set-up is finished serves any number of concurrent requests without data races, and each of them gets the response, the handler calls and the observable arguments it would get alone. This holds for routers, hosts and resources used as handlers, for converted net/http handlers and middlewares, and through a real HTTP server with keep-alive connections.",
 ["schedules","configurations"],"all schedules of concurrent requests over any finished tree",
 "Existing tests never serve two requests at once and are not run under a race detector with concurrency.",
 ["utils.go","middleware.go","router.go","responder.go","template.go"],
 [("per-request arguments","utils.go argsPool"),("read-only tree while serving","responder.go, router.go")])
p("C16","Template parsing is total and survives printing",
 "For any string the error-returning parser returns a template or an error and never panics, and the panicking parser panics exactly when that returns an error. For every template that parses, its printed form parses to a template that is the same by the similarity check, with equal name and value names, and matches the same strings with the same values. Incomplete dynamic segments, stray closing braces, a second wildcard and a value name repeated with another pattern are rejected, and a template keeps the name, the value names and the unescaped content it was written with, also when it is renamed.",
 ["inputs"],"all strings as template text",
 "Tests list accepted and rejected templates by example; totality and the printing round trip range over all strings.",
 ["template.go"],
 [("parser","template.go TryToParse, parse, staticSegment, dynamicSegment"),("printer","template.go String, Content")])
p("C17","A template matches exactly the strings made of its segments",
 "If a template matches a string, the string is the concatenation of its static segments and the reported values, every value matches its whole pattern, repeated names have equal values, and nothing of the string is left over. If a string is such a concatenation and the split is unambiguous, the template matches it and reports exactly those values. On a mismatch the values passed in come back unchanged, and on a match earlier values are kept.",
 ["inputs"],"all templates and all strings, including near misses, repetitions, alternations and text around wildcards",
 "Tests match listed strings; anchoring, repetition and leftover errors show only on particular template and string pairs.",
 ["template.go"],
 [("matching","template.go Template.Match"),("anchoring of patterns","template.go appendDynamicSegmentTo, parse")])
p("C18","Applying values is the inverse of matching and rejects invalid values",
 "Applying the values reported by a match gives back the matched string, and a string built by applying values that satisfy the whole patterns is matched with the same values when the split is unambiguous. A value that does not match its whole pattern or, unless missing values are ignored, a missing value is reported as an error, and the panicking variant panics exactly then. It makes no difference whether the values are given as a list or a map.",
 ["inputs"],"all templates, value lists and strings",
 "Tests apply a few values; partial matches of the pattern and repeated names need generated values.",
 ["template.go"],
 [("apply","template.go TryToApply, Apply")])
p("C19","Template similarity is a consistent classification",
 "Similarity is symmetric, every template is the same as itself and as a re-parse of its text, two templates differing only in their name, only in value names, or in content are classified as such, and its error form agrees with the value. The relation 'same' is an equivalence, and templates that are not classified as different match exactly the same strings.",
 ["inputs"],"all pairs and triples of templates",
 "Tests list pairs; the laws quantify over all pairs.",
 ["template.go"],
 [("similarity","template.go SimilarityWith, Similarity.Err")])
p("C20","A responder's URL leads back to that responder",
 "For a responder on a router and values for the dynamic segments on its path, the URL it returns has its scheme, host and trailing slash, and a request for that URL is handled by that responder with exactly these values, unless an earlier matching template takes precedence. When a value is missing or does not match its pattern an error is returned, and the values of a handled request always reproduce that request's clean URL.",
 ["configurations","inputs"],"all trees, responders and values, including characters that need escaping and slashes inside values",
 "Tests compare literal URLs; the round trip over all values and escapes is not exercised.",
 ["utils.go","responder.go","template.go"],
 [("URL building","utils.go responderURL"),("applying values","template.go TryToApply")])
p("C21","Looking up a responder returns the one that was created",
 "Asking again for a host or resource with the same URL, whether through the router, the host or any resource above it, by template or by name, returns the identical object and creates nothing, and lookups of things that do not exist return nothing and create nothing. Child lists and membership tests contain exactly the registered children, and a responder's parent, host and router are those it is registered under.",
 ["configurations","histories"],"all trees, ways of building them and lookup routes",
 "Tests look up a few responders built in one way; identity must hold for all trees and mixtures of building operations.",
 ["router.go","responder.go","resource.go"],
 [("lookup","responder.go registeredResource, resourceWithTemplate; router.go hostWithTemplate"),("links","responder.go setParent, Router; resource.go Host, Parent")])
p("C22","Registering over existing responders loses no handler",
 "When a host or resource is registered where one with the same template exists, the one that has handlers stays in place and all children of both remain reachable, merged recursively by the same rule; if both have handlers the registration panics. After a successful registration every handler reachable before, in the tree or under the registered responder, handles the requests it handled before with the same values, shared parents and configuration.",
 ["configurations","histories"],"all pairs of compatible trees, registration points and orders",
 "Tests merge small fixed trees; conservation must hold for every overlap shape, including dormant and pattern responders.",
 ["responder.go","router.go"],
 [("merge","responder.go keepResourceOrItsChildResources, passChildResourcesTo, replaceResource"),("host and root merge","router.go RegisterHost, registerNewRoot, replaceHost")])
p("C23","Duplicate names and invalid templates are rejected",
 "Creating or registering a responder whose name or value name already occurs above it on its URL, whose name is used by a sibling, or whose template equals an existing one in all but names panics, as do wildcard hosts, roots under other responders and illegal arguments of constructors (invalid or empty templates, a path after a host, no implementation, redirecting insecure requests without the secure scheme); this holds for every operation that can create or register. A rejected operation adds no handled route and changes no response of the existing tree.",
 ["configurations","histories"],"all trees, violating additions, depths of the conflict and operations",
 "Tests list conflicts for some operations; each of the many creating operations must enforce the rules at any distance.",
 ["responder.go","router.go","resource.go","host.go"],
 [("name checks","responder.go checkNamesAreUniqueInTheURL, checkChildResourceNamesAreUniqueInURL, validate"),("sibling checks","responder.go segmentResources, keepResourceOrItsChildResources; router.go HostNamed")])
p("C24","Configuration reads back as set and is never silently weakened",
 "A responder's configuration and its boolean properties always agree with each other and with what was set at construction, by its URL and by later calls, the root never having trailing slash properties. Reconfiguring replaces all properties except that security and trailing slash once set stay set, redirecting insecure requests always implies security, and a second creation or lookup with a conflicting scheme, trailing slash or configuration panics and changes nothing.",
 ["configurations","histories"],"all configurations and sequences of constructing, looking up and reconfiguring operations",
 "Tests check chosen flag sets after one or two calls; the rules quantify over all histories of calls.",
 ["config.go","responder.go","router.go","resource.go","host.go"],
 [("flags","config.go asFlags, asConfig"),("reconfiguration","responder.go SetConfiguration, configure, checkForConfigCompatibility")])
p("C25","Handlers see the acting responder's own data",
 "In every handler and middleware the arguments report the host, the resource, the shared data and the implementation of the responder that is passing or handling the request at that moment, also after the request came back from branches below that did not handle it. Shared data and implementation are exactly those set last for that responder by any route.",
 ["configurations","inputs"],"all trees, positions of handlers and middlewares, and requests",
 "Tests read these in a handler on a direct path; the acting responder changes as a request moves down and back up.",
 ["utils.go","responder.go","resource.go","host.go"],
 [("acting responder","utils.go Args; responder.go passRequest; resource.go/host.go handleOrPassRequest")])
p("C26","Custom arguments live for one request and behave like a map",
 "Within one request a value set by any middleware or handler is what every later one gets for that key, keys that were not set give nothing, keys of different types never collide, and setting again replaces. No value set during one request is ever visible in another, whether earlier, later or concurrent.",
 ["inputs","histories"],"all sequences of set and get operations over all handlers of a request, and all sequences of requests",
 "Tests set and get one or two keys; isolation across recycled arguments and many keys is not settled.",
 ["utils.go"],
 [("custom arguments","utils.go Args.Set, Args.Get, putArgsInThePool")])
p("C27","Process-wide handlers apply everywhere unless a responder overrides them",
 "The not-found handler, common redirect handler and permanent redirect code set or wrapped last are used for every not-found answer and redirect of every router, and a responder's own redirect handler and code take precedence for exactly that responder. Redirect handlers get the complete target URL, the code and the request's arguments exactly once per redirect, and the readers return what is in effect; invalid codes and nil handlers are rejected.",
 ["configurations","inputs","histories"],"all sequences of setting and wrapping these handlers, globally and per responder, and all requests leading to not found or redirects",
 "Tests set them once in fixed set-ups; every place that answers 404 or redirects must honour them.",
 ["requesthandler.go","responder.go","resource.go","host.go","router.go"],
 [("global handlers","requesthandler.go commonRedirectHandler, notFoundResourceHandler, permanentRedirectCode"),("overrides","responder.go SetRedirectHandler, SetPermanentRedirectCode")])
p("C28","No request can crash the router or go unanswered",
 "Whatever request line, host, path, encoding and method a client sends, serving it on any tree never panics or hangs, always produces a valid status, and runs a handler only if the request matches it. A path segment that cannot be decoded is answered 400 when a responder would have to match it.",
 ["inputs","configurations"],"all requests a net/http server can parse and all requests constructible in-process, on all trees",
 "Tests send well-formed URLs; robustness quantifies over all byte strings.",
 ["utils.go","responder.go","resource.go","host.go","router.go"],
 [("path iteration","utils.go getArgs, nextPathSegment"),("decode errors","responder.go passRequest, resource.go ServeHTTP")])
p("C29","An implementation value's handler methods become exactly its handlers",
 "From a value given as implementation, exactly the exported methods named with the Handle prefix and having the handler signature become handlers of the HTTP method that follows the prefix, upper-cased, with the not-allowed method as the handler of not allowed methods and OPTIONS added by default; others are ignored. They are invoked on that value, replace earlier handlers when set later, and behave the same as setting each method by hand.",
 ["configurations","inputs"],"all implementation types (value, pointer and embedded receivers, mixed signatures, few to dozens of methods) and all ways of supplying them",
 "Tests use one or two types; detection depends on method sets, receivers and signatures.",
 ["requesthandler.go","responder.go","resource.go","host.go"],
 [("detection","requesthandler.go detectHTTPMethodHandlersOf"),("installation","responder.go SetImplementation")])
p("C30","How a tree was built does not change how it routes",
 "Two trees with the same responders, configurations, handlers, middlewares and order of pattern siblings answer every request identically, whether they were built through the router, hosts or resources, by URL or by registering prepared responders, top-down or bottom-up, in one call or piecewise. Building a tree that obeys the rules never panics.",
 ["configurations","histories"],"all trees, all ways and orders of building them, and all requests",
 "Tests build each fixed tree in one way; the dozens of equivalent operations are never compared over generated trees.",
 ["router.go","responder.go","resource.go","host.go","utils.go"],
 [("URL decomposition","utils.go splitHostAndPath, splitURL, splitPathSegments"),("creation and registration","router.go and responder.go Resource*, Register*, Set*At")])
p("C31","A host or resource used on its own serves like under a router",
 "A host used directly as the HTTP handler answers every request whose host matches its template, and a resource used directly answers every request whose first path segment (or, for a root, whose path) matches its template, exactly as they would when reached through a router with nothing else in it. All other requests are answered 404, and segments that cannot be decoded 400.",
 ["configurations","inputs"],"all host and resource trees and all requests, with and without ports",
 "Tests serve hosts and resources directly for fixed URLs but never compare them with a router over generated trees.",
 ["host.go","resource.go","router.go"],
 [("entry points","host.go Host.ServeHTTP, resource.go Resource.ServeHTTP, router.go Router.ServeHTTP")])
p("C32","A resource with a URL template is placed exactly where the template says",
 "A resource created with a URL template that has a host or prefix path segments can be registered by the router, a host or a resource, with or without a prefix; it then serves exactly the requests of that URL, missing segments being created, whether the template is relative or absolute. When the template conflicts with the registering responder's host or path or with the prefix, the registration panics, and the resource can still be registered where its template says.",
 ["configurations","histories"],"all trees, URL templates, registering responders and prefixes",
 "Tests register a few fixed resources; compatibility must be decided for every combination of template, responder and prefix.",
 ["resource.go","responder.go","router.go","utils.go"],
 [("URL template","resource.go createResource, urlTmpl; utils.go splitURL"),("compatibility","responder.go validateURL, RegisterResource, RegisterResourceUnder; router.go RegisterResource, RegisterResourceUnder")])
p("C33","What is set at a responder is read back from it alone, by every route",
 "A responder's handlers, not allowed request handler, wrapping middlewares, shared data, implementation, configuration, redirection and redirect handlers that are set directly or at a path or URL template, are read back by every getter of the responder and of its relatives, host and router that leads to it, whichever way they were set; no other responder's properties change. Getters with a template that leads to no responder, or to one with another scheme or trailing slash, and invalid calls panic and change nothing.",
 ["configurations","histories"],"all trees, histories of setters and getters along all routes",
 "Each setter exists in up to seven forms and each getter too; tests read a few back through one of them.",
 ["host.go","resource.go","responder.go","router.go"],
 [("setters","responder.go, host.go, resource.go, router.go SetXAt, SetPathXAt, SetURLXAt"),("getters","XAt, PathXAt, URLXAt, XOf, PathXOf, URLXOf")])
p("C34","Callers own what they pass and what they get; responders are independent",
 "Changing a list, URL, header or set of values that a getter, a template or a response returned, or a slice of middlewares, names or values after it was passed, changes no responder, template, later result or response; no call changes what it is given, and a result got earlier isn't changed by later calls (what Args return belongs to the request only while it's handled). Responders, templates and routers made of the same texts, implementations, handlers and lists of middlewares are independent: building, changing or using one never changes another.",
 ["configurations","histories"],"all trees, histories of calls, and changes of what was passed or returned",
 "Tests look at each result once, and build each responder of its own material; sharing shows only when two users of it meet.",
 ["host.go","requesthandler.go","resource.go","responder.go","router.go","template.go","utils.go"],
 [("results","responder.go URL, ChildResources; requesthandler.go AllowedHTTPMethods; router.go Hosts; template.go ValueNames, Match; utils.go responderURL"),("arguments","template.go TryToApply, HasValueName; WrapX in responder.go, router.go"),("shared material","requesthandler.go detectHTTPMethodHandlersOf; resource.go createResource, setTemplate")])
p("C35","Requests are served in bounded time and memory and leave nothing behind",
 "However many different requests are served, and however they end, nothing of a request (its data, its values, what was stored in its Args) is kept and no goroutine is left after it has been answered and the garbage collector has run: the memory in use doesn't grow with the number of hosts, paths, methods and values that were seen. A request of up to a megabyte, whatever its path, host, method or query is made of, is served in time that grows about in proportion to its size, not to its square.",
 ["inputs","histories"],"all trees, sequences of requests and huge requests",
 "Tests serve a few small requests; caches, leaks and quadratic loops show only with many or huge ones, which anyone can send.",
 ["host.go","requesthandler.go","resource.go","responder.go","router.go","template.go","utils.go"],
 [("recycled arguments","utils.go argsPool, putArgsInThePool"),("paths","utils.go getArgs, nextPathSegment, addTrailingSlashTo, removeTrailingSlashFrom, escapeUnsafeCharsOf, RemainingPath"),("matching","template.go Match; router.go passRequest; responder.go passRequest")])
p("C36","Independent routers and shared templates are safe to use concurrently",
 "Goroutines that build, change, look up and use routers, hosts, resources and templates of their own at the same time never race and get the results each of them gets alone, also when theirs are made of the same texts, implementation types and instances, handlers and lists of middlewares, and while others serve requests. Any number of goroutines may match with, apply values to, compare, query and print the same template, and parse others, at the same time.",
 ["schedules","configurations"],"all schedules of goroutines with histories of calls on routers, responders and templates of their own, and on shared templates that aren't changed",
 "Tests build and use everything in one goroutine at a time; package-level caches, buffers and lazily computed fields fail only when two goroutines meet in them.",
 ["template.go","requesthandler.go","responder.go","resource.go","host.go","router.go","utils.go"],
 [("templates","template.go TryToParse, Match, TryToApply, SimilarityWith, Content, String, ValueNames"),("building","requesthandler.go detectHTTPMethodHandlersOf; resource.go createResource; host.go createHost; router.go"),("process-wide state","utils.go argsPool; requesthandler.go the common handlers")])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
