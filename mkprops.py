#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 mkprops.py).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or ["public API return values"],hook_needed=hook)))
V="src/validate.rs"; C="src/context.rs"; F="src/flatten.rs"; PA="src/parser/mod.rs"; J="src/json.rs"; B="src/cbor.rs"; I="src/ivt.rs"; U="src/util.rs"
p("C01","Concurrent calls do not affect one another",
 "Any number of threads may compile schemas and validate documents at the same time, sharing one compiled schema (the compiled rules and their context are Send and Sync). Under every interleaving each call returns exactly the result (acceptance, or the same error with the same text) it returns when it runs alone in a fresh process. No call deadlocks or waits forever because of another.",
 ["schedules","histories","inputs"],"all thread interleavings of all mixes of compile and validate calls on shared and private schemas",
 "Every test makes its calls one after another on private schemas and never shares a compiled schema between threads.",
 [V,C,F,I,J,B],[("all per-call state (Context, WorkingMap, WorkingArray) lives on the caller's stack",V),("lookup through a shared reference without interior mutability",C),("compiled regex shared by all users of a rule",I)],
 [("RuleDef / Node tree","compiled schema, shared read-only",I),("generic_map, depth","per-call lookup state",V)])
p("C02","A failed or crashed validation leaves nothing behind",
 "A validation may end early because the lookup context reported an error or panicked and the caller caught the panic. Every later or concurrent call in the same process, including a retry of the same request on the same compiled schema, still returns exactly what it returns in a fresh process. The compiled schema compares equal to what it was before.",
 ["crash_points","fault_sequences","histories"],"every lookup of every validation as the point of failure or unwinding, followed by any sequence of further calls",
 "Tests look at single calls; none unwinds through the validator, and none reuses a schema after a failure at a chosen point.",
 [V,C,I],[("no state outlives a call: Context, snapshots and depth are owned by the call's stack frames",V)],
 [("depth / snapshot stacks","bookkeeping that must not survive an early exit",V)])
p("C03","A failure to resolve a rule is never hidden",
 "If the lookup context answers a lookup made during a validation with an error that reports a problem with the schema (a missing rule, or a structural, unsupported-feature, generic-parameter or parse error), that validation fails with exactly that error. It never accepts, never reports a data mismatch and never reports some other error instead. This holds wherever the reference stands: choices, occurrences, groups, map keys and values, unwraps, choice-ified groups, range ends, control operators and generic arguments.",
 ["fault_sequences","inputs"],"every lookup of every validation of every schema and document, each schema-problem error kind",
 "test_fatal_propagation tries one missing rule in three positions; the failing position among all lookups and all constructs is what matters.",
 [V,C,U],[("is_fatal / is_mismatch decide what choices and occurrences may absorb",U),("map_search, validate_choice, validate_*_occur, choiceify, chase_rules propagate with ?",V)])
p("C04","A failed lookup stops the validation",
 "Once the lookup context has answered a lookup with such a schema-problem error, the validation makes no further lookup and returns to its caller after a bounded amount of work. A context that enforces a deadline or a lookup budget can therefore cancel any running validation, whatever the schema.",
 ["fault_sequences","schedules"],"every lookup of every validation as the moment at which a deadline or budget expires",
 "No test uses a custom lookup context that starts failing; no test counts lookups.",
 [V,C,U],[("early return of fatal errors from every matching loop",V)])
p("C05","The supplied lookup context alone decides what names mean",
 "Every rule name met during a validation (other than a generic parameter in scope) is resolved by the lookup context given to that call and by nothing else. So splitting a rule set over stacked contexts, interleaving requests of tenants that define the same names differently, replacing a context's rules between calls, and starting another validation from inside a lookup all give the results that a plain context holding the rules in force gives.",
 ["histories","configurations","schedules"],"all ways to layer a rule set, all histories of rule replacement, all interleavings of tenants, all lookups as the point of a nested validation",
 "Tests use BasicContext (and a context that always fails) only; no test stacks contexts, replaces rules or validates from inside a lookup.",
 [V,C,"src/lib.rs"],[("Context::lookup_rule asks the LookupContext each time",V),("LookupContext trait and BasicContext",C)])
p("C06","Validation terminates",
 "Validating a finite document returns after a bounded amount of work on a bounded call stack. Circular or endless rule references, whether direct, through any construct, or through generic arguments, end in an error and never in a stack overflow or an endless loop. Repeating (with ?, *, + or n*m, in an array or a map) something that can match without consuming anything also ends.",
 ["inputs","fault_sequences","configurations"],"all lookup contexts, including ones that answer every name with another reference, and all finite schemas and documents outside deliberate combinatorial explosion",
 "tests/recurse.rs covers parsing of nested brackets only; one unit test covers one circular rule.",
 [V,I],[("recursion limit in Context (inc_depth)",V),("count / upper-limit loop exit in validate_array_occur and validate_map_occur",V)],
 [("depth","rule nesting on the current path",V)])
p("C07","Results do not depend on the process environment",
 "The result of compiling or validating (acceptance, or the error with its text) and the sequence of names asked of the lookup context depend only on the schema text, the rule name, the document and the context's answers. Hash seeds and other randomness, clock values and clock jumps, environment variables, the calling thread and its stack, memory addresses and whatever the process did before make no difference.",
 ["configurations","histories","schedules"],"all values of the process's randomness, clock and environment, all earlier histories",
 "A test run samples one hash seed and one clock per process and never compares two.",
 [V,F,C,I],[("maps that are iterated are BTreeMaps; the generic parameter HashMap is only probed by key",V),("RulesByName is a BTreeMap",I)],
 [("generic_map","randomly seeded HashMap",V)],["return values","sequence of lookup_rule calls"])
p("C08","A crash or memory shortage never turns into a verdict",
 "If the lookup context panics during a validation, the panic reaches the caller: the call returns neither acceptance nor an error. If a memory allocation fails during a call, the call never completes with acceptance or a data mismatch that it would not have reported with memory available.",
 ["crash_points","fault_sequences"],"every lookup as the point of a panic, every allocation as the point of failure",
 "No test panics in a lookup or fails an allocation.",
 [V,J,B],[("no catch_unwind and no fallible allocation in the library",V)])
p("C09","Damaged input is contained",
 "Whatever reaches the library as CBOR document, JSON document or schema text (cut short, with bits flipped, bytes overwritten, or pieces lost, swapped or repeated), the call returns an ordinary result: no panic, no abort, no endless loop, and no effect on other calls. A CBOR document, or a JSON array, object or string, that was cut short is never accepted. If a schema text that was cut short still parses, every rule written out completely before the one at the cut has the definition it had.",
 ["fault_sequences","crash_points","inputs"],"every cut position and every placement of the listed kinds of damage in every document and schema",
 "Tests feed well-formed documents and a handful of hand-written malformed ones.",
 [PA,F,J,B,V],[("decoding errors are mapped to ValueError before validation",B),("decoding errors are mapped to ValueError before validation",J),("all_consuming parser entry points",PA)])
p("C10","An abandoned alternative leaves no trace",
 "When the matching of an alternative, an optional or repeated entry, a group, or an unwrapped array or map fails part-way, at whatever point, every array element and map entry it had consumed is available again, in the original order, to whatever is tried next. Trying and abandoning an alternative before a pattern therefore accepts exactly the documents which that pattern accepts alone.",
 ["fault_sequences","crash_points","inputs"],"every point of every speculative match (any nesting of groups, choices, occurrences and unwraps) as the point of failure",
 "Tests of group backtracking fail at one or two hand-picked places and never inside nested groups or unwraps.",
 [V],[("WorkingArray / WorkingMap snapshot, rewind, commit",V)],
 [("snaps","undo log of speculatively consumed elements",V)])
p("C11","Calls give back the memory they use",
 "Memory held by the library does not grow with the number of compile and validate calls made. Once a call has returned or unwound, and its result and schema have been dropped, everything it allocated is released, apart from caches of bounded size.",
 ["histories","crash_points","schedules"],"all sequences of calls, including calls that fail or unwind at any lookup",
 "Tests never measure memory, and each process makes few calls.",
 [V,F,I,PA],[("ownership: values, working copies and compiled rules are dropped with their owner",V)])
# Pure functions of their input: listed, not claimed.
p("C20","A document is accepted exactly when it matches the rule",
 "For every supported schema and document, validation accepts if and only if the document matches the named rule under RFC 8610 (with this library's documented in-order, non-backtracking matching).",
 ["inputs"],"all schemas and documents","Tests sample some hundred pairs.",[V],[("validate and its helpers",V)])
p("C21","Numeric limits, ranges and sizes are exact",
 "Ranges, .size, .lt, .le, .gt and .ge accept exactly the values inside the stated limits for every 64-bit integer, float and string length, including at the boundaries.",
 ["inputs"],"all limits and values","Tests sample boundaries.",[V,"src/normalize.rs"],[("check_range, validate_size_*, validate_{lt,le,gt,ge}_*",V)])
p("C22","The parser accepts the supported grammar and decodes literals exactly",
 "Every schema in the supported subset of the RFC 8610 grammar parses, its literals have exactly the written value, and everything else is rejected with a parse error.",
 ["inputs"],"all schema texts","Tests sample productions.",[PA],[("nom parser combinators",PA)])
p("C23","JSON and CBOR renderings of the same data get the same verdict",
 "A value that both encodings can express is accepted from JSON if and only if it is accepted from CBOR.",
 ["inputs"],"all values and schemas","Tests sample each encoding separately.",[J,B,"src/value.rs"],[("TryFrom conversions into Value",B)])
p("C24","Slice-preserving parsing agrees with plain parsing",
 "Parsing or compiling with source slices yields the same rules as without, and each slice is the exact source text of its rule.",
 ["inputs"],"all schema texts","Two unit tests.",[PA,F],[("recognizer / slice_flatten",F)])
p("C25","Cut keys commit",
 "Once a map key with cut semantics matches and its value does not, no later entry of the same map or group accepts that key.",
 ["inputs"],"all maps","Tests sample.",[V],[("MapCut errors",U)])
p("C26","Generic parameters are lexically scoped",
 "A generic parameter refers to the argument of the innermost enclosing generic rule definition and never leaks into other rules.",
 ["inputs"],"all generic rules","Tests sample.",[V],[("GenericMap / past_ctx",V)])
p("C27","Regular expressions are compiled under a size limit",
 "A .regexp pattern that would need more than the built-in size limit is refused at compile time, and matching time is linear in the text.",
 ["inputs"],"all patterns","One unit test.",[F],[("RegexBuilder::size_limit",F)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("ok",len(P))
except ImportError: print("written",len(P))
