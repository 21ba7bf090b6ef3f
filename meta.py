#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json. Run: python3 meta.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.run import CHECKS

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level_note, state=(), observe=(), level="model_checking"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  technique=technique, level_note=level_note, state=state, observe=list(observe), level=level))


TV = "TLA+ specification checked with TLC; traces of the real router validated against it by TLC"
BB = ("Black-box: the router built from /repo runs as a process between driver-controlled clients and subgraphs; every recorded case is "
      "decided by TLC. Bounded by the generated operations/histories. Trusts the mock subgraphs, the trace encoder and TLC.")

prop("P01", "A federated operation gets the answer one GraphQL server would give",
     "For every valid query over the composed public schema, and every state of the data held by healthy subgraphs, the response the client gets is the one GraphQL execution prescribes for that query on the composed schema and the joined data: the same fields under the same response keys, the same values, the same list lengths and positions, nulls propagated the same way, and no errors. This holds however the operation is written (aliases, fragments, type conditions, interfaces and unions, @skip/@include, variables, __typename) and however the fields are spread over subgraphs.",
     "inputs programs configurations", "all supergraphs x all valid operations x variable values x subgraph data",
     "Existing tests compare a handful of plans with stored snapshots and some end-to-end results with stored JSON; they never compare arbitrary operations with the result of the composed schema.",
     "bin/router/src/query_planner bin/router/src/executor bin/router/src/pipeline/execution.rs",
     [dict(name="query plan construction", where="query planner: walker, fetch graph, optimization passes"), dict(name="plan execution, entity merge and projection", where="executor/execution/plan.rs, executor/projection")],
     TV, "TLC evaluates the reference execution semantics (GqlSemantics.tla) for each recorded case and compares it with the router's response; a design model of federated fetching (FedPlan) is checked exhaustively. " + BB,
     observe=["HTTP response body"])
prop("P02", "Every request to a subgraph is valid there and carries what it requires",
     "Every operation the router sends to a subgraph is a valid GraphQL operation against that subgraph's own schema, asking only for fields that subgraph resolves (or provides on that path). Every entity representation in it carries the __typename and a complete resolvable key of that subgraph with the values the owning subgraphs returned, and, for a field with @requires, everything that field requires with exactly the values the other subgraphs returned (nulls and lists included).",
     "inputs programs configurations", "all supergraphs x all valid operations x variable values",
     "Tests look at the text of a few plans; validity of every generated subgraph operation against the subgraph schema is never checked.",
     "bin/router/src/query_planner bin/router/src/executor",
     [dict(name="subgraph operation and representation building", where="planner fetch steps; executor/execution/plan.rs requires projection")],
     TV, "Each request observed by mock subgraphs is decided by the TLA+ contract (SubgraphContract.tla). " + BB, observe=["subgraph HTTP requests"])
prop("P03", "Mutation root fields run one after another, in document order, exactly once",
     "The top-level fields of a mutation take effect exactly once each and in the order in which they appear in the operation: the request that carries a root field is sent only after the answer to the one before it has arrived, also when consecutive fields belong to different subgraphs or when an earlier field fails. Requests that carry mutations are never sent twice, whatever else is in flight.",
     "schedules inputs fault_sequences", "all mutations x subgraph response delays x failures",
     "Tests use two or three mutations and subgraphs that answer at once; they do not observe ordering under delayed answers.",
     "bin/router/src/executor/execution/plan.rs bin/router/src/query_planner",
     [dict(name="Sequence nodes for mutation root steps", where="query plan builder"), dict(name="no dedupe for mutations", where="executor/executors/http.rs, pipeline inbound dedupe")],
     TV, "Mutations.tla checked exhaustively; recorded histories with subgraphs holding answers back validated with TraceMutations.tla. " + BB)
prop("P04", "A failing subgraph costs only its own fields and is always reported",
     "When subgraph fetches fail (no connection, HTTP error, malformed or non-JSON body, GraphQL errors with or without partial data), the response is still a well-formed GraphQL response in which every field that does not depend on the failed fetch has its correct value, fields that do depend on it are null or nulled up to the nearest nullable parent as the composed schema says, and at least one error is reported for each failed fetch. No value is ever made up, and no failure turns into a response without errors.",
     "inputs fault_sequences", "all operations x all assignments of faults to fetches",
     "Tests fail one subgraph for one query; combinations of fault kinds, fetches and nullability are not sampled.",
     "bin/router/src/executor/execution/plan.rs bin/router/src/executor/executors bin/router/src/executor/projection",
     [dict(name="error collection and null propagation", where="executor/execution/plan.rs, executor/projection/response.rs")],
     TV, "TracePartial.tla decides each recorded faulty execution against the reference semantics with the failed fetches' fields undefined. " + BB)
prop("P05", "No field is fetched or returned without the authorization it requires",
     "A field guarded by @authenticated or @requiresScopes (on itself, on its type, or on an implementing type reached through an interface or union) is requested from a subgraph and returned only when the request carries a valid token whose scopes satisfy one of the required groups. In filter mode the rest of the operation is answered as if the unauthorized selections resolved to null and each one is reported in an error; in reject mode nothing at all is sent to any subgraph.",
     "inputs programs configurations histories", "all placements of directives x operations x token scope sets x modes, and histories of requests of different users",
     "Tests use one supergraph with fixed operations and tokens; they cannot cover all selections, abstract types, fragments and interleavings of users that share caches.",
     "bin/router/src/pipeline/authorization bin/router/src/jwt bin/router/src/pipeline/execution.rs",
     [dict(name="authorization metadata and operation filtering", where="pipeline/authorization/{mod,metadata,user_auth_context}.rs")],
     TV, "Authorization.tla defines the allowed selections from directives and scopes; every recorded request is decided by TLC. " + BB)
prop("P06", "Shared in-flight client requests get exactly their own answer",
     "With inbound request deduplication on, a client only ever receives a response computed for an identical request (same method, path, operation, variables, operation name, extensions, schema and configured headers) that was in flight at the same time, and each client gets a complete response of its own, also when another sharer disconnects or fails. Mutations are never shared, completed results are never reused for later requests, and requests that differ in anything the configuration says matters are executed separately.",
     "schedules inputs histories", "all overlappings of arrivals, completions and disconnects of requests from a small set of fingerprints",
     "Tests send a few concurrent requests; they do not control when the shared execution completes or who leaves.",
     "bin/router/src/executor/executors/inflight.rs bin/router/src/pipeline/mod.rs bin/router/src/pipeline/execution.rs",
     [dict(name="single-flight map keyed by the request fingerprint", where="executor/executors/inflight.rs; fingerprint in pipeline")],
     TV, "SingleFlight.tla checked exhaustively; driver-controlled overlapping histories on the real router validated with TraceFlight.tla. " + BB)
prop("P07", "Shared subgraph requests never mix callers, and mutations are never shared",
     "With subgraph request deduplication on, a fetch only ever uses the answer of an identical request (same subgraph endpoint, operation, variables and propagated headers) that was in flight at the same time, and every waiting fetch gets the whole answer, also when the caller that started it goes away. Mutations and subgraphs for which deduplication is off get one request per fetch, and no answer is reused once it was delivered.",
     "schedules inputs histories", "all overlappings of fetches and completions for a small set of fingerprints",
     "Tests check a count for identical parallel requests; they do not vary headers, variables and completion orders.",
     "bin/router/src/executor/executors/dedupe.rs bin/router/src/executor/executors/inflight.rs bin/router/src/executor/executors/http.rs",
     [dict(name="request fingerprint and single flight", where="executor/executors/dedupe.rs")],
     TV, "SingleFlight.tla checked exhaustively; overlapping histories on the real router validated with TraceFlight.tla. " + BB)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")) else None

here = os.path.dirname(os.path.abspath(__file__))
NA = globals().get("NA", {})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
        for x in p["files"]:
            if not os.path.exists("/repo/" + x):
                print("missing anchor", p["id"], x)
m = dict(version=1, setup_cmd='python3-vt -c "from vf.core import build; build()"',
         checks=[dict(property=p["id"], quick_cmd=f"python3-vt -m vf.run {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3-vt -m vf.run {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["level_note"])
                 for p in P if p["id"] in CHECKS],
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in P if p["id"] not in CHECKS],
         notes="TLA+ with TLC. No hooks in /repo: the router is driven and observed from outside.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
