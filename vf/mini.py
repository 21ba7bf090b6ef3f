"""A small supergraph used by the protocol-level checks: three subgraphs, entities, an interface, mutations, subscriptions."""
import re
from .fed import *
from .net import *

HEAD = '''schema
  @link(url: "https://specs.apollo.dev/link/v1.0")
  @link(url: "https://specs.apollo.dev/join/v0.3", for: EXECUTION)
  %(links)s {
  query: Query
  mutation: Mutation
  subscription: Subscription
}
directive @join__enumValue(graph: join__Graph!) repeatable on ENUM_VALUE
directive @join__field(graph: join__Graph requires: join__FieldSet provides: join__FieldSet type: String external: Boolean override: String usedOverridden: Boolean overrideLabel: String) repeatable on FIELD_DEFINITION | INPUT_FIELD_DEFINITION
directive @join__graph(name: String!, url: String!) on ENUM_VALUE
directive @join__implements(graph: join__Graph!, interface: String!) repeatable on OBJECT | INTERFACE
directive @join__type(graph: join__Graph!, key: join__FieldSet, extension: Boolean! = false, resolvable: Boolean! = true, isInterfaceObject: Boolean! = false) repeatable on OBJECT | INTERFACE | UNION | ENUM | INPUT_OBJECT | SCALAR
directive @join__unionMember(graph: join__Graph!, member: String!) repeatable on UNION
directive @link(url: String as: String for: link__Purpose import: [link__Import]) repeatable on SCHEMA
directive @inaccessible on FIELD_DEFINITION | OBJECT | INTERFACE | UNION | ARGUMENT_DEFINITION | SCALAR | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION
directive @authenticated on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
directive @requiresScopes(scopes: [[federation__Scope!]!]!) on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM
directive @cost(weight: Int!) on ARGUMENT_DEFINITION | ENUM | FIELD_DEFINITION | INPUT_FIELD_DEFINITION | OBJECT | SCALAR
directive @listSize(assumedSize: Int, slicingArguments: [String!], sizedFields: [String!], requireOneSlicingArgument: Boolean = true) on FIELD_DEFINITION
scalar join__FieldSet
scalar link__Import
scalar federation__Scope
enum link__Purpose { SECURITY EXECUTION }
enum join__Graph {
  A @join__graph(name: "a", url: "http://0.0.0.0:1/A")
  P @join__graph(name: "p", url: "http://0.0.0.0:1/P")
  R @join__graph(name: "r", url: "http://0.0.0.0:1/R")
}
'''
LINKS = '''@link(url: "https://specs.apollo.dev/inaccessible/v0.2", for: SECURITY)
  @link(url: "https://specs.apollo.dev/authenticated/v0.1", for: SECURITY)
  @link(url: "https://specs.apollo.dev/requiresScopes/v0.1", for: SECURITY)
  @link(url: "https://specs.apollo.dev/cost/v0.1")'''

BODY = '''
type Query @join__type(graph: A) @join__type(graph: P) @join__type(graph: R) {
  me: User @join__field(graph: A)
  user(id: ID!): User @join__field(graph: A)
  users: [User!] @join__field(graph: A)
  version: String @join__field(graph: A)
  products(first: Int): [Product] @join__field(graph: P)
  product(id: ID!): Product @join__field(graph: P)
  topProduct: Product! @join__field(graph: P)
  nodes: [Node] @join__field(graph: P)
  hello(name: String, n: Int, f: Float, ok: Boolean, color: Color, inp: Inp, ids: [ID!]): String @join__field(graph: P)
  reviews: [Review!]! @join__field(graph: R)
  review(id: ID!): Review @join__field(graph: R)
}
enum Color @join__type(graph: P) { RED @join__enumValue(graph: P) GREEN @join__enumValue(graph: P) }
input Inp @join__type(graph: P) { a: Int! b: String = "dflt" c: [Inp!] }
type Mutation @join__type(graph: A) @join__type(graph: P) @join__type(graph: R) {
  setA(x: Int): User @join__field(graph: A)
  setA2(x: Int): User @join__field(graph: A)
  setP(x: Int): Product @join__field(graph: P)
  setR(x: Int): Review @join__field(graph: R)
  failA(x: Int): Int @join__field(graph: A)
}
type Subscription @join__type(graph: A) @join__type(graph: R) {
  userChanged(id: ID): User @join__field(graph: A)
  counter(to: Int): Int @join__field(graph: A)
  reviewAdded: Review @join__field(graph: R)
}
interface Node @join__type(graph: A) @join__type(graph: P) @join__type(graph: R) { id: ID! }
type User implements Node @join__implements(graph: A, interface: "Node") @join__implements(graph: R, interface: "Node") @join__implements(graph: P, interface: "Node")
  @join__type(graph: A, key: "id") @join__type(graph: R, key: "id") @join__type(graph: P, key: "id", resolvable: false) {
  id: ID!
  name: String @join__field(graph: A)
  email: String! @join__field(graph: A)
  best: User @join__field(graph: A)
  rating: Int @join__field(graph: R)
  score: Int! @join__field(graph: R)
  reviews: [Review!] @join__field(graph: R)
}
type Product implements Node @join__implements(graph: P, interface: "Node") @join__implements(graph: R, interface: "Node")
  @join__type(graph: P, key: "id") @join__type(graph: R, key: "id") {
  id: ID!
  name: String @join__field(graph: P)
  price: Int! @join__field(graph: P)
  color: Color @join__field(graph: P)
  tags: [String!] @join__field(graph: P)
  owner: User @join__field(graph: P)
  stars: Int @join__field(graph: R)
  reviews: [Review] @join__field(graph: R)
}
type Review implements Node @join__implements(graph: R, interface: "Node") @join__type(graph: R, key: "id") {
  id: ID!
  body: String
  author: User
  product: Product!
}
'''


def mini_sdl(patch=None, links="", body=None):
    """patch: list of (old, new) text replacements applied to the body"""
    b = body or BODY
    for o, n in patch or []:
        assert o in b, o
        b = b.replace(o, n)
    return HEAD % dict(links=links) + b


def annotate(body, notes):
    """puts directives on types ("T") and fields ("T.f")"""
    out, cur = [], None
    for line in body.split("\n"):
        m = re.match(r"(type|interface|enum|union|input) (\w+)( implements [\w& ]+?)?(?= [@={])", line)
        if m:
            cur = m.group(2)
            if cur in notes:
                line = line[:m.end()] + " " + notes[cur] + line[m.end():]
        else:
            m = re.match(r"  (\w+)(\(.*?\))?: [\w\[\]!]+", line)
            if m and cur and f"{cur}.{m.group(1)}" in notes:
                line = line[:m.end()] + " " + notes[f"{cur}.{m.group(1)}"] + line[m.end():]
        out.append(line)
    return "\n".join(out)


class Mini:
    """supergraph + world + gateable mock subgraphs"""

    def __init__(self, seed=1, patch=None, links="", nulls=0.1, n=3, hook=None, mutate=None, maxlist=3, body=None):
        self.sg = Supergraph(mini_sdl(patch, links, body))
        self.world = World(self.sg, seed, n=n, nulls=nulls, maxlist=maxlist)
        self.subs = Subgraphs(self.sg, self.world, hook=hook, mutate=mutate)

    async def start(self):
        await self.subs.start()
        return self

    def sdl(self):
        return self.subs.sdl()

    async def stop(self):
        await self.subs.stop()
