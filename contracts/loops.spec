// Contracts of the check of the loops of locators.

// ---- the resources in the way from the root ----

fun member(l list, x *concepts.Resource) bool
axiom memberNone: forall x *concepts.Resource {member(empty, x)} :: !member(empty, x)
axiom memberMore: forall l list; y *concepts.Resource; x *concepts.Resource {member(snoc(l, y), x)} ::
  member(snoc(l, y), x) <==> member(l, x) || x == y

rec owners(a seq *concepts.Locator, n int) list = n <= 0 ? empty : snoc(owners(a, n - 1), a[n - 1].owner)
lemma ownersSame(a, b seq *concepts.Locator, n int) induct n {owners(a, n), owners(b, n)} :
  (forall j in 0..n {a[j]} {b[j]} :: a[j] == b[j]) ==> owners(a, n) == owners(b, n)
lemma ownersOf(a seq *concepts.Locator, n int, x *concepts.Resource) induct n {member(owners(a, n), x)} :
  member(owners(a, n), x) <==> (exists j in 0..n {a[j]} :: a[j].owner == x)
lemma ownersHas(a seq *concepts.Locator, n int, j int) induct n {owners(a, n), a[j]} :
  0 <= j < n ==> member(owners(a, n), a[j].owner)

// No walk of up to n steps that starts at resource x, after going through the resources in l, comes
// back to a resource where it was before.
rec straight(l list, x *concepts.Resource, n int) bool =
  n <= 0 ? true : x == nil || !member(l, x) &&
    (forall i in 0..len(x.locators) {x.locators[i]} :: straight(snoc(l, x), x.locators[i].target, n - 1))

lemma straightStep(l list, x *concepts.Resource, i int, n int) {straight(snoc(l, x), x.locators[i].target, n)} :
  x != nil && 0 <= i < len(x.locators) && n >= 0 && straight(l, x, n + 1) ==> straight(snoc(l, x), x.locators[i].target, n)

define okLocators() bool =
  (forall x *concepts.Resource {x.locators} :: x != nil ==> !fresh(x.locators)) &&
  (forall x *concepts.Resource; i int {x.locators[i]} :: x != nil && 0 <= i < len(x.locators) ==> x.locators[i] != nil && x.locators[i].owner == x)

define sameLocators() bool =
  (forall x *concepts.Resource {x.locators} {old(x.locators)} :: x.locators == old(x.locators)) &&
  (forall x *concepts.Locator {x.target} {old(x.target)} :: x.target == old(x.target)) &&
  (forall x *concepts.Resource; i int {x.locators[i]} {old(x.locators[i])} :: x != nil && 0 <= i < len(x.locators) ==> x.locators[i] == old(x.locators[i]))
lemma straightSame(l list, x *concepts.Resource, n int) induct n {straight(l, x, n), old(straight(l, x, n))} :
  sameLocators() ==> (straight(l, x, n) <==> old(straight(l, x, n)))
lemma straightMove(l list, x *concepts.Resource, n int) {old(straight(l, x, n)), straight(empty, nil, 0)} :
  sameLocators() ==> (straight(l, x, n) <==> old(straight(l, x, n)))

define apart(p []*concepts.Locator) bool = forall x *concepts.Resource {x.locators} :: x != nil ==> arr(x.locators) != arr(p)

define targetOf(p []*concepts.Locator) *concepts.Resource = old(p[len(p) - 1].target)
define before(p []*concepts.Locator) list = old(snoc(owners(elems(p), len(p)), p[len(p) - 1].target))

func "(*language.Reader).checkLocatorPathLoops" (r, path)
  props P09
  heavy
  requires r != nil && r.reporter != nil && len(path) > 0 && okLocators() && apart(path) && straight(empty, nil, 0)
  requires forall i in 0..len(path) {path[i]} :: path[i] != nil
  modifies r.reporter.errors, path[*]
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures kept: forall i in 0..len(path) {path[i]} :: path[i] == old(path[i])
  ensures same: straight(empty, nil, 0) && old(straight(empty, nil, 0)) && owners(elems(path), len(path)) == old(owners(elems(path), len(path))) && path[len(path) - 1].target == old(path[len(path) - 1].target)
  ensures rejected: r.reporter.errors == old(r.reporter.errors) ==>
    (forall n int {old(straight(owners(elems(path), len(path)), path[len(path) - 1].target, n))} :: old(straight(owners(elems(path), len(path)), path[len(path) - 1].target, n)))
  ensures accepted: old(straight(owners(elems(path), len(path)), path[len(path) - 1].target, 1)) && (forall n int {old(straight(owners(elems(path), len(path)), path[len(path) - 1].target, n))} :: old(straight(owners(elems(path), len(path)), path[len(path) - 1].target, n))) ==>
    r.reporter.errors == old(r.reporter.errors)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv forall i in 0..len(path) {path[i]} :: path[i] == old(path[i])
  inv (i: int): forall j in 0..len(path) {path[j]} :: i < j ==> path[j].owner != path[len(path) - 1].target
  inv okLocators()
  inv apart(path)
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) ==>
    (forall n int; j in 0..i {old(straight(before(path), targetOf(path).locators[j].target, n))} :: old(straight(before(path), targetOf(path).locators[j].target, n)))
  inv (i: idx): (forall n int; j in 0..i {old(straight(before(path), targetOf(path).locators[j].target, n))} :: old(straight(before(path), targetOf(path).locators[j].target, n))) ==>
     r.reporter.errors == atloop(r.reporter.errors)
  inv sameLocators()

define rootOf(v *concepts.Version) *concepts.Resource = v.resources["root"]

func "(*language.Reader).checkLocatorLoops" (r, v)
  props P09
  heavy
  requires r != nil && r.reporter != nil && v != nil && v.resources != nil && has(v.resources, "root") && rootOf(v) != nil
  requires okLocators() && straight(empty, nil, 0)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures rejected: r.reporter.errors == old(r.reporter.errors) ==> (forall n int {old(straight(empty, rootOf(v), n))} :: old(straight(empty, rootOf(v), n)))
  ensures accepted: old(straight(empty, rootOf(v), 1)) && (forall n int {old(straight(empty, rootOf(v), n))} :: old(straight(empty, rootOf(v), n))) ==>
    r.reporter.errors == old(r.reporter.errors)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv okLocators()
  inv sameLocators()
  inv (i: idx): r.reporter.errors == atloop(r.reporter.errors) ==>
    (forall n int; j in 0..i {old(straight(snoc(empty, rootOf(v)), rootOf(v).locators[j].target, n))} :: old(straight(snoc(empty, rootOf(v)), rootOf(v).locators[j].target, n)))
  inv (i: idx): (forall n int; j in 0..i {old(straight(snoc(empty, rootOf(v)), rootOf(v).locators[j].target, n))} :: old(straight(snoc(empty, rootOf(v)), rootOf(v).locators[j].target, n))) ==>
     r.reporter.errors == atloop(r.reporter.errors)

// ---- versions, services and models ----

define resFine(s *concepts.Resource) bool = allMethods(elems(s.methods), len(s.methods))
rec allFine(a seq *concepts.Resource, n int) bool = n <= 0 ? true : allFine(a, n - 1) && resFine(a[n - 1])
lemma allFineEach(a seq *concepts.Resource, n int, j int) induct n {allFine(a, n), a[j]} : allFine(a, n) && 0 <= j < n ==> resFine(a[j])
lemma allFineBack(a seq *concepts.Resource, n int) induct n {allFine(a, n)} :
  (forall j in 0..n {a[j]} :: resFine(a[j])) ==> allFine(a, n)

func "(*language.Reader).checkVersion" (r, v)
  props P08, P09
  heavy
  requires r != nil && r.reporter != nil && okVersionResources(v)
  requires forall k string {has(v.resources, k)} {v.resources[k]} :: has(v.resources, k) ==> okRes(r, v.resources[k])
  requires okLocators() && straight(empty, nil, 0)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures [P08] noRoot: r.reporter.errors == old(r.reporter.errors) ==> has(v.resources, "root")
  ensures [P08] methods: r.reporter.errors == old(r.reporter.errors) ==>
    (forall k string {has(v.resources, k)} :: has(v.resources, k) ==> resFine(v.resources[k]))
  ensures [P09] loops: r.reporter.errors == old(r.reporter.errors) ==> (forall n int {old(straight(empty, rootOf(v), n))} :: old(straight(empty, rootOf(v), n)))
  ensures accepted: has(v.resources, "root") && old(straight(empty, rootOf(v), 1)) &&
    (forall n int {old(straight(empty, rootOf(v), n))} :: old(straight(empty, rootOf(v), n))) &&
    (forall k string {has(v.resources, k)} :: has(v.resources, k) ==> resFine(v.resources[k])) ==>
    r.reporter.errors == old(r.reporter.errors)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv okLocators()
  inv (i: idx, s: []*concepts.Resource): r.reporter.errors == atloop(r.reporter.errors) <==> allFine(elems(s), i)

define okVer(r *language.Reader, v *concepts.Version) bool = okVersionResources(v) &&
  (forall k string {has(v.resources, k)} {v.resources[k]} :: has(v.resources, k) ==> okRes(r, v.resources[k]))
define verFine(v *concepts.Version) bool =
  has(v.resources, "root") && straight(empty, rootOf(v), 1) &&
  (forall n int {straight(empty, rootOf(v), n)} :: straight(empty, rootOf(v), n)) &&
  (forall k string {has(v.resources, k)} :: has(v.resources, k) ==> resFine(v.resources[k]))

func "(*language.Reader).checkService" (r, x)
  props P08, P09
  heavy
  requires r != nil && r.reporter != nil && okServiceVersions(x)
  requires forall k string {has(x.versions, k)} {x.versions[k]} :: has(x.versions, k) ==> okVer(r, x.versions[k])
  requires okLocators() && straight(empty, nil, 0)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) ==>
    (forall k string {has(x.versions, k)} :: has(x.versions, k) ==> verFine(x.versions[k]))
  ensures accepted: (forall k string {has(x.versions, k)} {x.versions[k]} :: has(x.versions, k) ==> verFine(x.versions[k])) ==>
    r.reporter.errors == old(r.reporter.errors)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv okLocators()
  inv (i: idx, s: []*concepts.Version): r.reporter.errors == atloop(r.reporter.errors) ==> (forall j in 0..i {s[j]} :: verFine(s[j]))
  inv (i: idx, s: []*concepts.Version): (forall j in 0..i {s[j]} :: verFine(s[j])) ==> r.reporter.errors == atloop(r.reporter.errors)

define okSvc(r *language.Reader, x *concepts.Service) bool = okServiceVersions(x) &&
  (forall k string {has(x.versions, k)} {x.versions[k]} :: has(x.versions, k) ==> okVer(r, x.versions[k]))
define svcFine(x *concepts.Service) bool =
  forall k string {has(x.versions, k)} {x.versions[k]} :: has(x.versions, k) ==> verFine(x.versions[k])

func "(*language.Reader).checkModel" (r)
  props P08, P09
  heavy
  requires r != nil && r.reporter != nil && okModelServices(r.model)
  requires forall k string {has(r.model.services, k)} {r.model.services[k]} :: has(r.model.services, k) ==> okSvc(r, r.model.services[k])
  requires okLocators() && straight(empty, nil, 0)
  modifies r.reporter.errors
  ensures monotone: r.reporter.errors >= old(r.reporter.errors)
  ensures reported: r.reporter.errors == old(r.reporter.errors) ==>
    (forall k string {has(r.model.services, k)} :: has(r.model.services, k) ==> svcFine(r.model.services[k]))
  ensures accepted: (forall k string {has(r.model.services, k)} {r.model.services[k]} :: has(r.model.services, k) ==> svcFine(r.model.services[k])) ==>
    r.reporter.errors == old(r.reporter.errors)
  inv r.reporter.errors >= atloop(r.reporter.errors)
  inv okLocators()
  inv (i: idx, s: []*concepts.Service): r.reporter.errors == atloop(r.reporter.errors) ==> (forall j in 0..i {s[j]} :: svcFine(s[j]))
  inv (i: idx, s: []*concepts.Service): (forall j in 0..i {s[j]} :: svcFine(s[j])) ==> r.reporter.errors == atloop(r.reporter.errors)
