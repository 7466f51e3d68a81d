// Contract of the calculation of the paths of a version.

define rootRes(v *concepts.Version) *concepts.Resource = has(v.resources, "root") ? v.resources["root"] : nil
define endOf(l list, v *concepts.Version) *concepts.Resource = l == empty ? rootRes(v) : lastof(l, *concepts.Locator).target
rec stepOf(r *concepts.Resource, x *concepts.Locator) bool =
  r == nil ? false : (exists i in 0..len(r.locators) :: r.locators[i] == x)
// Sequences of locators that can be walked from the root of the version.
rec walk(l list, v *concepts.Version) bool =
  l == empty ? true : walk(initof(l), v) && stepOf(endOf(initof(l), v), lastof(l, *concepts.Locator))
define pathsOk(v *concepts.Version) bool =
  v != nil && v.resources != nil && rootRes(v) != nil &&
  (forall x *concepts.Resource {x.locators} :: x != nil ==> !fresh(x.locators)) &&
  (forall x *concepts.Resource; i int {x.locators[i]} :: x != nil && 0 <= i < len(x.locators) ==> x.locators[i] != nil && x.locators[i].target != nil)

lemma oneLocator(a seq *concepts.Locator) {listof(a, 1)} : listof(a, 1) == snoc(empty, a[0])

lemma walkMore(l list, x *concepts.Locator, v *concepts.Version) {walk(snoc(l, x), v)} :
  walk(l, v) && stepOf(endOf(l, v), x) ==> walk(snoc(l, x), v)
define walked(l list, v *concepts.Version) bool = old(walk(l, v))

func "(*concepts.Version).Paths" (v) -> (r)
  props P09
  requires pathsOk(v)
  ensures paths: forall j in 0..len(r) {r[j]} :: len(r[j]) > 0 && walked(contents(r[j]), v)
  inv (s: [][]*concepts.Locator): forall j in 0..len(s) {s[j]} :: len(s[j]) > 0 && walked(contents(s[j]), v)
  inv (s: [][]*concepts.Locator): forall j in 0..len(s) {s[j]} :: allocated(s[j])
  inv (s: [][]*concepts.Locator): allocated(s)
