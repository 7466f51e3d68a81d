// Contracts of the concepts package.

import concepts "github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
import nomenclator "github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"

func "(*concepts.namedSupport).Name" (s) -> (r)
  requires s != nil
  is s.name
  nopanic
func "(*concepts.namedSupport).SetName" (s, value)
  props P05
  requires s != nil
  modifies s.name
  ensures s.name == value
  nopanic
func "(*concepts.typedSupport).Type" (s) -> (r)
  requires s != nil
  is s.typ
  nopanic
func "(*concepts.typedSupport).SetType" (s, value)
  props P05
  requires s != nil
  modifies s.typ
  ensures s.typ == value
  nopanic
func "(*concepts.documentedSupport).Doc" (s) -> (r)
  requires s != nil
  is s.doc
  nopanic
func "(*concepts.documentedSupport).SetDoc" (s, value)
  props P12
  requires s != nil
  modifies s.doc
  ensures s.doc == value
  nopanic

func "(*concepts.Service).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Service).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Version).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Version).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Type).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Type).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Resource).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Resource).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Error).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Error).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Method).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Method).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Locator).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Locator).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Attribute).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Attribute).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.Parameter).Owner" (x) -> (r)
  props P05
  requires x != nil
  is x.owner
  nopanic
func "(*concepts.Parameter).SetOwner" (x, value)
  props P05
  requires x != nil
  modifies x.owner
  ensures x.owner == value
  nopanic

func "(*concepts.EnumValue).Type" (x) -> (r)
  props P05
  requires x != nil
  is x.typ
  nopanic
func "(*concepts.EnumValue).SetType" (x, value)
  props P05
  requires x != nil
  modifies x.typ
  ensures x.typ == value
  nopanic

func "(*concepts.Type).Kind" (x) -> (r)
  props P05
  requires x != nil
  is x.kind
  nopanic
func "(*concepts.Type).SetKind" (x, value)
  props P05
  requires x != nil
  modifies x.kind
  ensures x.kind == value
  nopanic

func "(*concepts.Type).Element" (x) -> (r)
  props P05
  requires x != nil
  is x.element
  nopanic
func "(*concepts.Type).SetElement" (x, value)
  props P05
  requires x != nil
  modifies x.element
  ensures x.element == value
  nopanic

func "(*concepts.Type).Index" (x) -> (r)
  props P05
  requires x != nil
  is x.index
  nopanic
func "(*concepts.Type).SetIndex" (x, value)
  props P05
  requires x != nil
  modifies x.index
  ensures x.index == value
  nopanic

func "(*concepts.Type).ExplicitDeclared" (x) -> (r)
  props P05
  requires x != nil
  is x.explicitDeclared
  nopanic
func "(*concepts.Type).SetExplicitDeclared" (x, value)
  props P05
  requires x != nil
  modifies x.explicitDeclared
  ensures x.explicitDeclared == value
  nopanic

func "(*concepts.Locator).Variable" (x) -> (r)
  props P05
  requires x != nil
  is x.variable
  nopanic
func "(*concepts.Locator).SetVariable" (x, value)
  props P05
  requires x != nil
  modifies x.variable
  ensures x.variable == value
  nopanic

func "(*concepts.Locator).Target" (x) -> (r)
  props P05
  requires x != nil
  is x.target
  nopanic
func "(*concepts.Locator).SetTarget" (x, value)
  props P05
  requires x != nil
  modifies x.target
  ensures x.target == value
  nopanic

func "(*concepts.Parameter).In" (x) -> (r)
  props P05
  requires x != nil
  is x.in
  nopanic
func "(*concepts.Parameter).SetIn" (x, value)
  props P05
  requires x != nil
  modifies x.in
  ensures x.in == value
  nopanic

func "(*concepts.Parameter).Out" (x) -> (r)
  props P05
  requires x != nil
  is x.out
  nopanic
func "(*concepts.Parameter).SetOut" (x, value)
  props P05
  requires x != nil
  modifies x.out
  ensures x.out == value
  nopanic

func "(*concepts.Parameter).Default" (x) -> (r)
  props P05
  requires x != nil
  is x.dflt
  nopanic
func "(*concepts.Parameter).SetDefault" (x, value)
  props P05
  requires x != nil
  modifies x.dflt
  ensures x.dflt == value
  nopanic

func "(*concepts.Attribute).Link" (x) -> (r)
  props P05
  requires x != nil
  is x.link
  nopanic
func "(*concepts.Attribute).SetLink" (x, value)
  props P05
  requires x != nil
  modifies x.link
  ensures x.link == value
  nopanic

func "(*concepts.Attribute).LinkOwner" (x) -> (r)
  props P05
  requires x != nil
  is x.linkOwner
  nopanic
func "(*concepts.Attribute).SetLinkOwner" (x, value)
  props P05
  requires x != nil
  modifies x.linkOwner
  ensures x.linkOwner == value
  nopanic

func "(*concepts.Error).Code" (x) -> (r)
  props P05
  requires x != nil
  is x.code
  nopanic
func "(*concepts.Error).SetCode" (x, value)
  props P05
  requires x != nil
  modifies x.code
  ensures x.code == value
  nopanic

func "(concepts.ServiceSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.ServiceSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.ServiceSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.VersionSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.VersionSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.VersionSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.TypeSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.TypeSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.TypeSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.ResourceSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.ResourceSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.ResourceSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.ErrorSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.ErrorSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.ErrorSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.MethodSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.MethodSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.MethodSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.LocatorSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.LocatorSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.LocatorSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.AttributeSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.AttributeSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.AttributeSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.EnumValueSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.EnumValueSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.EnumValueSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

func "(concepts.ParameterSlice).Len" (s) -> (r)
  props P04
  is len(s)
  nopanic
func "(concepts.ParameterSlice).Less" (s, i, j) -> (r)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s) && s[i] != nil && s[j] != nil && wordsOk(s[i].name) && wordsOk(s[j].name)
  is nameCmp(s[i].name, s[j].name) == -1
  nopanic
func "(concepts.ParameterSlice).Swap" (s, i, j)
  props P04
  requires 0 <= i < len(s) && 0 <= j < len(s)
  modifies s[*]
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall k in 0..len(s) {s[k]} :: k != i && k != j ==> s[k] == old(s[k])
  nopanic

define nameText(n *names.Name) string = strJoin(textWords(elems(n.words), len(n.words)), "_")

define okModelServices(c *concepts.Model) bool =
  c != nil && c.services != nil && (forall k string {c.services[k]} :: has(c.services, k) ==> c.services[k] != nil && wordsOk(c.services[k].name))

func "(*concepts.Model).Services" (c) -> (r)
  props P04
  requires okModelServices(c)
  ensures count: len(r) == len(c.services)
  ensures complete: forall k string {c.services[k]} :: has(c.services, k) ==> (exists i in 0..len(r) :: r[i] == c.services[k])
  ensures nothingElse: forall i in 0..len(r) {r[i]} :: (exists k string :: has(c.services, k) && r[i] == c.services[k])
  ensures sorted: forall i in 0..len(r); j in 0..len(r) {r[i], r[j]} :: i < j ==> nameCmp(r[j].name, r[i].name) != -1
  ensures copy: len(r) > 0 ==> fresh(r)
  inv (i: idx): i == nvisited()
  inv (i: idx, s: []*concepts.Service): forall k string {visited(k)} :: visited(k) ==> (exists j in 0..i :: s[j] == c.services[k])
  inv (i: idx, s: []*concepts.Service): forall j in 0..i {s[j]} :: s[j] != nil && wordsOk(s[j].name) && (exists k string :: has(c.services, k) && s[j] == c.services[k])
  nopanic

func "(*concepts.Model).FindService" (c, name) -> (r)
  props P05
  requires c != nil && c.services != nil && (name != nil ==> wordsOk(name))
  is name == nil || !has(c.services, nameText(name)) ? nil : c.services[nameText(name)]
  nopanic

func "(*concepts.Model).AddService" (c, x)
  props P05
  requires c != nil && c.services != nil && (x != nil ==> wordsOk(x.name))
  modifies c.services[*], x.owner
  ensures added: x != nil ==> c.services[nameText(x.name)] == x && has(c.services, nameText(x.name))
  ensures others: forall k string {c.services[k]} :: x == nil || k != nameText(x.name) ==> c.services[k] == old(c.services[k])
  ensures otherNames: forall k string {has(c.services, k)} :: x == nil || k != nameText(x.name) ==> (has(c.services, k) <==> old(has(c.services, k)))
  ensures owner: x != nil ==> x.owner == c
  nopanic

define okServiceVersions(c *concepts.Service) bool =
  c != nil && c.versions != nil && (forall k string {c.versions[k]} :: has(c.versions, k) ==> c.versions[k] != nil && wordsOk(c.versions[k].name))

func "(*concepts.Service).Versions" (c) -> (r)
  props P04
  requires okServiceVersions(c)
  ensures count: len(r) == len(c.versions)
  ensures complete: forall k string {c.versions[k]} :: has(c.versions, k) ==> (exists i in 0..len(r) :: r[i] == c.versions[k])
  ensures nothingElse: forall i in 0..len(r) {r[i]} :: (exists k string :: has(c.versions, k) && r[i] == c.versions[k])
  ensures sorted: forall i in 0..len(r); j in 0..len(r) {r[i], r[j]} :: i < j ==> nameCmp(r[j].name, r[i].name) != -1
  ensures copy: len(r) > 0 ==> fresh(r)
  inv (i: idx): i == nvisited()
  inv (i: idx, s: []*concepts.Version): forall k string {visited(k)} :: visited(k) ==> (exists j in 0..i :: s[j] == c.versions[k])
  inv (i: idx, s: []*concepts.Version): forall j in 0..i {s[j]} :: s[j] != nil && wordsOk(s[j].name) && (exists k string :: has(c.versions, k) && s[j] == c.versions[k])
  nopanic

func "(*concepts.Service).FindVersion" (c, name) -> (r)
  props P05
  requires c != nil && c.versions != nil && (name != nil ==> wordsOk(name))
  is name == nil || !has(c.versions, nameText(name)) ? nil : c.versions[nameText(name)]
  nopanic

func "(*concepts.Service).AddVersion" (c, x)
  props P05
  requires c != nil && c.versions != nil && (x != nil ==> wordsOk(x.name))
  modifies c.versions[*], x.owner
  ensures added: x != nil ==> c.versions[nameText(x.name)] == x && has(c.versions, nameText(x.name))
  ensures others: forall k string {c.versions[k]} :: x == nil || k != nameText(x.name) ==> c.versions[k] == old(c.versions[k])
  ensures otherNames: forall k string {has(c.versions, k)} :: x == nil || k != nameText(x.name) ==> (has(c.versions, k) <==> old(has(c.versions, k)))
  ensures owner: x != nil ==> x.owner == c
  nopanic

define okVersionTypes(c *concepts.Version) bool =
  c != nil && c.types != nil && (forall k string {c.types[k]} :: has(c.types, k) ==> c.types[k] != nil && wordsOk(c.types[k].name))

func "(*concepts.Version).Types" (c) -> (r)
  props P04
  requires okVersionTypes(c)
  ensures count: len(r) == len(c.types)
  ensures complete: forall k string {c.types[k]} :: has(c.types, k) ==> (exists i in 0..len(r) :: r[i] == c.types[k])
  ensures nothingElse: forall i in 0..len(r) {r[i]} :: (exists k string :: has(c.types, k) && r[i] == c.types[k])
  ensures sorted: forall i in 0..len(r); j in 0..len(r) {r[i], r[j]} :: i < j ==> nameCmp(r[j].name, r[i].name) != -1
  ensures copy: len(r) > 0 ==> fresh(r)
  inv (i: idx): i == nvisited()
  inv (i: idx, s: []*concepts.Type): forall k string {visited(k)} :: visited(k) ==> (exists j in 0..i :: s[j] == c.types[k])
  inv (i: idx, s: []*concepts.Type): forall j in 0..i {s[j]} :: s[j] != nil && wordsOk(s[j].name) && (exists k string :: has(c.types, k) && s[j] == c.types[k])
  nopanic

func "(*concepts.Version).FindType" (c, name) -> (r)
  props P05
  requires c != nil && c.types != nil && (name != nil ==> wordsOk(name))
  is name == nil || !has(c.types, nameText(name)) ? nil : c.types[nameText(name)]
  nopanic

func "(*concepts.Version).AddType" (c, x)
  props P05
  requires c != nil && c.types != nil && (x != nil ==> wordsOk(x.name))
  modifies c.types[*], x.owner
  ensures added: x != nil ==> c.types[nameText(x.name)] == x && has(c.types, nameText(x.name))
  ensures others: forall k string {c.types[k]} :: x == nil || k != nameText(x.name) ==> c.types[k] == old(c.types[k])
  ensures otherNames: forall k string {has(c.types, k)} :: x == nil || k != nameText(x.name) ==> (has(c.types, k) <==> old(has(c.types, k)))
  ensures owner: x != nil ==> x.owner == c
  nopanic

define okVersionResources(c *concepts.Version) bool =
  c != nil && c.resources != nil && (forall k string {c.resources[k]} :: has(c.resources, k) ==> c.resources[k] != nil && wordsOk(c.resources[k].name))

func "(*concepts.Version).Resources" (c) -> (r)
  props P04
  requires okVersionResources(c)
  ensures count: len(r) == len(c.resources)
  ensures complete: forall k string {c.resources[k]} :: has(c.resources, k) ==> (exists i in 0..len(r) :: r[i] == c.resources[k])
  ensures nothingElse: forall i in 0..len(r) {r[i]} :: (exists k string :: has(c.resources, k) && r[i] == c.resources[k])
  ensures sorted: forall i in 0..len(r); j in 0..len(r) {r[i], r[j]} :: i < j ==> nameCmp(r[j].name, r[i].name) != -1
  ensures copy: len(r) > 0 ==> fresh(r)
  inv (i: idx): i == nvisited()
  inv (i: idx, s: []*concepts.Resource): forall k string {visited(k)} :: visited(k) ==> (exists j in 0..i :: s[j] == c.resources[k])
  inv (i: idx, s: []*concepts.Resource): forall j in 0..i {s[j]} :: s[j] != nil && wordsOk(s[j].name) && (exists k string :: has(c.resources, k) && s[j] == c.resources[k])
  nopanic

func "(*concepts.Version).FindResource" (c, name) -> (r)
  props P05
  requires c != nil && c.resources != nil && (name != nil ==> wordsOk(name))
  is name == nil || !has(c.resources, nameText(name)) ? nil : c.resources[nameText(name)]
  nopanic

func "(*concepts.Version).AddResource" (c, x)
  props P05
  requires c != nil && c.resources != nil && (x != nil ==> wordsOk(x.name))
  modifies c.resources[*], x.owner
  ensures added: x != nil ==> c.resources[nameText(x.name)] == x && has(c.resources, nameText(x.name))
  ensures others: forall k string {c.resources[k]} :: x == nil || k != nameText(x.name) ==> c.resources[k] == old(c.resources[k])
  ensures otherNames: forall k string {has(c.resources, k)} :: x == nil || k != nameText(x.name) ==> (has(c.resources, k) <==> old(has(c.resources, k)))
  ensures owner: x != nil ==> x.owner == c
  nopanic

define okVersionErrors(c *concepts.Version) bool =
  c != nil && c.errors != nil && (forall k string {c.errors[k]} :: has(c.errors, k) ==> c.errors[k] != nil && wordsOk(c.errors[k].name))

func "(*concepts.Version).Errors" (c) -> (r)
  props P04
  requires okVersionErrors(c)
  ensures count: len(r) == len(c.errors)
  ensures complete: forall k string {c.errors[k]} :: has(c.errors, k) ==> (exists i in 0..len(r) :: r[i] == c.errors[k])
  ensures nothingElse: forall i in 0..len(r) {r[i]} :: (exists k string :: has(c.errors, k) && r[i] == c.errors[k])
  ensures sorted: forall i in 0..len(r); j in 0..len(r) {r[i], r[j]} :: i < j ==> nameCmp(r[j].name, r[i].name) != -1
  ensures copy: len(r) > 0 ==> fresh(r)
  inv (i: idx): i == nvisited()
  inv (i: idx, s: []*concepts.Error): forall k string {visited(k)} :: visited(k) ==> (exists j in 0..i :: s[j] == c.errors[k])
  inv (i: idx, s: []*concepts.Error): forall j in 0..i {s[j]} :: s[j] != nil && wordsOk(s[j].name) && (exists k string :: has(c.errors, k) && s[j] == c.errors[k])
  nopanic

func "(*concepts.Version).FindError" (c, name) -> (r)
  props P05
  requires c != nil && c.errors != nil && (name != nil ==> wordsOk(name))
  is name == nil || !has(c.errors, nameText(name)) ? nil : c.errors[nameText(name)]
  nopanic

func "(*concepts.Version).AddError" (c, x)
  props P05
  requires c != nil && c.errors != nil && (x != nil ==> wordsOk(x.name))
  modifies c.errors[*], x.owner
  ensures added: x != nil ==> c.errors[nameText(x.name)] == x && has(c.errors, nameText(x.name))
  ensures others: forall k string {c.errors[k]} :: x == nil || k != nameText(x.name) ==> c.errors[k] == old(c.errors[k])
  ensures otherNames: forall k string {has(c.errors, k)} :: x == nil || k != nameText(x.name) ==> (has(c.errors, k) <==> old(has(c.errors, k)))
  ensures owner: x != nil ==> x.owner == c
  nopanic

define okResourceMethods(c *concepts.Resource) bool =
  c != nil && (forall i in 0..len(c.methods) {c.methods[i]} :: c.methods[i] != nil && wordsOk(c.methods[i].name))

func "(*concepts.Resource).Methods" (c) -> (r)
  props P04
  requires c != nil
  is c.methods
  nopanic

func "(*concepts.Resource).AddMethod" (c, x)
  props P04, P05
  requires okResourceMethods(c) && (x != nil ==> wordsOk(x.name))
  modifies c.methods, c.methods[*], x.owner
  ensures [P05] nothing: x == nil ==> c.methods == old(c.methods)
  ensures [P05] owner: x != nil ==> x.owner == c
  ensures [P05] count: x != nil ==> len(c.methods) == old(len(c.methods)) + 1
  ensures [P05] added: x != nil ==> (exists i in 0..len(c.methods) :: c.methods[i] == x)
  ensures [P05] kept: forall j in 0..old(len(c.methods)) {old(c.methods[j])} :: (exists i in 0..len(c.methods) :: c.methods[i] == old(c.methods[j]))
  ensures [P05] nothingElse: forall i in 0..len(c.methods) {c.methods[i]} :: c.methods[i] == x || (exists j in 0..old(len(c.methods)) :: c.methods[i] == old(c.methods[j]))
  ensures [P04] sorted: x != nil ==> (forall i in 0..len(c.methods); j in 0..len(c.methods) {c.methods[i], c.methods[j]} :: i < j ==> nameCmp(c.methods[j].name, c.methods[i].name) != -1)
  nopanic

define okResourceLocators(c *concepts.Resource) bool =
  c != nil && (forall i in 0..len(c.locators) {c.locators[i]} :: c.locators[i] != nil && wordsOk(c.locators[i].name))

func "(*concepts.Resource).Locators" (c) -> (r)
  props P04
  requires c != nil
  is c.locators
  nopanic

func "(*concepts.Resource).AddLocator" (c, x)
  props P04, P05
  requires okResourceLocators(c) && (x != nil ==> wordsOk(x.name))
  modifies c.locators, c.locators[*], x.owner
  ensures [P05] nothing: x == nil ==> c.locators == old(c.locators)
  ensures [P05] owner: x != nil ==> x.owner == c
  ensures [P05] count: x != nil ==> len(c.locators) == old(len(c.locators)) + 1
  ensures [P05] added: x != nil ==> (exists i in 0..len(c.locators) :: c.locators[i] == x)
  ensures [P05] kept: forall j in 0..old(len(c.locators)) {old(c.locators[j])} :: (exists i in 0..len(c.locators) :: c.locators[i] == old(c.locators[j]))
  ensures [P05] nothingElse: forall i in 0..len(c.locators) {c.locators[i]} :: c.locators[i] == x || (exists j in 0..old(len(c.locators)) :: c.locators[i] == old(c.locators[j]))
  ensures [P04] sorted: x != nil ==> (forall i in 0..len(c.locators); j in 0..len(c.locators) {c.locators[i], c.locators[j]} :: i < j ==> nameCmp(c.locators[j].name, c.locators[i].name) != -1)
  nopanic

define okTypeAttributes(c *concepts.Type) bool =
  c != nil && (forall i in 0..len(c.attributes) {c.attributes[i]} :: c.attributes[i] != nil && wordsOk(c.attributes[i].name))

func "(*concepts.Type).Attributes" (c) -> (r)
  props P04
  requires c != nil
  is c.attributes
  nopanic

func "(*concepts.Type).AddAttribute" (c, x)
  props P04, P05
  requires okTypeAttributes(c) && (x != nil ==> wordsOk(x.name))
  modifies c.attributes, c.attributes[*], x.owner
  ensures [P05] nothing: x == nil ==> c.attributes == old(c.attributes)
  ensures [P05] owner: x != nil ==> x.owner == c
  ensures [P05] count: x != nil ==> len(c.attributes) == old(len(c.attributes)) + 1
  ensures [P05] added: x != nil ==> (exists i in 0..len(c.attributes) :: c.attributes[i] == x)
  ensures [P05] kept: forall j in 0..old(len(c.attributes)) {old(c.attributes[j])} :: (exists i in 0..len(c.attributes) :: c.attributes[i] == old(c.attributes[j]))
  ensures [P05] nothingElse: forall i in 0..len(c.attributes) {c.attributes[i]} :: c.attributes[i] == x || (exists j in 0..old(len(c.attributes)) :: c.attributes[i] == old(c.attributes[j]))
  ensures [P04] sorted: x != nil ==> (forall i in 0..len(c.attributes); j in 0..len(c.attributes) {c.attributes[i], c.attributes[j]} :: i < j ==> nameCmp(c.attributes[j].name, c.attributes[i].name) != -1)
  nopanic

define okTypeValues(c *concepts.Type) bool =
  c != nil && (forall i in 0..len(c.values) {c.values[i]} :: c.values[i] != nil && wordsOk(c.values[i].name))

func "(*concepts.Type).Values" (c) -> (r)
  props P04
  requires c != nil
  is c.values
  nopanic

func "(*concepts.Type).AddValue" (c, x)
  props P04, P05
  requires okTypeValues(c) && (x != nil ==> wordsOk(x.name))
  modifies c.values, c.values[*], x.typ
  ensures [P05] nothing: x == nil ==> c.values == old(c.values)
  ensures [P05] owner: x != nil ==> x.typ == c
  ensures [P05] count: x != nil ==> len(c.values) == old(len(c.values)) + 1
  ensures [P05] added: x != nil ==> (exists i in 0..len(c.values) :: c.values[i] == x)
  ensures [P05] kept: forall j in 0..old(len(c.values)) {old(c.values[j])} :: (exists i in 0..len(c.values) :: c.values[i] == old(c.values[j]))
  ensures [P05] nothingElse: forall i in 0..len(c.values) {c.values[i]} :: c.values[i] == x || (exists j in 0..old(len(c.values)) :: c.values[i] == old(c.values[j]))
  ensures [P04] sorted: x != nil ==> (forall i in 0..len(c.values); j in 0..len(c.values) {c.values[i], c.values[j]} :: i < j ==> nameCmp(c.values[j].name, c.values[i].name) != -1)
  nopanic

define okMethodParameters(c *concepts.Method) bool =
  c != nil && (forall i in 0..len(c.parameters) {c.parameters[i]} :: c.parameters[i] != nil && wordsOk(c.parameters[i].name))

func "(*concepts.Method).Parameters" (c) -> (r)
  props P04
  requires c != nil
  is c.parameters
  nopanic

func "(*concepts.Method).AddParameter" (c, x)
  props P04, P05
  requires okMethodParameters(c) && (x != nil ==> wordsOk(x.name))
  modifies c.parameters, c.parameters[*], x.owner
  ensures [P05] nothing: x == nil ==> c.parameters == old(c.parameters)
  ensures [P05] owner: x != nil ==> x.owner == c
  ensures [P05] count: x != nil ==> len(c.parameters) == old(len(c.parameters)) + 1
  ensures [P05] added: x != nil ==> (exists i in 0..len(c.parameters) :: c.parameters[i] == x)
  ensures [P05] kept: forall j in 0..old(len(c.parameters)) {old(c.parameters[j])} :: (exists i in 0..len(c.parameters) :: c.parameters[i] == old(c.parameters[j]))
  ensures [P05] nothingElse: forall i in 0..len(c.parameters) {c.parameters[i]} :: c.parameters[i] == x || (exists j in 0..old(len(c.parameters)) :: c.parameters[i] == old(c.parameters[j]))
  ensures [P04] sorted: x != nil ==> (forall i in 0..len(c.parameters); j in 0..len(c.parameters) {c.parameters[i], c.parameters[j]} :: i < j ==> nameCmp(c.parameters[j].name, c.parameters[i].name) != -1)
  nopanic

func "(*concepts.Resource).FindMethod" (c, name) -> (r)
  props P05
  requires okResourceMethods(c)
  ensures found: r != nil ==> nameEq(r.name, name) && (exists i in 0..len(c.methods) :: c.methods[i] == r)
  ensures notFound: r == nil ==> (forall i in 0..len(c.methods) {c.methods[i]} :: !nameEq(c.methods[i].name, name))
  inv (i: idx): forall j in 0..i {c.methods[j]} :: !nameEq(c.methods[j].name, name)
  nopanic

func "(*concepts.Type).FindAttribute" (c, name) -> (r)
  props P05
  requires okTypeAttributes(c)
  ensures found: r != nil ==> nameEq(r.name, name) && (exists i in 0..len(c.attributes) :: c.attributes[i] == r)
  ensures notFound: r == nil ==> (forall i in 0..len(c.attributes) {c.attributes[i]} :: !nameEq(c.attributes[i].name, name))
  inv (i: idx): forall j in 0..i {c.attributes[j]} :: !nameEq(c.attributes[j].name, name)
  nopanic

// the first parameter with the given name
rec firstParam(a seq *concepts.Parameter, n int, name *names.Name) *concepts.Parameter =
  n <= 0 ? nil : (firstParam(a, n - 1, name) != nil ? firstParam(a, n - 1, name) : (nameEq(a[n - 1].name, name) ? a[n - 1] : nil))
lemma firstParamFound(a seq *concepts.Parameter, n int, name *names.Name) induct n {firstParam(a, n, name)} :
  firstParam(a, n, name) != nil ==> (exists j in 0..n :: a[j] == firstParam(a, n, name))
lemma firstParamKept(a seq *concepts.Parameter, k int, n int, name *names.Name) induct n {firstParam(a, k, name), firstParam(a, n, name)} :
  0 <= k <= n && firstParam(a, k, name) != nil ==> firstParam(a, n, name) == firstParam(a, k, name)

lemma firstParamAt(a seq *concepts.Parameter, k int, n int, name *names.Name) induct n {firstParam(a, k, name), firstParam(a, n, name)} :
  0 <= k < n && firstParam(a, k, name) == nil && nameEq(a[k].name, name) && a[k] != nil ==> firstParam(a, n, name) == a[k]

func "(*concepts.Method).GetParameter" (c, name) -> (r)
  props P05
  requires okMethodParameters(c)
  ensures found: r != nil ==> nameEq(r.name, name) && (exists i in 0..len(c.parameters) :: c.parameters[i] == r)
  ensures notFound: r == nil ==> (forall i in 0..len(c.parameters) {c.parameters[i]} :: !nameEq(c.parameters[i].name, name))
  ensures first: name != nil ==> r == firstParam(elems(c.parameters), len(c.parameters), name)
  inv (i: idx): firstParam(elems(c.parameters), i, name) == nil
  inv (i: idx): forall j in 0..i {c.parameters[j]} :: !nameEq(c.parameters[j].name, name)
  nopanic
