// Contracts of the additions of several concepts at once.

// ---- additions of several concepts ----

rec lastService(a seq *concepts.Service, n int, k string) *concepts.Service =
  n <= 0 ? nil : (a[n - 1] != nil && nameText(a[n - 1].name) == k ? a[n - 1] : lastService(a, n - 1, k))
func "(*concepts.Model).AddServices" (c, xs)
  props P05
  requires c != nil && c.services != nil && (forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> wordsOk(xs[i].name))
  modifies everything
  ensures held: forall k string {c.services[k]} :: c.services[k] == (old(lastService(elems(xs), len(xs), k)) != nil ? old(lastService(elems(xs), len(xs), k)) : old(c.services[k]))
  ensures present: forall k string {has(c.services, k)} :: has(c.services, k) <==> old(has(c.services, k)) || old(lastService(elems(xs), len(xs), k)) != nil
  ensures owner: forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> xs[i].owner == c
  ensures same: c.services == old(c.services)
  inv (i: idx): forall k string {c.services[k]} :: c.services[k] == (old(lastService(elems(xs), i, k)) != nil ? old(lastService(elems(xs), i, k)) : old(c.services[k]))
  inv (i: idx): forall k string {has(c.services, k)} :: has(c.services, k) <==> old(has(c.services, k)) || old(lastService(elems(xs), i, k)) != nil
  inv (i: idx): forall j in 0..i {xs[j]} :: xs[j] != nil ==> xs[j].owner == c
  nopanic

rec lastVersion(a seq *concepts.Version, n int, k string) *concepts.Version =
  n <= 0 ? nil : (a[n - 1] != nil && nameText(a[n - 1].name) == k ? a[n - 1] : lastVersion(a, n - 1, k))
func "(*concepts.Service).AddVersions" (c, xs)
  props P05
  requires c != nil && c.versions != nil && (forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> wordsOk(xs[i].name))
  modifies everything
  ensures held: forall k string {c.versions[k]} :: c.versions[k] == (old(lastVersion(elems(xs), len(xs), k)) != nil ? old(lastVersion(elems(xs), len(xs), k)) : old(c.versions[k]))
  ensures present: forall k string {has(c.versions, k)} :: has(c.versions, k) <==> old(has(c.versions, k)) || old(lastVersion(elems(xs), len(xs), k)) != nil
  ensures owner: forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> xs[i].owner == c
  ensures same: c.versions == old(c.versions)
  inv (i: idx): forall k string {c.versions[k]} :: c.versions[k] == (old(lastVersion(elems(xs), i, k)) != nil ? old(lastVersion(elems(xs), i, k)) : old(c.versions[k]))
  inv (i: idx): forall k string {has(c.versions, k)} :: has(c.versions, k) <==> old(has(c.versions, k)) || old(lastVersion(elems(xs), i, k)) != nil
  inv (i: idx): forall j in 0..i {xs[j]} :: xs[j] != nil ==> xs[j].owner == c
  nopanic

rec lastType(a seq *concepts.Type, n int, k string) *concepts.Type =
  n <= 0 ? nil : (a[n - 1] != nil && nameText(a[n - 1].name) == k ? a[n - 1] : lastType(a, n - 1, k))
func "(*concepts.Version).AddTypes" (c, xs)
  props P05
  requires c != nil && c.types != nil && (forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> wordsOk(xs[i].name))
  modifies everything
  ensures held: forall k string {c.types[k]} :: c.types[k] == (old(lastType(elems(xs), len(xs), k)) != nil ? old(lastType(elems(xs), len(xs), k)) : old(c.types[k]))
  ensures present: forall k string {has(c.types, k)} :: has(c.types, k) <==> old(has(c.types, k)) || old(lastType(elems(xs), len(xs), k)) != nil
  ensures owner: forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> xs[i].owner == c
  ensures same: c.types == old(c.types)
  inv (i: idx): forall k string {c.types[k]} :: c.types[k] == (old(lastType(elems(xs), i, k)) != nil ? old(lastType(elems(xs), i, k)) : old(c.types[k]))
  inv (i: idx): forall k string {has(c.types, k)} :: has(c.types, k) <==> old(has(c.types, k)) || old(lastType(elems(xs), i, k)) != nil
  inv (i: idx): forall j in 0..i {xs[j]} :: xs[j] != nil ==> xs[j].owner == c
  nopanic

rec lastResource(a seq *concepts.Resource, n int, k string) *concepts.Resource =
  n <= 0 ? nil : (a[n - 1] != nil && nameText(a[n - 1].name) == k ? a[n - 1] : lastResource(a, n - 1, k))
func "(*concepts.Version).AddResources" (c, xs)
  props P05
  requires c != nil && c.resources != nil && (forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> wordsOk(xs[i].name))
  modifies everything
  ensures held: forall k string {c.resources[k]} :: c.resources[k] == (old(lastResource(elems(xs), len(xs), k)) != nil ? old(lastResource(elems(xs), len(xs), k)) : old(c.resources[k]))
  ensures present: forall k string {has(c.resources, k)} :: has(c.resources, k) <==> old(has(c.resources, k)) || old(lastResource(elems(xs), len(xs), k)) != nil
  ensures owner: forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> xs[i].owner == c
  ensures same: c.resources == old(c.resources)
  inv (i: idx): forall k string {c.resources[k]} :: c.resources[k] == (old(lastResource(elems(xs), i, k)) != nil ? old(lastResource(elems(xs), i, k)) : old(c.resources[k]))
  inv (i: idx): forall k string {has(c.resources, k)} :: has(c.resources, k) <==> old(has(c.resources, k)) || old(lastResource(elems(xs), i, k)) != nil
  inv (i: idx): forall j in 0..i {xs[j]} :: xs[j] != nil ==> xs[j].owner == c
  nopanic

rec lastError(a seq *concepts.Error, n int, k string) *concepts.Error =
  n <= 0 ? nil : (a[n - 1] != nil && nameText(a[n - 1].name) == k ? a[n - 1] : lastError(a, n - 1, k))
func "(*concepts.Version).AddErrors" (c, xs)
  props P05
  requires c != nil && c.errors != nil && (forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> wordsOk(xs[i].name))
  modifies everything
  ensures held: forall k string {c.errors[k]} :: c.errors[k] == (old(lastError(elems(xs), len(xs), k)) != nil ? old(lastError(elems(xs), len(xs), k)) : old(c.errors[k]))
  ensures present: forall k string {has(c.errors, k)} :: has(c.errors, k) <==> old(has(c.errors, k)) || old(lastError(elems(xs), len(xs), k)) != nil
  ensures owner: forall i in 0..len(xs) {xs[i]} :: xs[i] != nil ==> xs[i].owner == c
  ensures same: c.errors == old(c.errors)
  inv (i: idx): forall k string {c.errors[k]} :: c.errors[k] == (old(lastError(elems(xs), i, k)) != nil ? old(lastError(elems(xs), i, k)) : old(c.errors[k]))
  inv (i: idx): forall k string {has(c.errors, k)} :: has(c.errors, k) <==> old(has(c.errors, k)) || old(lastError(elems(xs), i, k)) != nil
  inv (i: idx): forall j in 0..i {xs[j]} :: xs[j] != nil ==> xs[j].owner == c
  nopanic
