// Contracts of the reader: the model is given only when there are no errors.

// The walk of the tree built by ANTLR isn't followed: it is assumed that it doesn't replace the
// reporter or the model, and that the reporter doesn't forget errors. The methods that the walk calls
// can only use the reporter through Errorf, whose contract is proved.
extern func "(*language.Reader).loadFile" (r, path)
  requires r != nil && r.reporter != nil
  modifies everything
  ensures r.reporter == old(r.reporter) && r.model == old(r.model) && r.reporter.errors >= old(r.reporter.errors)

define keepsReporter(r *language.Reader) bool =
  r.reporter == old(r.reporter) && r.model == old(r.model) && r.reporter.errors >= old(r.reporter.errors)

func "(*language.Reader).loadVersion" (r, dir)
  props P10
  requires r != nil && r.reporter != nil && r.model != nil
  modifies everything
  ensures kept: keepsReporter(r)
  inv keepsReporter(r)
  assumepre

func "(*language.Reader).loadService" (r, dir)
  props P10
  requires r != nil && r.reporter != nil && r.model != nil
  modifies everything
  ensures kept: keepsReporter(r)
  inv keepsReporter(r)
  assumepre

func "(*language.Reader).loadModel" (r, dir)
  props P10
  requires r != nil && r.reporter != nil && r.model != nil
  modifies everything
  ensures kept: keepsReporter(r)
  inv keepsReporter(r)

func "(*language.Reader).Read" (r) -> (model, err)
  props P10
  requires r != nil
  modifies everything
  ensures reporter: old(r.reporter) == nil ==> err != nil
  ensures gate: err == nil <==> model != nil
  ensures clean: old(r.reporter) != nil && old(r.reporter.errors) >= 0 && err == nil ==> old(r.reporter).errors == 0
  ensures given: old(r.reporter) != nil && old(r.reporter).errors == 0 ==> err == nil
  ensures kept: old(r.reporter) != nil ==> r.reporter == old(r.reporter) && r.reporter.errors >= old(r.reporter.errors)
  inv r.model == atloop(r.model) && r.model != nil
  inv r.reporter == old(r.reporter) && r.reporter != nil && r.reporter.errors >= old(r.reporter.errors)
  assumepre

func "(*language.ErrorListener).SyntaxError" (l, p, symbol, line, column, message, e)
  props P10
  requires l != nil && l.reporter != nil
  modifies l.reporter.errors
  ensures counted: l.reporter.errors == old(l.reporter.errors) + 1
