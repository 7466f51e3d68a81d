// Contracts of the reporter: errors are counted.

import reporter "github.com/openshift-online/ocm-api-metamodel/pkg/reporter"

func "(*reporter.Reporter).Errorf" (r, format, args) -> (e)
  props P10
  requires r != nil
  modifies r.errors, args[*]
  ensures counted: r.errors == old(r.errors) + 1
  ensures err: e != nil
  assumepre

func "(*reporter.Reporter).Infof" (r, format, args)
  props P10
  requires r != nil
  modifies args[*]
  assumepre

func "(*reporter.Reporter).Warnf" (r, format, args)
  props P10
  requires r != nil
  modifies args[*]
  assumepre

func "(*reporter.Reporter).Errors" (r) -> (n)
  props P10
  requires r != nil
  is r.errors
  nopanic

func "(names.Named).Name" (x) -> (n)
  props P10

extern func "errors.New" (text) -> (e)
  ensures e != nil
extern func "fmt.Errorf" (format, args) -> (e)
  ensures e != nil
