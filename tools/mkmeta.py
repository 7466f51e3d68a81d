#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DED = "contract-based deductive verification (SSA of the real code to SMT, z3/cvc5)"

# id -> (title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)],
#        technique, level, level note)
T = {}


def prop(id, title, statement, over, text, why, files, mech, technique, level, note):
    T[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 technique=technique, level=level, note=note)


prop("P01", "Names have one equality and one order that agree",
     "Equality of names is an equivalence relation: two names are equal exactly when they have the same number of words and the words at each position have the same text and the same initialism flag, and no name equals the absence of a name. Comparison of names is a total order on the sequence of texts of the words: it compares the texts one by one, a name that is a proper prefix of another comes before it, and equal names compare as zero. Neither changes the names.",
     ["inputs"], "all names, of any number of words with any text",
     "Tests compare a few pairs; transitivity and totality quantify over all triples of names of any length.",
     ["pkg/names/name.go", "pkg/names/words.go"],
     [("Compare, Equals and the Less methods of the slices", "pkg/names")],
     DED + ", with concrete replay", "proof",
     "Every function involved is under contract and every obligation is discharged without bound; reflexivity, symmetry, antisymmetry and transitivity are lemmas over the contracts.")

prop("P02", "Names are composed and rendered from their words only",
     "Concatenating, appending and inserting give a new name that has exactly the words of the operands in sequence, and never alter the operands or any name made before, whatever compositions follow. The renderings depend on the words only: the snake form joins the words in lower case with underscores, the camel form joins the words with the first letter capitalized (an initialism is written as it is), and the joined forms put the given separator between the words converted to lower case, upper case or capitalized. The list of words that a name gives away is a copy.",
     ["inputs", "histories"], "all names of any length, and all sequences of compositions",
     "Aliasing between names shows only for particular sequences of compositions, that the tests don't sample.",
     ["pkg/names/name.go", "pkg/names/words.go"],
     [("Cat, Append, Insert, Words and the rendering methods", "pkg/names")],
     DED + ", with concrete replay", "proof",
     "Composition and rendering are under contract for all lengths; the conversion of letters (strings.ToLower, ToUpper, Title) and strings.Join are uninterpreted functions shared by contract and code.")

prop("P03", "Parsing an identifier loses nothing and splits at the documented places",
     "Parsing an identifier by case never loses, adds or reorders characters: for ASCII identifiers the words put together are, ignoring case, the identifier. The words start at the case transitions: an upper case letter followed by lower case letters is one word in lower case; a run of two or more upper case letters or digits is an initialism written as it is, including a single final 's' as its plural, but its last letter starts the next word when other lower case letters follow. Parsing by separator splits exactly at the separators, and both keep the original text.",
     ["inputs"], "all identifiers of ASCII letters, digits and underscores, of any length",
     "The parser is a state machine over runs of letters; the tests sample a handful of identifiers.",
     ["pkg/names/parser.go", "pkg/names/case.go"],
     [("ParseUsingCase, ParseUsingSeparator, parseWord", "pkg/names/parser.go")],
     DED + ", plus a bounded check of the rules of the split by case", "proof",
     "Proved for all lengths: the split by separator, that cutting at case transitions loses nothing, that every word is defined, absence of crashes. Bounded: the rules that join the pieces into words (all texts up to 5 characters over 6 characters, random ones up to 40).")

prop("P04", "Listings are sorted, complete and deterministic",
     "The lists of services, versions, types, resources and errors that a model gives have exactly the concepts that were added, each once, sorted by name, whatever the order in which they were added. Listing never changes the model, and changing the returned list doesn't either. The methods, locators, attributes and values sort by name with the same comparison, and the sort keeps all the elements.",
     ["inputs", "histories"], "all models with any number of concepts, added in any order",
     "Go maps iterate in random order, so a missing or wrong sort shows only in some runs and only with several concepts.",
     ["pkg/concepts/model.go", "pkg/concepts/service.go", "pkg/concepts/version.go", "pkg/concepts/type.go", "pkg/concepts/error.go"],
     [("Services, Versions, Types, Resources, Errors and the Less methods", "pkg/concepts")],
     DED + ", with concrete replay", "proof",
     "The listing functions and the comparison methods are under contract for any number of concepts and any iteration order of the maps; sort.Sort is assumed to sort when Less and Swap meet their contracts, which are proved.")

prop("P05", "What is added to a model is what is found in it",
     "A concept added to a model, service, version, type, resource or method is found by its name, belongs to its container, and replaces only the concept with the same name, if any; adding nothing is ignored, and searching a name that wasn't added finds nothing. Every property that is set on a concept is the one read back, and setting it changes no other property. The root resource of a version is the one named root, and the constant and variable locators of a resource are exactly those so marked, in order.",
     ["inputs", "histories"], "all sequences of additions and settings on any concept",
     "Tests build one model; the property is about all histories of additions, including repeated names and absent values.",
     ["pkg/concepts"],
     [("Add, Find, Set and Get methods of the concepts", "pkg/concepts")],
     DED + ", with concrete replay", "proof",
     "Getters, setters, additions and searches are under contract with frames; in attributes, values, locators, methods and parameters repeated names are kept and the first one is found, as in the code.")

prop("P06", "Methods, parameters and types are classified by name and kind",
     "A method is one of the nine standard ones (add, delete, asynchronous delete, get, list, post, search, update, asynchronous update) exactly when its whole name is that of the standard method, and it is an action exactly when it is none of them; a parameter is the items of a list or search, or the body of an add, get, search or (asynchronous) update, exactly when it has that name. A type is of a kind exactly when that kind was set, classes are also structs, and scalars are the scalar, enumerated and interface kinds. A version starts with exactly the seven built-in types and their lists, and a type is a built-in one exactly when it is the one that its version holds under that name.",
     ["inputs"], "all names of methods and parameters, all kinds of types, all versions",
     "Tests classify a few methods; similar names, like prefixes or reversed words, must be classified for all names.",
     ["pkg/concepts/method.go", "pkg/concepts/parameter.go", "pkg/concepts/type.go", "pkg/concepts/version.go", "pkg/nomenclator/nomenclator.go"],
     [("Is... methods of Method, Parameter and Type; built-in types of Version", "pkg/concepts")],
     DED + ", with concrete replay", "proof",
     "All the predicates are under contract for all names; the value of the constants in the nomenclator package are facts read from the running code by the harness on every run; the built-in types of a new version are decided by a concrete run (there is only one input).")

prop("P07", "Every method and parameter has one well defined place in HTTP",
     "Each method has one verb and one success status fixed by its standard name (201 for add and post, 202 for the asynchronous ones, 204 for delete, 200 otherwise), and a URL segment only if it is an action. Each input parameter is sent exactly once: in the query if it is scalar and the method isn't an action, in the body otherwise; each output parameter is in the response body; order is kept. The names of fields, parameters, values and segments are those of the first annotation that applies (JSON for fields, values and body parameters; HTTP, then JSON, for query parameters; HTTP for segments), or else the snake form of the name.",
     ["inputs", "programs"], "all methods, with any number of parameters of any kind, direction and annotations",
     "Combinations of kind, direction, method and annotation are unbounded; the tests sample a few.",
     ["pkg/http/binding_calculator.go", "pkg/annotations/annotations.go"],
     [("BindingCalculator", "pkg/http/binding_calculator.go")],
     DED + ", with concrete replay", "proof",
     "All the calculations are under contract, for any number of parameters and annotations.")

prop("P08", "Models that break the conventions of methods are rejected, others aren't",
     "A version is accepted only if it has a resource named root and all its methods meet the conventions, and it isn't rejected for any other reason related to them. The conventions are: add has only scalars and exactly one struct, the in and out body; delete (also asynchronous) has only input scalars; get has input scalars and exactly one struct, the output body; list has scalars and exactly one list, the output items, and if it has page and size they are in and out integers with default values 1 and 100, and total is an output integer; post has at most one input and exactly one output, all structs; search is as list, plus exactly one input struct, the body; update (also asynchronous) has input scalars and exactly one struct or list, the in and out body; actions have none. Default values have the type of their parameter.",
     ["inputs", "programs"], "all models, with any number of methods and parameters of any type, direction, name and default",
     "The combinations of parameters are unbounded; the tests sample one mistake of each kind at most.",
     ["pkg/language/reader.go", "pkg/language/checks.go", "pkg/nomenclator/nomenclator.go"],
     [("check* methods of Reader", "pkg/language")],
     DED + ", with concrete replay", "proof",
     "Every check function is under contract, for any number of methods and parameters: it reports an error if and only if the convention is broken; proved up to the whole model. The shape of the model that the reader builds (no absent types or names) is a precondition.")

prop("P09", "Loops of locators are rejected, and paths are all the ways from the root",
     "A model is rejected for its locators exactly when, in some version, following locators from the root resource can come back to a resource where it already was; loops that the root doesn't reach don't matter, and the check always ends. In accepted models the paths of a version are all the sequences of locators that start at the root and follow targets, each exactly once, and each result is independent of the others.",
     ["inputs", "programs"], "all graphs of resources and locators",
     "Whether a loop is reachable depends on the whole graph; the tests have one or two small graphs.",
     ["pkg/language/checks.go", "pkg/concepts/version.go"],
     [("checkLocatorLoops, checkLocatorPathLoops", "pkg/language"), ("Version.Paths", "pkg/concepts/version.go")],
     DED + ", plus a bounded check of Version.Paths", "proof",
     "The check of loops is under contract for graphs of any size, both directions. Each path of Version.Paths is proved to be a walk from the root. Bounded: that none is missing, and termination, on all graphs of 3 resources and random ones of up to 7.")

prop("P10", "Errors are counted, reported, and stop everything",
     "Each error reported is written once to the error stream and counted once, and messages of other kinds are never counted. Reading gives a model exactly when no error was reported by then, and otherwise an error and no model. The commands exit with zero exactly when everything worked: with an invalid model, a missing mandatory option or an output that can't be written they exit with a non-zero code, and with an invalid model or a missing option they write no file.",
     ["inputs", "histories", "fault_sequences"], "all sequences of messages, all models, all options",
     "An error that is reported but doesn't stop the generation shows only with inputs that have that error.",
     ["pkg/reporter/reporter.go", "pkg/language/reader.go", "pkg/language/errors.go", "cmd/metamodel"],
     [("Reporter", "pkg/reporter/reporter.go"), ("Reader.Read and the load functions", "pkg/language/reader.go"), ("commands", "cmd/metamodel")],
     DED + ", plus a bounded check of the commands", "proof",
     "The reporter, Read and the functions that load directories are under contract, with the walk of the syntax tree assumed not to replace the reporter. Bounded: the text in the streams and the behaviour of the commands (exit codes, files written).")

prop("P11", "References resolve to one definition, whatever the order and the files",
     "The model that is read doesn't depend on the order of the declarations, on the files of the version that contain them, or on the directories given as inputs. Each reference to a type or resource, before or after the declaration, gives the one concept with that name of the same version; list and map types are created once, and each type has its list type, and a class that refers to a type of another service gets its attributes and the types that they need. Models with a type, resource or error declared twice in a version, a built-in type declared, an undefined type or resource, a locator without target, a number that doesn't fit, or anything that isn't in the syntax, are rejected.",
     ["inputs", "programs"], "all models and all ways of writing them in files",
     "The resolution depends on the order in which declarations and references are seen; tests use a fixed order.",
     ["pkg/language/reader.go", "pkg/concepts/version.go"],
     [("Exit* methods, undefined concepts and references", "pkg/language/reader.go")],
     DED + " of the methods of the reader that resolve references and declare concepts, plus a bounded check of whole models", "exploration",
     "Proved for all names and states of the reader: a reference gives the one concept with that name of the version, created undefined when there is none; list and map types are created once with their element and index; a declaration of something defined adds exactly one error and changes nothing, and any other completes the only concept with that name; a locator without target and a number that doesn't fit are errors. Bounded: whole models (random ones written in random layouts, and models with one injected fault), classes taken from other services, the check of what is still undefined at the end.")

prop("P12", "Each declaration has its own documentation and annotations",
     "The documentation of a declaration is the text of the lines of comments immediately before it, or nothing if there is none, without the mark of comment and without the indentation of the first line; a line indented less is an error. Comments separated by anything else, and those of other declarations or files, are never used. The annotations of a declaration are those written before it, in order, with the values written for their parameters, and the first one with a given name is the one used.",
     ["inputs", "programs"], "all layouts of comments, annotations and declarations",
     "Mixing up comments depends on the lines where they are, that tests fix.",
     ["pkg/language/reader.go", "pkg/annotations/annotations.go", "pkg/concepts/annotated.go"],
     [("getDoc, addAnnotations, Exit* methods", "pkg/language/reader.go")],
     DED + " of the methods of the reader for documentation, annotations, declarations and literals, plus a bounded check of whole models", "proof",
     "Proved for all comments, lines, annotations and members: the documentation is the run of comments immediately before the token, without mark and indentation, those comments are removed and no other changes, and it is set only in the declaration; annotations are added in order with the parameters written; members, kinds, codes and literals are those of the nodes. Bounded: how the lexer gives the comments to the reader, the walk of the tree by ANTLR, classes taken from other services.")

GEN = "contract-based deductive verification of the code that the generator writes"

prop("P13", "Generated objects hold exactly what was set, and copies are equal",
     "An object made with the generated builders has exactly the attributes that were set, each with the last value given, whatever their number, kind and order: its getters give that value, and the zero value and no presence for the other attributes and for an absent object. Copying an object into a builder and building again gives another object with the same content, and neither the original nor objects built before change when builders are used again. An object is empty exactly when nothing was set, its kind tells objects, links and absence, and lists keep exactly the items given, in order.",
     ["inputs", "programs", "histories"], "all models with structs of up to 64 flags, attributes of all kinds, all values and all sequences of settings",
     "The tests compile the code for one model; the generated code depends on the number, kind and position of the attributes.",
     ["pkg/generators/golang/types_generator.go", "pkg/generators/golang/builders_generator.go", "pkg/generators/golang/types_calculator.go"],
     [("TypesGenerator and BuildersGenerator", "pkg/generators/golang")],
     GEN + ", plus a bounded check of generated code for random models", "translation_validation",
     "The code generated by the current tree for a model with all the kinds of attributes in classes and structs of up to 64 flags is verified function by function, for all the values: getters, setters, Build, Copy, Empty, Kind, Link and lists. Other models: bounded, random models compiled and run.")

prop("P14", "Generated JSON code writes exactly the content and reads it back",
     "The JSON written for an object has exactly the attributes that the object has, with the names given by the binding and the values in the form of their type (links, identifiers and references of classes included), and reading it gives an object with the same content. Reading accepts fields in any order and ignores those unknown, and gives exactly the attributes that the document has. Truncated documents, values of the wrong type, unsupported sources and failures to write are reported as errors, never lost.",
     ["inputs", "programs"], "all models, all values of their types, all JSON documents for them",
     "The tests marshal a few objects of one model; names, kinds, nesting and presence combine without limit.",
     ["pkg/generators/golang/json_generator.go", "pkg/generators/golang/helpers_generator.go"],
     [("JSONSupportGenerator", "pkg/generators/golang/json_generator.go")],
     GEN + " (the JSON library under assumed contracts), plus a bounded check of generated code for random models", "translation_validation",
     "The writers and readers of objects and lists generated by the current tree for a model with all the kinds of attributes are verified function by function, for all objects and all documents: tokens and separators written, attributes read, documents and errors of Marshal and Unmarshal. Bounded: attributes that are maps, recursive structs, the content of interfaces, and other models (random models compiled and run).")

prop("P15", "Generated clients send and receive what the binding says",
     "Each request of the generated clients is sent exactly once, with the verb of the method, the path made of the locators and of the action, and each input parameter that was set in its place (query or body) with its name and value, and with the headers, parameters and context given, and no other. Each output parameter of a successful response is read back, those not received have the zero value, an error sent by the server is returned with its status and content, and the failures of the transport and responses that can't be read are returned as errors. Polling repeats the request until a response has an expected status and satisfies all the predicates, or the context finishes, and needs a deadline and an interval.",
     ["inputs", "programs", "schedules"], "all models with any methods and parameters, all values, all responses",
     "The tests send a few requests of one model; the code depends on the methods, their parameters and the locators.",
     ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/helpers_generator.go", "pkg/generators/golang/errors_generator.go"],
     [("ClientsGenerator, HelpersGenerator, ErrorsGenerator", "pkg/generators/golang")],
     GEN + " (net/http and the JSON library under assumed contracts), plus a bounded check of generated code for random models", "translation_validation",
     "The clients generated by the current tree for a model with all the kinds of methods and parameters are verified function by function, for all parameters, headers, contexts and answers of the transport: requests made by the locators and methods, setters, getters, payloads written, responses read, Send and SendContext (one request, with that verb, path, query, headers, context and payload; what each outcome of the transport returns), the task and setters of Poll, and the helpers that copy and add values. Bounded: the loop of Poll, metadata, decoding of errors, parameters that are maps, the content of interfaces, and other models (random models compiled and run against a recording transport).")

prop("P16", "Each type of the model has exactly one Go representation",
     "Each type of the model is represented in Go by one reference (import path, selector, name and text) that depends only on the type: Boolean, Integer, Long, Float, String, Date and Interface are bool, int, int64, float64, string, time.Time and interface{}, enumerated types, structs and classes are the Go type with their public name, or the name given by the go annotation, in the package of their version, a list or map is the slice or the map with string keys of its element, and the references to nullable values, structs, lists and builders add to that name only the pointer and the suffixes List and Builder. The type of the flags of a struct is the smallest of uint32 and uint64 with room for one flag per attribute (plus three for classes), the mask of each attribute is a different bit of it, and the zero value is that of the type. A type that has no representation, and only it, is reported as exactly one error.",
     ["inputs", "programs"], "all types of all models, with any name, kind, element, annotation and number of attributes",
     "The combinations of kind, element and annotation are many, and the tests compile the code of one model only.",
     ["pkg/generators/golang/types_calculator.go"],
     [("TypesCalculator and TypeReference", "pkg/generators/golang/types_calculator.go")],
     DED + ", with concrete replay", "proof",
     "All the functions that calculate references are under contract for all types; lists and maps of lists or maps have no representation. BitMask is proved to be the bit of the position of the attribute.")

prop("P17", "Go names, files and packages are calculated from the names of the model",
     "The public Go name is the words of the name capitalized and joined, and the private one is the same with the first word in lower case; a result that is a reserved word of Go, and only it, gets an underscore at the end, so that it is never a reserved word. The names of files are the words in lower case joined with underscores. The package of a service is its name in lower case without separators, that of a version adds that of the version, the helpers, errors and metrics have their own packages, and the import path of each package is the base followed by the package, and the selector its last segment.",
     ["inputs"], "all names, services, versions and base paths",
     "Tests try a few names; reserved words and compositions must be right for all of them.",
     ["pkg/generators/golang/names_calculator.go", "pkg/generators/golang/packages_calculator.go", "pkg/generators/golang/reserved_words.go"],
     [("NamesCalculator, PackagesCalculator, AvoidReservedWord", "pkg/generators/golang")],
     DED + ", with concrete replay", "proof",
     "All the functions are under contract for all names; the table of reserved words is a fact read from the running code by the harness; path.Join and path.Base are uninterpreted functions.")

prop("P18", "The OpenAPI specification describes exactly the API of the model",
     "For each version of a valid model there is one file with a JSON document without repeated fields, that has one path for each way of reaching a resource through locators (variables between braces) and one for each of its actions, and in them one operation for each method with its verb, documentation, path and query parameters, request body, success status and response, all with the names and places of the binding; the root also has the metadata unless it has its own retrieval. It has one schema for each enumerated type, struct and class, with all its values or attributes, their types, names and documentation, and every reference is to one of those schemas. The same model, however it is written, always gives the same bytes, the Go source has exactly these bytes, and nothing is written when there are errors.",
     ["inputs", "programs"], "all valid models where the methods of a resource without their own segment have different verbs",
     "The tests generate one specification and don't compare it with the model.",
     ["pkg/generators/openapi/openapi_generator.go", "pkg/generators/openapi/buffer.go", "pkg/generators/openapi/names_calculator.go", "pkg/generators/golang/openapi_generator.go"],
     [("OpenAPIGenerator, Buffer and NamesCalculator", "pkg/generators/openapi")],
     DED + ", plus a bounded check of the complete specifications", "proof",
     "The functions that write descriptions, references, schemas, parameters, responses, methods and the paths of a resource are under contract for any model: the text that they add to the buffer is a function of the model, defined in the contracts. Bounded: the order of paths and schemas, the complete document and the files, with random models written in random layouts compared with an independent calculation of the specification.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for id, t in T.items():
            assert len(t["title"]) <= 80, (id, len(t["title"]))
            n = t["statement"].count(". ") + 1
            if n > 3:
                print(id, "has", n, "sentences")
            f.write(json.dumps({
                "id": id, "title": t["title"], "statement": t["statement"],
                "quantifier": {"over": t["over"], "text": t["text"]},
                "why_tests_cant": t["why"],
                "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]]},
            }) + "\n")
    checks, na = [], []
    for id, t in T.items():
        if t["level"] is None:
            na.append({"property": id, "reason": t["note"]})
            continue
        checks.append({
            "property": id,
            "quick_cmd": "python3 check.py %s quick" % id,
            "thorough_cmd": "python3 check.py %s thorough" % id,
            "technique": t["technique"], "level": t["level"], "level_note": t["note"],
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "none", "enable": "no hooks are needed: the contracts are kept in /verif/contracts and bound to the functions of /repo by name", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "see DESIGN.md; fixes made in /repo are listed in known-findings.txt",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
