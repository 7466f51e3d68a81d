"""Configuration of the checks."""
PROPS = {
    "P01": {"title": "order and equality of names", "harness": ["p01"]},
    "P02": {"title": "composition and rendering of names", "harness": ["p02"]},
    "P03": {"title": "parsing of names", "harness": ["p03"]},
    "P04": {"title": "listings", "harness": ["p04"]},
    "P05": {"title": "containers", "harness": ["p05"]},
    "P06": {"title": "classification", "harness": ["p06"]},
    "P07": {"title": "HTTP binding", "harness": ["p07"]},
    "P08": {"title": "conventions of methods", "harness": ["p08"]},
    "P09": {"title": "loops and paths of locators", "harness": ["p09"]},
    "P10": {"title": "reporting of errors", "harness": ["p10"]},
    "P11": {"title": "resolution of references", "harness": ["p11"], "level": "exploration",
            "assumptions": ["ANTLR calls the methods of the reader once for each node, after those of the nodes below it, with the nodes of the types of the grammar"]},
    "P12": {"title": "documentation and annotations", "harness": ["p12"],
            "assumptions": ["ANTLR calls the methods of the reader once for each node, after those of the nodes below it, with the nodes of the types of the grammar",
                            "how the lexer gives the lines of comments to the reader, and classes taken from other services, are checked only by the harness"]},
    "P13": {"title": "generated objects", "verify": [{"generate": True}], "harness": ["p13"], "level": "translation_validation",
            "assumptions": ["the generator is checked through the code that it writes for one model with all the kinds of attributes and up to 64 flags, and for random models in the harness",
                            "the builders put in the lists of a builder are not absent"]},
    "P14": {"title": "JSON of generated objects", "verify": [{"generate": True, "json": True}], "harness": ["p14"], "level": "translation_validation",
            "assumptions": ["the generator is checked through the code that it writes for one model with all the kinds of attributes and up to 64 flags, and for random models in the harness",
                            "contracts of the JSON streams and iterators of jsoniter and helpers are assumed: the sequence of tokens of a document, and the values, fields and items at each position of it",
                            "the content of attributes of type interface that are read, and attributes that are maps, are checked only by the harness"]},
    "P15": {"title": "generated clients", "verify": [{"generate": True, "json": True, "clients": True}], "harness": ["p15"], "level": "translation_validation",
            "assumptions": ["the generator is checked through the code that it writes for one model with all the kinds of methods and of parameters, and for random models in the harness",
                            "contracts of net/http, net/url, io, bufio and path are assumed: a request is sent by RoundTrip and only there, what the body of the request gives is what was written to the buffer that it reads, and the names of headers and query parameters are independent",
                            "contracts of the JSON streams and iterators of jsoniter and helpers are assumed, as in P14; those of the documents of the types are proved by the check of P14, and that of the decoding of errors is assumed",
                            "parameters that are maps, and the content of those of type interface that are received, are checked only by the harness; so are Poll, the metadata and Send without context"]},
    "P16": {"title": "Go representation of types", "harness": ["p16"]},
    "P17": {"title": "Go names and packages", "harness": ["p17"]},
    "P18": {"title": "OpenAPI specifications", "harness": ["p18"]},
}
