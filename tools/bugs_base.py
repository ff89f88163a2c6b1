PRE = """use maybe_dns::*;
use maybe_dns::rdata::*;
use std::convert::TryFrom;
"""


def make(out):
    def bug(id, property, edits, needs, breaks, demo, features=(), extra=""):
        out.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                        demo="#![allow(unused_imports)]\n" + PRE + demo, features=list(features), extra=extra))
    return bug
