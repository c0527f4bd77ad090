def na(id, title, statement, text, why, mech, reason, over=("inputs",)):
    files = []
    for _, f, _ in mech:
        if f not in files: files.append(f)
    NA.append({"prop": {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": n, "where": f"{f}: {w}"} for n, f, w in mech]}}, "reason": reason})
na("G01", "Dividing edges into shapes uses every edge once and joins at simple vertices",
   "Dividing a list of edges into shapes yields line strings that use every given edge (between distinct vertices) exactly once, end only at vertices that do not have exactly two edges or where they started, and whose vertices with other than two edges are the ones reported.",
   "all edge lists", "the tests divide a few fixed graphs; the walk depends on every incidence",
   [("division", SHAPE, "fn divide_into_shapes")],
   "the inputs are vertex indices that the code uses as bit positions, hash keys and loop bounds, so the symbolic scalar never meets a comparison to branch on and every path is a concrete graph, which would be enumeration; bounded model checking of the compiled code (Kani, with the real containers and with fixed-array models of them) did not finish symbolic execution: not one edge in ten minutes with the real containers or a modelled hash table, not two edges over four vertices in 25 minutes with every container modelled by a fixed array")
