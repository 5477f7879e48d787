"""Write CONTRACTS.md: every contract, the function it is on, its cases and its clauses' strength."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
import json
cs = check.load()
out = ["# Contracts", "", "Generated by `python3-vt spec/make_contracts_md.py`. *proved*: every obligation of the contract is discharged for all inputs of the stated cases;",
       "*bounded*: the contract is only evaluated on the real code with sampled inputs. A01 also checks the frame of every contract below, not only its own.", ""]
for prop in [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]:
    mine = [c for c in cs if c.prop == prop["id"]]
    if not mine:
        continue
    out += ["## %s %s" % (prop["id"], prop["title"]), "", "| contract | function | cases | deciding step |", "|---|---|---|---|"]
    for c in mine:
        out.append("| %s | `%s.%s` | %d | %s%s |" % (c.name, c.module.replace("algotom.", ""), c.func, len(c.cases), "bounded" if c.bounded else "proved",
                                                 " (thorough only)" if c.thorough_only else ""))
    out.append("")
open(os.path.join(HERE, "CONTRACTS.md"), "w").write("\n".join(out))
print(len(cs), "contracts;", sum(not c.bounded for c in cs), "proved;", sum(len(c.cases) for c in cs), "cases")
