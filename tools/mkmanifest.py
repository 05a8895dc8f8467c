#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property of check.CHECKS, the rest of properties.jsonl as not_applicable"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check

ROOT = os.path.dirname(HERE)
SQL_T = "TLA+ specification (MidoriSQL) + TLC trace validation of recorded executions"
SQL_N = ("TLC judges every recorded statement (outcome, result set and the whole projected database) against the specification's Exec; "
         "bounded by the random histories of the property's workload. Trusts the driver's projection of the database.")
TECH = {
    "C20": ("TLA+ specification (MidoriSQL) + TLC trace validation of respelled statements",
            "The ASTs judged by TLC are written in random spellings; bounded by the generated histories and respellings."),
}
DS_N = ("Histories generated by TLC from the models and random ones run on the real container; TLC judges every answer and the whole content after every operation. "
        "Bounded by the generated histories; callers are assumed to respect the documented calling conditions.")
TECH["C16"] = ("TLA+ models of the map and of the B-tree algorithm (Containers, BTree) + TLC-generated transition-covering histories + TLC trace validation", DS_N)
TECH["C17"] = TECH["C18"] = ("TLA+ models of the containers (Containers) + TLC-generated exhaustive and random histories + TLC trace validation", DS_N)
TECH["C14"] = TECH["C15"] = ("TLA+ models of the row storage (Storage, StorageLayout) + histories walking every transition of the layout model + TLC trace validation",
                              "TLC judges every operation with the complete content of the table before and after it; bounded by the layout model's size (7 rows, up to 5 blocks) and the random histories.")
TECH["C19"] = ("TLA+ specification (MidoriSQL, ResourceTrace) + TLC trace validation of executions recorded with every allocation tracked",
               "After every statement TLC judges the number of blocks and bytes in use over repetitions of the statement and the blocks nothing refers to, also after statements that ran out of memory at a chosen allocation; bounded by the generated histories.")
TECH["C11"] = ("TLA+ specification (MidoriSQL) with a model of arithmetic expressions (ExprMC) whose every state is replayed + TLC trace validation of recorded executions",
               "Every expression of up to 3 operands (4 without signs) is run in INSERT, and the random histories of the workload; every value stored is judged by TLC. Trusts the driver's projection of the database.")
TECH["C08"] = ("TLA+ specification (MidoriSQL) with models of CREATE TABLE statements (CreateMC) and of databases (MidoriMC) that are replayed + TLC trace validation of recorded executions", SQL_N)
TECH["C24"] = ("TLA+ specification (MidoriSQL, ResourceTrace) + TLC trace validation of executions in which each allocation of a statement is refused in turn",
               "Success as specified or an error that leaves the tables intact (or with whole rows applied), and so for the statements that follow in the same process; in the quick tier every second or third allocation.")
TECH["C21"] = ("TLA+ specification (Concurrent over MidoriSQL) + TLC search for a linearization of every recorded run of real threads under controlled schedules",
               "Real threads switched at basic blocks and locks by a seeded scheduler; bounded by the generated programs (2 to 4 threads, up to 9 statements) and schedules.")
TECH.update(getattr(check, "TECH", {}))
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.CHECKS:
            t, n = TECH.get(i, (SQL_T, SQL_N))
            checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                               technique=t, level="model_checking", level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check yet: its part of the specification is still being written")))
    m = dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
             notes="see DESIGN.md; every check compiles /repo's working tree out of tree (harness/build.sh) and needs java (TLC), gcc, flex and bison only")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
