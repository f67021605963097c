#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification: contracts on the real source, symbolic execution to obligations, z3/cvc5 and an algebraic normaliser"
NOTE = {
    "C01": "all contracts discharged for every value, unit pair, container and length; numpy/scipy.constants under assumed contracts, floats as reals (executions cross-check)",
    "C02": "all contracts discharged for every name string, value and three-step history of conversions; floats as reals",
    "C03": "all contracts discharged for every range, request and unit pair; number of model terms bounded here (any number in C04); floats as reals",
    "C04": "all contracts discharged for every coefficient list (any number of terms) and wavelength; real powers as uninterpreted functions with their laws; floats as reals",
    "C05": "all contracts discharged for every real parameter and energy; log, arctan, sqrt uninterpreted with their laws; floats as reals",
    "C06": "all contracts discharged for tables of any length and every request; interp1d of order 2 and more under an assumed contract (uninterpreted), floats as reals",
    "C07": "all contracts discharged for every kind of material and request; complex square root under an assumed contract, floats as reals",
    "C08": "all contracts discharged for every kind of material and request of any length and for histories of two requests with an operation in between; longer histories in executions only; floats as reals",
    "C09": "all contracts discharged for every combination of arguments and every value; floats as reals",
    "C10": "all contracts discharged for every range (also from 0 and to infinity), kind of part and default unit; floats as reals",
    "C11": "all contracts discharged for data and requests of any length; the spline behind extrapolated points is an assumed contract (uninterpreted), floats as reals",
    "C12": "all contracts discharged for every pair of materials, spectrum length and fraction; complex square root under an assumed contract, floats as reals",
    "C13": "mixed: strictly increasing and decreasing tables and refusals proved for any length; the filter and the parser are bounded (symbolic values, tables of up to 4 rows) with executions on longer ones",
    "C14": "mixed: refusal of extensions proved; the round trip is bounded (symbolic values, tables of 2 and 3 rows, sample texts) with executions up to 1100 rows; savetxt/loadtxt/codecs under assumed contracts",
    "C15": "mixed, bounded: symbolic values, tables of 2 and 3 rows, sample texts, executions up to 1100 rows and 1200 coefficients; YAML load(dump(x)) = x and array2string under assumed contracts",
    "C16": "mixed: refusals proved; headers bounded (symbolic numbers, enumerated keys, types, units and orders) with executions over all spellings; YAML and loadtxt under assumed contracts",
    "C17": "all contracts discharged for catalogues of any number of rows, any distinct labels and any alias string (induction over one registration; rows of four kinds of files); pandas under assumed contracts",
    "C18": "mixed, bounded: symbolic numbers, all choices of modules, orders and rebuild arguments for small catalogues, one or two files per module; executions with up to four files and six rows; pandas, YAML and the file system under assumed contracts",
    "C19": "mixed, bounded: enumerated defects, file names and folder layouts with symbolic numbers; the file system is an assumed contract (executions use scratch folders)",
    "C20": "mixed: prompts and rebuild dialogues proved for every history of answers (partial correctness); installation of modules and the whole setup bounded (enumerated answers and folder layouts); GitPython replaced by a recording stand-in",
}
REASONS = {}


def main():
    sys.path.insert(0, ROOT)
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "contracts")) if f.startswith("c")}
    checks, na = [], []
    for i in ids:
        if i in have and i in NOTE:
            checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i,
                           "thorough_cmd": "python3-vt check.py %s thorough" % i, "technique": TECH,
                           "level": "exploration" if NOTE[i].startswith("bounded") else "other" if NOTE[i].startswith("mixed") else "proof", "level_note": NOTE[i]})
        else:
            na.append({"property": i, "reason": REASONS.get(i, "contracts not written yet")})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "no hooks in /repo; see DESIGN.md"}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not claimed")


main()
