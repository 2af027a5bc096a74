#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list of properties."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BF, WD, RG, MM = ("h800/bitfield.py", "h800/word.py", "h800/registers.py", "h800/memory.py")
IN, IS = "h800/instruction.py", "h800/instructions.py"
PC, AC, ST, CS = ("h800/punchcard.py", "h800/arguscard.py", "h800/symbol_table.py",
                  "h800/charset.py")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level="proof",
         note=None, technique=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": list(files),
                 "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                 "observe_at": list(observe), "hook_needed": None},
        level=level, note=note, technique=technique))


BFSTATE = [("BitField", "an unsigned value of a fixed width with a bit numbering scheme and "
            "order", BF)]

prop("C01", "Bit-field reads return exactly the addressed bits",
     "For a bit-field of any width from 1 to 64 bits, any numbering scheme and any bit order, reading "
     "bit n or bits a..b (bounds inclusive, given left to right) returns exactly the bits of the current value "
     "that the scheme places there, with the more significant bit the more significant in the result. "
     "Reading the whole value, the integer conversion, the width, the length, the largest value, the "
     "numbering and the order never changes the field. An index outside the field, or a range that is empty, "
     "reversed or not inside it, is rejected with ValueError.",
     ["inputs", "configurations", "histories"],
     "every value, width 1..64, every numbering scheme, both orders, every int index and range, "
     "after any history of operations",
     "The tests read a few hand-picked positions of 8-, 24- and 48-bit fields; the schemes, orders, "
     "widths and positions multiply to far more than they sample.",
     [BF], [("BitField.__getitem__ and its index translation", BF)], BFSTATE,
     ["BitField indexing and slicing", "value / int() / len()"])
prop("C02", "Bit-field writes change exactly the addressed bits",
     "Writing a value that fits to bit n or bits a..b stores exactly that value in exactly those bits, "
     "and every other bit of the field keeps its value; assigning the whole value replaces it. A value that does "
     "not fit, a negative value, or a position outside the field is rejected with ValueError and the field "
     "is left unchanged.",
     ["inputs", "configurations", "histories"],
     "every field content, width 1..64, numbering, order, position or range and value (any int)",
     "Tests write a handful of constants to fields that mostly contain zeros; damage to neighbouring "
     "bits or mis-sized values on other shapes is not sampled.",
     [BF], [("BitField.__setitem__, value setter, value check, masks", BF)], BFSTATE,
     ["BitField item and slice assignment", "value assignment"])
prop("C03", "Bit-field construction accepts exactly the representable values",
     "A bit-field can be created exactly when the initial value lies in 0..2^width-1 and the numbering and order "
     "are known, and it then reads back that value; otherwise creation is rejected. Defaults "
     "(48 bits, MSB numbered 1, MSB on the left) apply when arguments are omitted.",
     ["inputs", "configurations"],
     "every int initial value, width, numbering and order argument",
     "Tests construct a few valid fields; no test reaches negative or oversized initial values or each "
     "width.",
     [BF], [("BitField.__init__", BF)], BFSTATE, ["BitField(...)"])
prop("C04", "Bit numbering is a bijection between indices and bit positions",
     "In every numbering scheme and bit order, the valid indices of a width-w field are exactly w "
     "consecutive integers in one-to-one correspondence with the w bits; the list of indices, the "
     "index of the least significant bit and the index of the most significant bit agree with that "
     "correspondence and with single-bit reads and writes.",
     ["inputs", "configurations"],
     "every width 1..64, numbering, order and int index",
     "Tests check the index lists of single examples.",
     [BF], [("BitField.indices, lsb, msb, index translation", BF)], BFSTATE,
     ["BitField.indices(), lsb(), msb(), [i]"])
prop("C05", "Set, clear and the bit predicates agree with the bits",
     "Setting or clearing one bit (index 0 included) or all bits changes exactly those bits; the "
     "single-bit and range predicates are true exactly when the addressed bits have the stated value; "
     "predicates never change the field, and positions outside it are rejected.",
     ["inputs", "configurations", "histories"],
     "every field content, shape, bit index, range and comparison value",
     "Tests use few indices, and a predicate wrong for one shape or for ranges of one bit is not "
     "sampled.",
     [BF], [("BitField.set, clear, isSet/isClr/isRange*", BF)], BFSTATE,
     ["set(), clear(), is*() of BitField"])
prop("C06", "A 48-bit word stores any 48-bit value and exposes its bits 1..48",
     "A word holds exactly the values 0..2^48-1, reads back what was last stored, and its bits and bit ranges are "
     "numbered 1 (most significant) to 48; writing a range changes only that range; values outside the "
     "range are rejected without change.",
     ["inputs", "histories"],
     "every 48-bit content, every int value, bit and range",
     "Tests store a few constants.",
     [WD, BF], [("Word, delegating to a 48-bit BitField", WD)],
     [("Word", "48-bit machine word", WD)], ["Word"])
prop("C07", "Instruction-word fields are independent and cover the word",
     "An instruction word consists of a 12-bit command code and three 12-bit address fields; setting "
     "any one of them to a 12-bit value is reflected by reading that field and in the corresponding "
     "bits of the whole word, and leaves the other three untouched. Values that do not fit are "
     "rejected without change.",
     ["inputs", "histories"],
     "every word content and every int assigned to each field",
     "Tests set one pattern per field.",
     [WD, BF], [("InstructionWord properties", WD)],
     [("InstructionWord", "48-bit word with opcode, A, B, C fields", WD)], ["InstructionWord"])
prop("C11", "A control-memory register keeps its value, name and width",
     "A register can be created only with width 16 or 24, a value that fits and a known "
     "register name (or none); it reads back the last value stored, whole or by bit range, rejects values "
     "that do not fit without changing, and clearing makes it zero without affecting name or width.",
     ["inputs", "histories", "configurations"],
     "every int value, width, name and bit range, after any history",
     "Tests create registers with a handful of values.",
     [RG, BF], [("Register", RG)], [("Register", "16- or 24-bit register", RG)], ["Register"])
prop("C12", "Register groups address 32 isolated registers by number or name",
     "In a group, number n (0..31) and the n-th documented name denote the same register; storing to, "
     "replacing or clearing it changes no other register of the group; iteration yields the 32 "
     "registers in order, as often as asked; clearing the group zeroes every register. Unknown names "
     "and numbers outside 0..31 are rejected, and the name/number/alias translations are mutually "
     "inverse.",
     ["inputs", "histories", "configurations"],
     "every content of the 32 registers, every key (any int or str), every value",
     "Tests touch a few registers of a fresh group; isolation over arbitrary contents and rejection "
     "of every other key are not sampled.",
     [RG], [("RegisterGroup.__getitem__/__setitem__/__iter__/clear", RG),
            ("registerName/registerAlias/registerNumber", RG)],
     [("RegisterGroup", "32 registers of one width", RG)], ["RegisterGroup", "name maps"])
prop("C13", "The eight register groups are isolated from each other",
     "Control memory consists of eight groups of 32 registers of one width; a store or clear in "
     "one group is visible there and nowhere else; clearing the whole zeroes all 256 "
     "registers; a group number outside 0..7 is rejected; iteration over a fresh control memory yields "
     "the eight groups in order.",
     ["inputs", "histories", "configurations"],
     "every content of the 256 registers, every group, register and value",
     "Tests write one register; shared or swapped registers show only for particular pairs.",
     [RG], [("Registers", RG)], [("Registers", "8 groups of 32 registers", RG)], ["Registers"])

EXTRA = os.path.join(HERE, "catalog_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

NOTE = ("Deductive: every obligation generated from /repo's current source (outcome, result, state "
        "= representation of the view the contract prescribes, frame) is discharged for all inputs "
        "in the stated domains; callers are checked against callee contracts, which are proved in "
        "the same run. Trusts the VC generator in pyvc, z3 and the contracts in specs/.")
TECH = ("contract-based deductive verification: VC generation from the real Python source, z3, "
        "modular over class contracts; counter-models replayed natively")


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("level", "note", "technique")}
            f.write(json.dumps(q) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'",
         "checks": [], "not_applicable": NOT_APPLICABLE,
         "notes": "See DESIGN.md. known-findings.txt lists the repaired defects and the one known "
                  "finding."}
    for p in P:
        if p["id"] in na:
            continue
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3-vt check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"] or TECH,
            "level": p["level"], "level_note": p["note"] or NOTE})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
