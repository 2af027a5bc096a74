
NOT_APPLICABLE = []

IST = [("Instruction", "a 12-bit command code built from an operation-code record", IN)]
prop("C14", "Every command code has the documented 12-bit layout",
     "For every operation-code record and every combination of legal arguments, the command code has the "
     "sequence bit in bit 1; a mask in bits 2-6 with bit 7 taken from the record (masked form); otherwise "
     "bits 2-3 of the record, the A, B and C activity bits in bits 4, 5 and 6, and bit 7 zero unless the "
     "instruction is a peripheral or print instruction; a peripheral address in bits 1-6; and the 5-bit "
     "operation code in bits 8-12. Omitted arguments contribute zeros, and one instruction object never "
     "affects another.",
     ["inputs", "configurations"],
     "every record (bits 2-3, bit 7, op 0..31, instruction type) and every legal argument combination",
     "The tests build codes of the existing mnemonics with a few argument values each.",
     [IN, BF], [("Instruction.__init__ and its field placement", IN)], IST,
     ["value of Instruction(opcode, ...)"])
prop("C15", "Each mnemonic produces the documented command code",
     "For each mnemonic of the instruction set (general masked/unmasked, inherent mask, scientific, "
     "peripheral, print, simulator, proceed), its class yields exactly the code of the Programmers' "
     "Reference Manual for every legal combination of sequence bit, mask, A/B/C activity and peripheral "
     "address, whether arguments are passed by name or position.",
     ["inputs", "configurations"],
     "every mnemonic and every legal argument combination",
     "The tests assert a few argument combinations per mnemonic; hundreds of others "
     "(e.g. one mask of one instruction) are not sampled.",
     [IS, IN], [("the instruction classes and the OPCODES table", IS)], IST,
     ["value of every instruction class"])
prop("C16", "Illegal instruction arguments are rejected",
     "Flags other than 0/1, masks outside 0..31, peripheral addresses outside 0..63, a mask on an "
     "instruction that is not maskable, a mask together with A/B/C, a peripheral address together "
     "with sequence, mask, A, B or C (zero values included), and operation-code records whose fields do "
     "not fit are rejected with ValueError; no code is produced for them.",
     ["inputs", "configurations"],
     "every int argument of every class, all argument combinations",
     "Tests try only a few illegal values.",
     [IN, IS], [("Instruction._check", IN)], IST, ["construction of an instruction"])
prop("C17", "The numeric opcode helpers agree with the instruction classes",
     "The numeric helpers for masked, unmasked, peripheral and print codes return, for "
     "every mnemonic of their kind and all legal arguments, the same code as the instruction class; "
     "no code is shared by two mnemonics except the documented aliases (FNN = unmasked NA; "
     "PRA = PRD = PRO); a string is recognised as an instruction exactly when it is a known mnemonic or "
     "pseudo mnemonic.",
     ["inputs", "configurations"],
     "every mnemonic, every legal argument combination, every string",
     "Tests compare a few codes; uniqueness over the whole code space is never tested.",
     [IS], [("make_*_opcode, OPCODES, INSTRUCTIONS", IS)], IST,
     ["make_*_opcode", "membership in INSTRUCTIONS"])
prop("C18", "Constant pseudo-instructions hold exactly their 48-bit value",
     "Each constant class accepts exactly the values 0..2^48-1, reads back the given value, "
     "and can be updated to another 48-bit value; anything else is rejected with ValueError, and "
     "constants do not share storage.",
     ["inputs", "histories"],
     "every constant class and every int value",
     "Tests construct few constants with few values.",
     [IS, IN, WD], [("Constant and its subclasses", IN)],
     [("Constant", "a 48-bit data word", IN)], ["value of the constant classes"])

MST = [("MemoryBank", "2048 words of 48 bits", MM)]
prop("C08", "A memory bank word reads back what was last stored there",
     "A memory bank holds 2048 words of 48 bits, all zero when new. Storing a value 0..2^48-1 at an "
     "address 0..2047 makes that address read back that value and leaves every other word unchanged; "
     "an address outside 0..2047 or a value that does not fit is rejected and nothing changes; "
     "separate banks never share words. Its length is 2048 and its width 48.",
     ["inputs", "histories"],
     "every content of the 2048 words, every int address and value, after any history",
     "Tests store at a few addresses of a fresh bank; aliasing of two addresses, or damage to some "
     "other word, is not sampled.",
     [MM, WD], [("MemoryBank.__getitem__/__setitem__", MM)], MST, ["MemoryBank indexing", "len", "width"])
prop("C09", "Memory ranges, clearing and iteration cover exactly their words",
     "Reading a range a:b of a bank (half open, inside 0..2048) returns the words a..b-1 in order; "
     "storing a value to a range sets exactly those words; a rejected range store changes nothing; "
     "clearing zeroes all words; iterating yields all 2048 words in address order, every time, also when "
     "two iterations overlap, and changing a word reached by iteration changes the bank.",
     ["inputs", "histories"],
     "every content of the 2048 words, every range and value, any number of iterations",
     "Tests iterate once and read small ranges.",
     [MM, WD], [("MemoryBank.__getitem__/__setitem__ with ranges, clear, __iter__", MM)], MST,
     ["MemoryBank slicing", "clear()", "iteration"])
prop("C10", "The banks of a memory module are isolated and complete",
     "A memory module has 4 banks (an expansion module 8) of 2048 words each and reports those sizes; "
     "bank numbers outside the module are rejected; a range of banks yields those banks in order; "
     "a store, fill or clear in one bank is visible in that bank and in no other bank and no other "
     "module.",
     ["inputs", "histories", "configurations"],
     "every content of all banks, every bank number, address, range and value",
     "Tests write to one bank of a fresh module; banks sharing storage show only for particular "
     "pairs.",
     [MM], [("MemoryModule, ExpansionMemoryModule", MM)],
     [("MemoryModule", "4 or 8 banks of 2048 words", MM)], ["module indexing", "len", "size()"])
CST = [("PunchCard", "a line of text split into fields by column", PC)]
prop("C19", "A punch card splits every line at exactly its columns",
     "For every line and every increasing list of columns within the card width, field i is the text from "
     "its column up to the column before the next field (the last up to the card width); text past the width "
     "is in no field, and short lines give shorter or empty fields; the stripped field is that text "
     "without surrounding blanks, or None when blank; the record maps each field name to its stripped "
     "field, plus the line number when one is given. Line breaks are dropped from the stored line. A line that "
     "starts with # is a comment and has no fields.",
     ["inputs", "configurations"],
     "every line of text, every column list and width",
     "Tests split a few well-formed cards; boundaries, short, empty and over-long lines are not "
     "sampled.",
     [PC], [("PunchCard.__init__", PC)], CST, ["PunchCard attributes"])
prop("C20", "An ARGUS card carries its fields by name",
     "For every line that is not a comment, an ARGUS card exposes column 1, log number, column 8, label "
     "(location), operation, the three operands (addresses A, B, C), sequence and remarks as the "
     "stripped fields of columns 1, 2, 8, 9, 20, 33, 47, 61, 76 and 81, None when blank; the instruction is "
     "the operation up to its first comma, without surrounding blanks; P, R and L cards carry only remarks, which are the "
     "whole text from column 9 on, their other fields from the label to the sequence being None. File name and line "
     "number are as given.",
     ["inputs"],
     "every line of text",
     "Tests parse a few cards; combinations of blank fields, commas and card types are "
     "not sampled.",
     [AC, PC], [("Card.__init__", AC)], CST, ["Card attributes", "Card.record"])
prop("C21", "A deck has one card per line, in order",
     "A deck built from a list of lines has exactly one card for each line that is not a #-comment, "
     "in order, numbered by its position in the list counting from 1; its lines, fields, stripped "
     "fields and records are those of its cards, and its text is their lines joined by line breaks; an "
     "ARGUS deck's log section is the text of columns 9 to 81 of its first L card and that card's column 8, "
     "None without an L card. The given layout applies to every card; decks do not share state.",
     ["inputs"],
     "every list of lines",
     "Tests build one small deck.",
     [PC, AC], [("Deck.__init__", PC), ("Deck.__init__", AC)],
     [("Deck", "a sequence of cards", PC)], ["Deck attributes"])
prop("C22", "A deck read from files expands every include in place",
     "A deck read from a file has the cards of that file in order, each $-line replaced by the cards "
     "of the file it names (read the same way, to any depth), #-lines left out; every card carries the "
     "name of the file and the line number (counting from 1, all lines counted) it came from. A missing file "
     "ends the program with an error exit.",
     ["inputs"],
     "every tree of source files without include cycles",
     "Tests read one file with no nested includes.",
     [PC, AC], [("Deck._readSource", PC)], [("Deck", "a sequence of cards", PC)], ["Deck attributes"])
SST = [("symbol table", "name -> segment -> subsegment -> simple/complex -> definition", ST)]
prop("C23", "The symbol table records exactly the labels defined in the source",
     "Building the symbol table of a source file enters, for every labelled card that is not starred out in column 8 "
     "(in order), its label under the segment named by the file name before the first dot and the current "
     "subsegment (1 at the start, then the number given by the last SETLOC, 0 when it has none), as "
     "complex for ASSIGN and simple otherwise, with the file, line, log number, tag type and card; earlier "
     "definitions are kept. A second definition of the same symbol and kind there, an ill-formed label "
     "(lower case, more than one comma, unsupported tag type) and a label without an operation each count as one "
     "error and enter nothing; repeating an EQUALS with equal addresses is no error.",
     ["inputs", "histories"],
     "every source file tree and every table it is added to",
     "Tests build the table of a single example file.",
     [ST, AC], [("buildSymbolTable", ST)], SST, ["returned table and error count"])
prop("C24", "Symbol table queries report exactly the matching symbols",
     "For every symbol table, the absolute symbols are exactly the names with a simple definition, the check for "
     "complex-only symbols lists exactly the names with a complex and no simple definition (and nothing unless "
     "asked), exact lookup returns the entry of the name (when it has a definition of the requested kind) "
     "or None, and prefix or suffix lookup lists exactly the matching names; all lists are sorted and no query "
     "changes the table.",
     ["inputs"],
     "every table and every query",
     "Tests run few queries on one table.",
     [ST], [("checkSymbolTable, getAbsoluteSymbols, findSymbolDef", ST)], SST, ["query results"])
prop("C25", "The symbol table class defines each name once and tracks what is undefined",
     "Adding a non-empty new name creates an entry with the given value, type, file, line, segment and "
     "subsegment; adding it again or adding an empty name changes nothing; updating changes the value and "
     "type of an existing name only; names added without a value count as undefined until they have one and the "
     "undefined list is pruned (directly, or by resolving with at least one pass); lookup returns the entry or None; "
     "validity, absolute and complex reflect value and type; references accumulate in order per entry.",
     ["inputs", "histories"],
     "every history of operations on any table",
     "Tests exercise few single operations.",
     [ST], [("SymbolTable, SymbolTableEntry", ST)], SST, ["SymbolTable methods"])
prop("C26", "The printer character set maps every 6-bit code as documented",
     "The character set has exactly the 64 codes 0..63, each mapped to the character of the "
     "Programmers' Reference Manual's printer table; every letter and digit has exactly one code; other codes are rejected.",
     ["inputs"],
     "every code and every character",
     "Tests do not look at the character set.",
     [CS], [("CHARSET", CS)], [], ["CHARSET"])
