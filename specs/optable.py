"""The documented command codes (table of the reference manual as given in the
header of instructions.py): mnemonic -> (type, bits 2-3, bit 7, bits 8-12)."""

TABLE = {
    "BA":     ('maskable', 0b10, 1, 0o11),
    "DA":     ('maskable', 0b10, 1, 0o01),
    "WA":     ('maskable', 0b10, 1, 0o15),
    "BS":     ('maskable', 0b10, 1, 0o31),
    "DS":     ('maskable', 0b10, 1, 0o21),
    "WD":     ('maskable', 0b10, 1, 0o35),
    "NA":     ('maskable', 0b10, 1, 0o14),
    "NN":     ('maskable', 0b10, 1, 0o10),
    "LA":     ('maskable', 0b10, 1, 0o34),
    "LN":     ('maskable', 0b10, 1, 0o30),
    "TX":     ('maskable', 0b10, 1, 0o20),
    "TS":     ('maskable', 0b10, 1, 0o04),
    "HA":     ('maskable', 0b10, 1, 0o25),
    "SM":     ('maskable', 0b10, 1, 0o05),
    "CP":     ('maskable', 0b10, 1, 0o24),
    "BM":     ('unmasked', 0b00, 0, 0o13),
    "DM":     ('unmasked', 0b00, 0, 0o03),
    "BT":     ('unmasked', 0b10, 0, 0o13),
    "DT":     ('unmasked', 0b10, 0, 0o03),
    "MT":     ('unmasked', 0b00, 0, 0o20),
    "TN":     ('unmasked', 0b01, 0, 0o20),
    "CC":     ('unmasked', 0b01, 0, 0o10),
    "IT":     ('unmasked', 0b01, 0, 0o30),
    "EBA":    ('unmasked', 0b11, 0, 0o13),
    "EBS":    ('unmasked', 0b11, 0, 0o33),
    "RT":     ('unmasked', 0b11, 0, 0o30),
    "MPC":    ('unmasked', 0b10, 0, 0o00),
    "PR":     ('proceed', 0b00, 0, 0o00),
    "SWS":    ('unmasked', 0b10, 0, 0o06),
    "SPS":    ('unmasked', 0b10, 0, 0o02),
    "SWE":    ('unmasked', 0b10, 0, 0o16),
    "SPE":    ('unmasked', 0b10, 0, 0o12),
    "SSL":    ('unmasked', 0b10, 0, 0o26),
    "SS":     ('unmasked', 0b00, 0, 0o06),
    "EX":     ('unmasked', 0b00, 0, 0o16),
    "RF":     ('peripheral', None, 1, 0o32),
    "RB":     ('peripheral', None, 1, 0o12),
    "WF":     ('peripheral', None, 1, 0o16),
    "RW":     ('peripheral', None, 1, 0o02),
    "PRA":    ('print', None, 1, 0o06),
    "PRD":    ('print', None, 1, 0o06),
    "PRO":    ('print', None, 1, 0o06),
    "S":      ('simulator', None, None, 0o07),
    "FBA":    ('unmasked', 0b01, 0, 0o01),
    "FDA":    ('unmasked', 0b01, 0, 0o21),
    "FBS":    ('unmasked', 0b01, 0, 0o11),
    "FDS":    ('unmasked', 0b01, 0, 0o31),
    "FBD":    ('unmasked', 0b01, 0, 0o05),
    "FDD":    ('unmasked', 0b01, 0, 0o25),
    "FBAU":   ('unmasked', 0b11, 0, 0o01),
    "FDAU":   ('unmasked', 0b11, 0, 0o21),
    "FBSU":   ('unmasked', 0b11, 0, 0o11),
    "FDSU":   ('unmasked', 0b11, 0, 0o31),
    "FBM":    ('unmasked', 0b11, 0, 0o05),
    "FDM":    ('unmasked', 0b11, 0, 0o25),
    "ULD":    ('unmasked', 0b11, 0, 0o15),
    "FBAE":   ('unmasked', 0b00, 0, 0o01),
    "FBSE":   ('unmasked', 0b00, 0, 0o11),
    "BD":     ('unmasked', 0b00, 0, 0o05),
    "DD":     ('unmasked', 0b00, 0, 0o25),
    "FFN":    ('unmasked', 0b00, 0, 0o15),
    "FCON":   ('unmasked', 0b00, 0, 0o35),
    "FLN":    ('unmasked', 0b00, 0, 0o30),
    "FNN":    ('unmasked', 0b10, 0, 0o14),
}

# mnemonic -> name of the class that encodes it
CLASSES = {
    "BA": "BinaryAdd",
    "DA": "DecimalAdd",
    "WA": "WordAdd",
    "BS": "BinarySubtract",
    "DS": "DecimalSubtract",
    "WD": "WordDifference",
    "NA": "NotEqualAlphabetic",
    "NN": "NotEqualNumeric",
    "LA": "LessThanOrEqualAlphabetic",
    "LN": "LessThanOrEqualNumeric",
    "TX": "Transfer",
    "TS": "TransferChangeSequence",
    "HA": "HalfAdd",
    "SM": "Superimpose",
    "CP": "CheckParity",
    "BM": "BinaryMultiply",
    "DM": "DecimalMultiply",
    "BT": "BinaryAccumulate",
    "DT": "DecimalAccumulate",
    "MT": "MultipleTransfer",
    "TN": "TransferNWords",
    "CC": "ComputeOrthocount",
    "IT": "ItemTransfer",
    "EBA": "ExtendedBinaryAdd",
    "EBS": "ExtendedBinarySubtract",
    "RT": "RecordTransfer",
    "MPC": "ControlProgram",
    "PR": "Proceed",
    "SWS": "ShiftWordAndSubstitute",
    "SPS": "ShiftPreservingSignAndSubstitute",
    "SWE": "ShiftWordAndExtract",
    "SPE": "ShiftPreservingSignAndExtract",
    "SSL": "ShiftAndSelect",
    "SS": "Substitute",
    "EX": "Extract",
    "RF": "ReadForward",
    "RB": "ReadBackward",
    "WF": "WriteForward",
    "RW": "Rewind",
    "PRA": "PrintAlphabetic",
    "PRD": "PrintDecimal",
    "PRO": "PrintOctal",
    "S": "Simulator",
    "FBA": "FloatingBinaryAdd",
    "FDA": "FloatingDecimalAdd",
    "FBS": "FloatingBinarySubtract",
    "FDS": "FloatingDecimalSubtract",
    "FBD": "FloatingBinaryDivide",
    "FDD": "FloatingDecimalDivide",
    "FBAU": "FloatingBinaryAddUnnormalized",
    "FDAU": "FloatingDecimalAddUnnormalized",
    "FBSU": "FloatingBinarySubtractUnnormalized",
    "FDSU": "FloatingDecimalSubtractUnnormalized",
    "FBM": "FloatingBinaryMultiply",
    "FDM": "FloatingDecimalMultiply",
    "ULD": "MultipleUnload",
    "FBAE": "FloatingBinaryAddExtendedPrecision",
    "FBSE": "FloatingBinarySubtractExtendedPrecision",
    "BD": "FixedBinaryDivide",
    "DD": "FixedDecimalDivide",
    "FFN": "FixedToFloatingNormalize",
    "FCON": "Conversion",
    "FLN": "FloatingLessThanNormalized",
    "FNN": "FloatingNotEqualNormalized",
}

# class of each constant -> mnemonic
CONSTANTS = {
    "AlphanumericConstant": "ALF",
    "DecimalConstant": "DEC",
    "ExtendedBinaryConstant": "EBC",
    "FloatingBinaryConstant": "FLBIN",
    "FloatingDecimalConstant": "FLDEC",
    "FixedBinaryConstant": "FXBIN",
    "OctalConstant": "OCT",
    "SpecialAddressConstant": "SPEC",
    "CompleteAddressConstant": "CAC",
    "MaskBaseAddressConstant": "MASKBASE",
    "ProgramControlConstant": "CONTROL",
    "MixedConstant": "M",
    "TapeAddressConstant": "TAC",
    "LinkageConstant": "LINK",
    "SegmentNameConstant": "SEGNAME",
    "SubroutineCallConstant": "SUBCALL",
}

# mnemonics that encode no machine instruction
PSEUDO = ['ASSIGN',
          'END',
          'EQUALS',
          'EVEN',
          'MASKGRP',
          'MODLOC',
          'RESERVE',
          'SETLOC',
          'SIMULATE',
          'TAS',
          'ALF',
          'DEC',
          'EBC',
          'FLBIN',
          'FLDEC',
          'FXBIN',
          'OCT',
          'SPEC',
          'CAC',
          'MASKBASE',
          'CONTROL',
          'M',
          'TAC',
          'LINK',
          'SEGNAME',
          'SUBCALL',
          'CSCON',
          'DOFF',
          'DON',
          'SCON',
          'SPCR',
          'STOP',
          'COREDUMP',
          'DUMP',
          'ARGUS',
          'U',
          'MACRODEF',
          'FINIS',
          'ELIMSEG',
          'SEGMENT',
          'PROGRAM',
          'TESTDATA',
          'ELIMDATA',
          'ELIMDERL',
          'DELETE',
          'ENDARGUS']
