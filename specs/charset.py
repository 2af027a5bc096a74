"""The high-speed-printer character set (PRM appendix E), built from its structure."""
CHARSET = {}
for _i in range(10):
    CHARSET[_i] = "0123456789"[_i]
for _i in range(9):
    CHARSET[17 + _i] = "ABCDEFGHI"[_i]
    CHARSET[33 + _i] = "JKLMNOPQR"[_i]
for _i in range(8):
    CHARSET[50 + _i] = "STUVWXYZ"[_i]
for _k, _c in {10: "'", 11: "=", 12: ":", 15: "&", 16: "+", 26: ";", 27: ".", 28: ")", 29: "%",
               30: "\u2588", 32: "-", 42: "#", 43: "$", 44: None, 45: '"', 49: "/", 58: "@",
               59: ",", 60: "(", 61: "\n"}.items():
    CHARSET[_k] = _c
for _k in (13, 14, 31, 46, 47, 48, 62, 63):
    CHARSET[_k] = " "
