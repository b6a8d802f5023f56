"""C03: CRC-32 is exact for every split, alignment and implementation."""
ID = "C03"
HARNESS = "c03"
LEVEL = "exploration"
RULE = ("one case = generated data cut into generated blocks (also empty) at generated alignments through one CPU implementation, plus one combination of its two halves and "
        "one combination with a generated 32-bit length, compared with a bitwise reference; non-trivial when the data is not empty")
QUICK, THOROUGH = 600000, 20000000
FUZZ = 120
