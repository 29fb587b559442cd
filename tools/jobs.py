"""Which harnesses decide which property, with which parameters (bounds)."""
import json, os
from itertools import product

def X(name, *dims, opt=""):
    """all combinations; a dimension is a list or a single value"""
    dims = [d if isinstance(d, (list, tuple, range)) else [d] for d in dims]
    return [name + (":" + ",".join(str(x) for x in c) if c else "") + opt for c in product(*dims)]

RGBA, CONSIST, SKIP, ENDCODE, UNKNOWN, UNLIM = 1, 2, 4, 8, 16, 32
IMG = [10, 15, 16, 20]          # prefixes inside of image data
NP = 33                         # prefixes, see harness/src/c01.rs
HEAD = [k for k in range(NP) if k not in IMG]

Q, T = {}, {}

Q["C01"] = (X("c01_stream", range(NP), 3, 0, 1, 2, 4) + X("c01_stream", [0, 1, 2], 2, 0, 0, 1, 3) + X("c01_stream", IMG, 2, 0, 3, 0, 2)
    + X("c01_decoder", [3, 5, 8, 9, 10, 12, 14, 15, 17, 18], 2, [0, RGBA | UNKNOWN | CONSIST, SKIP | ENDCODE], 100, 2)
    + X("c01_frames", range(NP), 3, [0, RGBA, SKIP, ENDCODE | UNKNOWN | CONSIST], [100, 1]) + X("c01_frames", [k for k in HEAD if k > 1 and k not in (9, 17)], [1, 2], [0, UNKNOWN], 100, 1) + X("c01_frames", 9, 1, [0, UNKNOWN], 100, 1)
    + X("c01_frame_decoder", 2, [0, RGBA, ENDCODE], [3, 9]) + X("c01_sizes", [0, 1]))
T["C01"] = (X("c01_stream", HEAD, 5, 0, [0, 1], [1, 2], 4) + X("c01_stream", IMG, 4, 0, 1, 2, 4)
    + X("c01_decoder", range(NP), 3, [0, RGBA, SKIP, ENDCODE, UNKNOWN | CONSIST | UNLIM], [100, 1], 3)
    + X("c01_frames", HEAD, 5, [0, RGBA, SKIP, ENDCODE, UNKNOWN, CONSIST, UNLIM], [100, 1]) + X("c01_frames", IMG, 4, [0, RGBA, SKIP, ENDCODE, UNLIM], [100, 1]))

Q["C02"] = (X("c02_raw", [k for k in range(NP) if k != 16], 2, [1, 2], 0) + X("c02_raw", [k for k in HEAD], 3, 1, 0) + X("c02_raw", [3, 6, 7, 11, 12, 21], 3, 1, 1)
    + X("c02_lzw", [2, 3, 8], 2, [255, 1], 1, 0) + X("c02_lzw", 8, 2, [255, 1], 2, 0) + X("c02_lzw", 2, 2, 255, 3, 1)
    + X("c02_rich", range(4), [0, 1, 3, 7], [0, 1]) + X("c02_reader", range(4), [0, SKIP], 0) + X("c02_reader", 2, [RGBA, ENDCODE, CONSIST], 0) + X("c02_reader", range(4), [RGBA, ENDCODE, CONSIST], 1)
    + X("c02_raw_reader", HEAD, 3, [0, UNKNOWN], 1) + X("c02_long", 300, [255, 100, 1], [0, SKIP]) + X("c02_long", 1500, [255, 100, 1], SKIP))
T["C02"] = (X("c02_raw", HEAD, [4, 5], [1, 2, 3], 0) + X("c02_raw", [10, 15, 20], 3, [1, 2, 3], 0) + X("c02_lzw", [1, 2, 3, 4, 7, 8, 11], 2, [255, 1], [1, 2, 3], [0, 1])
    + X("c02_rich", range(4), [2, 4, 5, 6, 11], [0, 1]) + X("c02_reader", range(4), [0, SKIP, RGBA, ENDCODE | RGBA, CONSIST | UNKNOWN], range(1, 20))
    + X("c02_raw_reader", HEAD, 4, [0, UNKNOWN, SKIP, CONSIST], [1, 2, 3]) + X("c02_long", [300, 1500, 5000], [255, 254, 100, 7, 1], [0, SKIP, RGBA]))

Q["C03"] = X("c03_screen", range(9), range(4)) + X("c03_magic") + X("c03_repeat", range(13))
T["C03"] = []
Q["C04"] = X("c04_frames", [1, 2], range(5)) + X("c04_frames", [1, 2], range(3), SKIP) + X("c04_frames", 2, [0, 1], [ENDCODE, UNKNOWN]) + X("c04_palette", range(1, 9))
T["C04"] = X("c04_frames", 3, range(5)) + X("c04_frames", 3, range(3), SKIP)

Q["C05"] = (X("c05_rows", [1, 2, 3], [1, 2, 3, 4, 5, 8, 9], [0, 1], 255, 2, 0) + X("c05_rows", 2, [3, 5], [0, 1], [1, 3], [3, 8], range(4)) + X("c05_rows", 3, 2, 0, 255, [1, 2, 4, 5, 6, 7, 8], 0)
    + X("c05_heights", [1, 3], [1, 17, 33], 16) + X("c05_heights", 1, [60, 124, 252, 508, 1020], 8) + X("c05_heights", 1, [2050, 5000, 65535], 1) + X("c05_heights", 1, 32767, 3)
    + X("c05_table", [2, 3], [3, 4], [255, 1]) + X("c05_table", 1, 4, 255)
    + ["c05_long:%s@settle=0" % x for x in ("7,5000,0,255", "2,5000,1,255", "4,5000,3,255", "1,5000,1,255", "11,5000,0,255", "8,5000,1,100", "8,5000,3,1", "7,5000,3,255", "5,5000,2,255")]
    + X("c05_blocks", 4, [2, 3]) + X("c05_clears", [2, 3], 3, 2, [255, 1]))
T["C05"] = (X("c05_rows", [1, 2, 4], range(1, 20), [0, 1], 255, [2, 8], [0, 1, 2, 3]) + X("c05_heights", [1, 2, 5], [1, 33, 65, 97, 129, 200], 32)
    + X("c05_table", [1, 2, 3, 4], [5], [255, 1]) + X("c05_table", 2, 6, 255)
    + ["c05_long:%d,%d,%d,%d@settle=0" % (m, n, p, s) for m in range(1, 12) for n in (600, 4200, 9000) for p in range(4) for s in (255, 1) if not (m >= 6 and p == 2)]
    + X("c05_blocks", [4, 6], [3, 4]) + X("c05_clears", [1, 2, 3, 4], [3, 4], 3, [255, 1]))

Q["C06"] = (X("c06_lookup", [0, 1], [0, 1], 2, 2, 1, 0, range(3)) + X("c06_lookup", [1, 2], [0, 2], 3, 2, 2, [0, 1], [0, 1]) + X("c06_frames", 2) + X("c06_big", [20], [10, 33], [0, 1]))
T["C06"] = X("c06_lookup", range(0, 9), [0, 1, 3, 8], [2, 4, 8], 2, 1, 0, range(3)) + X("c06_frames", 3) + X("c06_big", [100], [100, 257], [0, 1])

Q["C07"] = (X("c07_frame", [20, 40], [0, RGBA], range(3)) + X("c07_fit", [1, 7, 300], [1, 5], [0, RGBA], range(3)) + X("c07_any", [0, RGBA], range(3))
    + ["c07_default:7071,7071,1,0", "c07_default:10000,5001,0,0", "c07_default:3535,3536,1,1", "c07_default:3536,3536,0,1"]
    + X("c07_skip", [1, 3, 7], [0, 1, 3, 6, 8], [255, 2]) + X("c07_ext", [3, 9], [1, 3], [1, 3, 9]) + X("c07_unlimited")
    + X("c07_raw", HEAD, 3, [0, SKIP]))
T["C07"] = (X("c07_frame", [1, 5, 60, 100], [0, RGBA, CONSIST], range(3)) + X("c07_fit", [1, 2, 9, 100, 1000], [0, 1, 3, 64], [0, RGBA], range(3))
    + X("c07_skip", [1, 2, 5, 10, 300], [0, 1, 2, 5, 9, 10, 11, 299, 300, 301], [255, 1]) + X("c07_ext", [1, 5, 300], [1, 2, 4], [1, 2, 5, 100, 255]) + X("c07_raw", range(NP), 4, [0, RGBA, SKIP, UNKNOWN]))

Q["C08"] = (X("c08_short", [0, RGBA], [2], 1, 0, range(4), 1) + X("c08_short", 0, [2], 1, 1, range(4), 1) + X("c08_short", [0, RGBA], 2, 2, [0, 1], [3, 4, 6], [0, 1]) + X("c08_short", [0, RGBA], 1, 4, [0, 1], [0, 3, 4], 1) + X("c08_short", [0, RGBA], [0], [3], [0, 1], [0, 2], 1) + X("c08_short", [0, RGBA], [3], [0], [0, 1], [0, 2], 1) + X("c08_valid", 0, [1, 2, 3], [1, 2, 3, 5], [0, 1]) + X("c08_valid", [RGBA], 2, 2, [0, 1]) + X("c08_lzw", 0, [2, 3], [2, 3], [0, 1], [1, 2], 1) + X("c08_lzw", 0, [2, 3], [2, 3, 4], [0, 1], 3, [1, 2, 3]) + X("c08_lzw", ENDCODE, [2, 3], 2, 0, [1, 2, 3], 1)
    + X("c08_big", [0, RGBA], [30, 100], [9, 40], [0, 1], [2, 8]) + X("c08_stream", [2, 3], [1, 2], 3))
T["C08"] = (X("c08_valid", [RGBA], 3, 3, [0, 1]) + X("c08_lzw", [0, RGBA], [1, 2, 3, 8], 3, [0, 1], range(1, 4), [1, 2, 3]) + X("c08_big", [0, RGBA], [1, 7, 200], [1, 8, 100], [0, 1], [2, 7, 8]) + X("c08_stream", [2, 3, 5], [1, 2, 4], [3, 5]))

Q["C09"] = (X("c09_trunc", range(4), 0, range(5), 100) + X("c09_trunc", range(4), SKIP, [0, 1, 3], 100) + X("c09_trunc", range(4), [ENDCODE, UNKNOWN], [0, 1], 1)
    + X("c09_io", range(4), 0, range(5), [100]) + X("c09_io", range(4), SKIP, [0, 1, 3], [100]) + X("c09_io", [0, 2, 3], 0, [0, 1], 3)
    + X("c09_rest", range(4), [0, SKIP], [0, 1, 3], [100, 1], 3)
    + X("c09_short", [0, RGBA, ENDCODE], range(4), 2, [1, 2], 4, [0, 1], [0, 1]) + X("c09_control"))
T["C09"] = (X("c09_trunc", range(4), [0, ENDCODE, UNKNOWN, UNLIM], range(5), [1, 2, 3, 7]) + X("c09_trunc", range(4), SKIP, [0, 1, 3], [1, 2, 3, 7]) + X("c09_io", range(4), [0, ENDCODE], range(5), [1, 2, 100]) + X("c09_io", range(4), SKIP, [0, 1, 3], [1, 2])
    + X("c09_short", [0, RGBA, ENDCODE], range(4), [1, 3], [1, 3, 5], [6, 9], [0, 1], [0, 1]))

Q["C10"] = X("c10_same", range(8), [0, RGBA, SKIP], [0, 1, 2]) + X("c10_same", range(8), [ENDCODE, CONSIST, UNKNOWN], 0) + X("c10_resume", range(8), [0, SKIP], [100, 1]) + X("c10_raw", [2, 3], [0, UNKNOWN]) + X("c10_adapt", range(8), [0, SKIP], range(10)) + X("c10_adapt", range(8), [RGBA, ENDCODE, CONSIST, UNKNOWN], [0, 3])
T["C10"] = X("c10_resume", range(8), [0, SKIP, RGBA, ENDCODE], [1, 2, 3, 5]) + X("c10_raw", [4], [0, UNKNOWN, SKIP, RGBA])

Q["C11"] = X("c11_next", 0, range(8), [0, 1], [0, 1]) + X("c11_next", RGBA, range(8), 0, 0) + X("c11_next", 0, [0, 1, 2, 4], 0, 0, 1) + X("c11_next", ENDCODE, 0, 0, 0, [1, 2]) + X("c11_next", 0, range(8), 0, 0, [2, 4], [1, 3]) + X("c11_next", 0, [0, 1], [0, 1], 0, 0, 0, range(1, 16)) + X("c11_next", RGBA, 0, [0, 1], 0, 0, 0, [3, 5, 14]) + X("c11_skip", range(8), 2, range(3)) + X("c11_skip", range(8), [1, 8], [0, 1]) + X("c11_bulk", 0, [2, 8], [300, 3000], [255, 7], [0, 1, 100])
T["C11"] = X("c11_next", [0, RGBA, CONSIST], range(8), [0, 1], range(3)) + X("c11_bulk", 0, [2, 5, 8], [1000, 9000], [255, 100, 1], [0, 1, 50, 300])

Q["C12"] = (X("c12_valid", [0, 1], [0, 1], [1, 3, 100], [0, 2, 50]) + X("c12_valid", 2, 1, 100, [0, 4]) + X("c12_raw", range(NP), 2, [1, 100], [0, 3]) + X("c12_raw", HEAD, 3, 100, 3) + X("c12_frame", [1, 2, 5, 100]))
T["C12"] = X("c12_valid", [0, 1, 2], [1, 2], [1, 2, 100], [0, 1, 3, 50]) + X("c12_raw", HEAD, [4, 5], [1, 2, 100], [0, 3]) + X("c12_raw", IMG, 3, [1, 2, 100], [0, 1, 3])

Q["C13"] = (X("c13_calls", 1, 0, 8, [6, 0, 7, 3, 48], [0, 1]) + X("c13_calls", 2, 0, 2, [3, 6], 1)
    + X("c13_palette", [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256], [0, 2], [0, 1])
    + X("c13_history", range(13), [0, 3, 5]) + X("c13_blocks", [0, 1, 2, 254, 255, 256, 509, 510, 511, 765, 1000, 5000], [2, 11]) + X("c13_trailer", [0, 3, 6, 10]))
T["C13"] = (X("c13_calls", 2, 6, 8, 6, 0) + X("c13_calls", 2, 0, 8, [6, 768], [0, 1]) + X("c13_calls", 3, 0, 2, 6, 1) + X("c13_palette", range(257), [0, 1, 2], [0, 1]) + X("c13_history", range(13), range(8)) + X("c13_blocks", list(range(0, 30)) + list(range(240, 270)) + list(range(500, 520)) + list(range(760, 770)), [2, 7, 11]))

Q["C14"] = (X("c14_frames", [1, 2], range(3), [0, 1]) + X("c14_palette", [0, 1, 2, 3, 16, 17, 256], [0, 1, 3, 64, 65, 255, 256], 0) + X("c14_palette", [1, 2, 8, 100, 255], [2, 5, 17, 255], [1, 2]) + X("c14_size"))
T["C14"] = X("c14_frames", [3], range(3), [0, 1]) + X("c14_palette", [0, 1, 2, 5, 128, 129, 255, 256], range(0, 257, 5), [0, 1, 2])

Q["C15"] = (X("c15_any", 2, 1, 8, [0, 1]) + X("c15_any", 2, 2, 2, [0, 1]) + X("c15_any", [4], 2, 1, 0) + X("c15_any", 1, 1, 8, 0) + X("c15_any", 2, 1, 8, [0, 1], [2, 100], 0) + X("c15_any", 2, 1, 8, [0, 1], [0, 200], [1, 2, 5]) + X("c15_values", [1, 2, 3], [0, 1])
    + X("c15_long", 400, [2, 5, 200], 0, 1) + X("c15_long", 5000, [2, 16, 100], 1, 0) + X("c15_long", 5000, [4, 64], 3, 0) + X("c15_long", 120, [16, 100], [1, 3], 1) + X("c15_long", 6000, 16, 5, 1) + X("c15_long", 9000, 2, 4, 3) + X("c15_long", 6000, [2, 3, 250, 256], [2, 4, 5], 0) + X("c15_long", 30000, [256, 255, 129], [1, 2, 5], 0)
    + X("c15_seq", [2, 3], [0, 1]) + X("c15_extra", [1, 3, 300]) + X("c15_size", [1, 3, 100, 255, 256], [1, 2, 90]) + X("c15_size", [0, 5], [0]))
T["C15"] = (X("c15_any", 5, 1, 2, 0) + X("c15_any", 2, 2, 3, [0, 1]) + X("c15_any", [8], 1, 1, [0, 1]) + X("c15_values", 4, [0, 1]) + X("c15_long", 400, [2, 5, 200], 0, 2) + X("c15_long", [5000, 20000], [2, 16, 100], [1, 3], 2)
    + X("c15_long", [100000], [2, 7, 100, 255, 256], [0, 1, 2, 3, 4, 5], 0) + X("c15_seq", 4, [0, 1]) + X("c15_size", [1, 2, 1000, 65535], [1, 2, 60]))

Q["C16"] = (X("c16_write", range(8), 0) + X("c16_write", [0, 1, 4, 7], 2)
    + X("c16_read", [0, RGBA], [1, 2, 3], [1, 2, 3, 5], [0, 1], 2, [255, 1], 2, 0) + X("c16_read", [0, RGBA], [2, 10], [2, 30], [0, 1], [1, 3, 8], 100, 1, [0, 1])
    + X("c16_read", [ENDCODE, ENDCODE | RGBA], [1, 3], [2, 5], [0, 1], 2, [255, 1], 2, 0) + X("c16_decoder", range(8), [0, 1], [0, RGBA, ENDCODE, ENDCODE | RGBA]) + X("c16_damaged", [2, 3, 8], [1, 2], 2, [1, 2], [0, ENDCODE], [0, 1]) + X("c16_damaged", [2, 8], 2, 2, 1, RGBA, 0) + X("c16_damaged", [0, 1, 12], 1, 1, 1, 0, 0))
T["C16"] = (X("c16_read", [0, RGBA], [1, 3, 5, 40], [1, 2, 4, 7, 50], [0, 1], [2, 5, 11], [255, 3], 2, [0, 1]) + X("c16_damaged", [1, 2, 3, 4, 8], 3, [1, 2], [1, 2], [0, RGBA, ENDCODE], [0, 1]))

Q["C17"] = (X("c17_repeat", [0, 1, 2], [0, 2], range(3), [0, SKIP, RGBA], [100, 1]) + X("c17_bytes") + X("c17_label") + X("c17_raw", range(7), range(7)) + X("c17_split", [0, 1, 3, 5, 12], [1, 2, 3]) + X("c17_split", [255, 256, 300, 520], 2)
    + X("c17_back", range(3), range(7), [100, 1]) + X("c17_back", 3, 0, [100, 1, 2]) + X("c17_frames", range(3), range(7), [0, SKIP]))
T["C17"] = X("c17_repeat", 3, [1, 2], range(3), [0, UNKNOWN, ENDCODE], [1, 2, 3, 5]) + X("c17_split", [20, 30], [3, 4]) + X("c17_split", [600, 1000], 2) + X("c17_back", range(3), range(7), [2, 3, 5, 7, 254, 255, 256])

Q["C18"] = X("c18_global", 800) + X("c18_local", 780, [0, 1]) + X("c18_missing", [0, 1]) + X("c18_short", [0, 1, 2, 6, 12, 30, 97]) + X("c18_large", 65535, [65535, 1], [0, 10, 65534]) + X("c18_large", 300, 300, [90000, 89999, 90001]) + X("c18_large", [1, 2, 20], 2, [255, 256, 300, 5000, 70000]) + X("c18_large", [256, 65535], 256, [0, 65535]) + X("c18_code", range(6)) + X("c18_both", [0, 1])
T["C18"] = X("c18_global", 3000) + X("c18_local", 2000, [0, 1]) + X("c18_short", range(0, 65)) + X("c18_short", [255, 256, 1000, 65535]) + X("c18_large", [1000, 40000], [1, 500], [0, 999, 1000, 39999, 40000, 500000])

Q["C19"] = (X("c19_fail", [7, 5, 1], [0, 2, 3], [0, 1], [0, 6], [0, 1], 1000, 0) + X("c19_fail", 7, 5, 0, range(7), 0, 3, 0) + X("c19_fail", [1, 7], 5, [0, 1], [1], 0, [1, 2], 1) + X("c19_fail", [4, 6], 0, 0, 0, 0, [1000, 100], 0)
    + X("c19_short", [7, 5, 1, 0], [2, 3, 6], [1, 2, 1000], [0, 1]) + X("c19_short", 4, 3, [7, 255], [0, 1]) + X("c19_back", range(8)))
T["C19"] = X("c19_fail", range(8), range(8), [0, 1], [0, 1, 6], [0, 1], [1000, 5], [0, 1]) + X("c19_short", range(8), range(8), [1, 2, 3, 10, 254, 255, 256], [0, 1])

Q["C20"] = (X("c20_any", [1, 2, 3], 1, [3, 4], 0) + X("c20_any", 2, 2, [3, 4], [0, 1]) + X("c20_any", 1, 2, 4, [1, 10, 30]) + X("c20_any", [0, 3], 0, [3, 4], 0) + X("c20_any", 4, 1, [3, 4], 30)
    + X("c20_many", [5, 20], 1, [3, 4], 0) + X("c20_many", 12, 2, [3, 4], 0) + X("c20_many", 255, 1, 4, 1) + X("c20_many", 254, 3, 4, 1) + X("c20_many", [255, 256], [0, 4], 3, 1) + X("c20_many", [100, 255, 256], 0, [3, 4], 1) + X("c20_many", [255, 256], 0, [3, 4], 1, [100, 700]) + X("c20_many", [20, 255], 1, 4, 1, 300) + X("c20_many", [255], 1, 3, 1, 1000))
T["C20"] = X("c20_any", 5, 1, [3, 4], [0, 30]) + X("c20_any", 3, 2, 3, 0) + X("c20_many", range(100, 256, 12), 5, 4, 1) + X("c20_many", [20, 40, 80], 1, [3, 4], 0)

Q["C21"] = (X("c21_palette", [0, 1, 6, 12], [0, 1, 6, 767, 768, 769, 771, 1000]) + X("c21_indexed", [0, 1, 2, 6, 13, 36]) + X("c21_rgb", range(0, 13), range(4)) + X("c21_rgb", [24, 48, 49], range(4))
    + X("c21_large", 300, 300, [90000, 89999, 90001, 0]) + X("c21_large", 65535, 65535, [0, 1, 65535]) + X("c21_large", [65535, 256], [1, 256], [65535, 65536, 0]))
T["C21"] = X("c21_palette", [0, 2, 64, 255], range(750, 800)) + X("c21_indexed", range(100)) + X("c21_rgb", range(13, 101), range(4)) + X("c21_large", [1000, 65535], [0, 2, 100], [0, 1, 2000, 100000, 131070])

Q["C22"] = X("c22_any", [0, CONSIST, CONSIST | RGBA, CONSIST | SKIP, SKIP | ENDCODE], [0, 1], [0, 64, 128, 192]) + X("c22_read", [0, CONSIST, CONSIST | RGBA | ENDCODE], [0, 1, 2], [0, 1, 3], range(4)) + X("c22_read", CONSIST | SKIP, [0, 1, 2], [0, 1, 3], [0, 1, 3]) + X("c22_iter", [0, 1, 2], [1, 2])
T["C22"] = X("c22_any", [0, CONSIST, CONSIST | UNKNOWN | ENDCODE | UNLIM], 2, [0, 64, 128, 192]) + X("c22_read", [CONSIST, CONSIST | RGBA], [5, 40], [4, 8, 30], range(4))

Q["C23"] = (X("c23_reject", range(8), [0, SKIP, CONSIST | ENDCODE], [0, 1]) + X("c23_known", range(8))
    + X("c23_skip", range(8), range(8), 1, [0, SKIP], [1000], 0) + X("c23_skip", range(8), [1, 3, 6, 7], 2, [0, RGBA], 1, [1, 2]))
T["C23"] = X("c23_skip", range(8), range(8), [1, 2, 3], [0, ENDCODE, SKIP, CONSIST | RGBA], [1, 2, 5, 1000], range(3))

Q["C24"] = (X("c24_size", [0, SKIP, ENDCODE, RGBA], [0, 1], [0, 1]) + X("c24_frame_size", [0, ENDCODE, RGBA], range(4))
    + X("c24_end", [0, ENDCODE, ENDCODE | RGBA], [2, 8], 2, [1, 3], [6, 9], [0, 1], [255, 1, 4], range(4)) + X("c24_end", SKIP | ENDCODE, [2, 8], 2, [1, 3], [6, 9], [0, 1], [255, 1, 4], [0, 1, 3]) + X("c24_end", [0, ENDCODE], [1, 3, 5, 11], 3, 2, [6, 200], [0, 1], 100, [0, 1])
    + X("c24_end", [0, ENDCODE, ENDCODE | RGBA, ENDCODE | SKIP], [2, 8], 0, [0, 3], [0, 2], [0, 1], [255, 1], [0, 1, 3]) + X("c24_codes", [2, 8], [1, 2], 0, 1, [0, ENDCODE], [255, 1])
    + X("c24_frame_end", [0, RGBA], [2, 8], 2, [1, 3], [6, 9], [0, 1]) + X("c24_frame_end", [ENDCODE], [2, 8, 11], 2, [1, 3], [6, 9], 1)
    + X("c24_codes", [1, 2, 3, 4, 5, 6, 7, 8, 11], [1, 2], [1, 2], 1, [0, ENDCODE], 255) + X("c24_codes", [2, 3, 6], 3, 2, 2, [0, ENDCODE], [255, 1]) + X("c24_codes", [7, 8], 4, 3, 1, [0, ENDCODE], [255, 2]))
T["C24"] = X("c24_codes", [2, 3, 4, 8], [2, 3], [1, 2, 3], [1, 2], [0, ENDCODE], [255, 1]) + X("c24_codes", [3, 4, 5, 6, 7, 8, 11], [3, 4, 5], 2, 2, [0, ENDCODE], [255, 3]) + X("c24_end", [0, ENDCODE], range(1, 12), 3, [2, 7], [21, 300], [0, 1], [255, 3], range(4))

Q["C25"] = (X("c25_decode", range(33), 2, [0, ENDCODE | CONSIST, SKIP | UNKNOWN], [0, 1]) + X("c25_source", range(4), [0, RGBA | ENDCODE], [0, 1, 2]) + X("c25_source", range(4), SKIP, [0, 1]) + X("c25_sink", [0, 1, 2, 3, 5, 6, 7])
    + X("c25_refused", range(5)) + X("c25_from"))
T["C25"] = X("c25_decode", range(33), 3, [0, ENDCODE | CONSIST, SKIP | UNKNOWN], [0, 1]) + X("c25_decode", range(33), 2, [RGBA, CONSIST, UNLIM], [0, 1]) + X("c25_source", range(4), [ENDCODE, CONSIST, UNKNOWN], [0, 1, 2]) + X("c25_sink", 4)

# larger pictures of a few colours, long runs of one; frames after a frame refused or drained by other means
Q["C07"] = Q["C07"] + X("c07_history", [0, RGBA], 20, 20, range(4), [5, 9, 40], 5)
T["C07"] = T["C07"] + X("c07_history", [0, RGBA], [7, 30, 60], [20, 25], range(4), [3, 13, 50], [1, 9])
Q["C08"] = Q["C08"] + X("c08_plain", [0, RGBA], [40, 70], 40, [0, 1], range(4))
T["C08"] = T["C08"] + X("c08_plain", [0, RGBA], [1, 100, 255, 256, 1000], [41, 100, 257], [0, 1], range(4))
Q["C15"] = Q["C15"] + X("c15_plain", [71, 64], [71, 65], [1, 2, 3], [1, 3, 8], [0, 1])
T["C15"] = T["C15"] + X("c15_plain", [1, 100, 255, 256, 400], [65, 130, 300], [1, 2, 3, 5], [1, 2, 5, 8], [0, 1])

# things that only long data, many blocks or repeated use bring out
Q["C07"] = Q["C07"] + X("c07_blocks", [100, 2000], [1, 20], [0, 1])
Q["C11"] = Q["C11"] + X("c11_blocks", [0, ENDCODE], [1, 100, 300], [1, 200], [0, 2])
Q["C13"] = Q["C13"] + X("c13_blocks", [33150, 33151, 65535, 65536, 65790], 8)
Q["C15"] = Q["C15"] + X("c15_spot", 200, 200, [500, 1000], 0) + X("c15_spot", 200, 90, 500, 1) + X("c15_spot", [71, 300], 70, 900, [0, 1])
Q["C16"] = Q["C16"] + X("c16_reuse", [0, RGBA], 3, [3, 2, 6], [1, 5])
Q["C17"] = Q["C17"] + X("c17_split", [65279, 65280, 65281, 65535, 65536, 65537, 70000], 1)
T["C07"] = T["C07"] + X("c07_blocks", 10000, [1, 255], [0, 1])
T["C11"] = T["C11"] + X("c11_blocks", [0, ENDCODE], [2000, 20000], [1, 255], [0, 2])
T["C15"] = T["C15"] + X("c15_spot", [300, 256], 256, range(0, 1001, 100), [0, 1])
T["C16"] = T["C16"] + X("c16_reuse", [0, RGBA], [2, 8], range(1, 9, 2), [1, 2, 4, 8])

# Streams and call sequences whose structure is drawn from a seed; see harness/src/uni.rs. tools/seeds.json has those that take too long: more
# than 0.3 s (quick), 1 s (thorough).
SEEDS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.json")))
def U(name, first, count, *rest, per=20):
    slow = set(SEEDS.get(":".join(map(str, (name,) + rest)), ()))
    runs, a = [], first
    for s in range(first, first + count + 1):
        if s == first + count or s in slow or s - a == per:
            if s > a: runs.append((a, s - a))
            a = s + (s in slow)
    return [j for a, n in runs for j in X(name, a, n, *rest)]
META, INDEXED, COLOUR, READ, CODE, BLOCK, OUTSIDE, HEADER, NOERR, SIZES, PALETTE, FINAL, AFTER, ALL = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 1 << 20, 4095
# those with few enough paths
RAW = [
    0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 15, 17, 18, 19, 20, 21, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 47, 51, 52, 53, 54, 55, 56,
    57, 58, 60, 61, 62, 63, 64, 65, 66, 68, 69, 71, 72, 74, 75, 77, 78, 79, 80, 82, 83, 84, 85, 86, 87, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 100, 101, 103, 104, 105, 106, 107, 108,
    109, 110, 112, 113, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 129, 131, 133, 134, 135, 136, 137, 138, 141, 142, 143, 144, 146, 147, 149, 153, 154, 157, 158, 159,
    160, 163, 164, 165, 166, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 184, 186, 187, 188, 189, 190, 191, 192, 193, 194, 196, 197, 199, 200, 201, 203,
    204, 205, 206, 207, 209, 211, 212, 213, 214, 215, 217, 218, 219, 220, 221, 222, 223, 226, 228, 229, 230, 233, 234, 235, 237, 238, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250,
    251, 253, 254, 255, 256, 257, 258, 259, 261, 262, 263, 264, 265, 266, 267, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289,
    290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 324, 325, 326, 327, 328,
    329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 341, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 358, 359, 360, 361, 363, 364, 365, 366, 368, 369, 370,
    371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 384, 385, 386, 387, 389, 390, 391, 392, 393, 394, 395, 396, 398, 399
]
SPAN = 1600
UNI = {
    "C02": [("uni_split", 6)], "C03": [("uni_decode", HEADER | NOERR, 0, 0, 0, 0)], "C04": [("uni_decode", META | NOERR, 0, 0, 0, 0)],
    "C05": [("uni_decode", INDEXED, 0, 0, RGBA, 0)], "C06": [("uni_decode", COLOUR | PALETTE, 2, RGBA, 0, 0)],
    "C08": [("uni_decode", META | INDEXED | COLOUR | SIZES | NOERR | READ, 0, 0, 0, 0)], "C09": [("uni_decode", READ | NOERR | FINAL, 12, 0, 0, 0)],
    "C10": [("uni_iter", 6)], "C11": [("uni_decode", AFTER, 0, 0, 0, 0)], "C12": [("uni_events",)], "C13": [("uni_enc", 1)], "C14": [("uni_enc", 4)],
    "C15": [("uni_enc", 2)], "C16": [("uni_skip",), ("uni_enc", 16)], "C17": [("uni_enc", 8)], "C18": [("uni_enc", 32)],
    "C22": [("uni_decode", OUTSIDE | NOERR, 8, CONSIST, 0, 0)], "C23": [("uni_decode", ALL, 0, UNKNOWN, 0, 0), ("uni_decode", BLOCK | NOERR, 6, 0, UNKNOWN, 0)],
    "C24": [("uni_decode", CODE | NOERR | READ, 8, ENDCODE, 0, 0)],
}
FIRST = [(10000 * i + 5000 * k, p, l, k) for i, (p, l) in enumerate(sorted(UNI.items())) for k in range(len(l))]
FIRST += [(200000, "C07", [("uni_limit",)], 0), (210000, "C19", [("uni_fail",)], 0), (220000, "C11", [("uni_many",)], 0), (230000, "C13", [("uni_calls",)], 0)]
for a, p, l, k in FIRST:
    name, *rest = l[k]
    n = 400 if name in ("uni_enc", "uni_split") else SPAN // len(l)
    Q[p] = Q[p] + U(name, a, n, *rest, per=5 if name == "uni_many" else 20)
    T[p] = T[p] + U(name, a + n, SPAN - n, *rest, per=50)
Q["C01"] = Q["C01"] + X("uni_raw", RAW, 1, 1)
