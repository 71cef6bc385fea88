# gdb script: prints "offset size count kind" for every scalar or scalar array of struct v_in
import gdb
def walk(t, off):
    t = t.strip_typedefs()
    if t.code == gdb.TYPE_CODE_STRUCT:
        for f in t.fields(): walk(f.type, off + f.bitpos // 8)
    elif t.code == gdb.TYPE_CODE_ARRAY:
        lo, hi = t.range(); e = t.target().strip_typedefs()
        if e.code in (gdb.TYPE_CODE_STRUCT, gdb.TYPE_CODE_ARRAY):
            for i in range(lo, hi + 1): walk(e, off + (i - lo) * e.sizeof)
        else: print("F", off, e.sizeof, hi - lo + 1, "b" if e.code == gdb.TYPE_CODE_BOOL else "i")
    else: print("F", off, t.sizeof, 1, "b" if t.code == gdb.TYPE_CODE_BOOL else "i")
walk(gdb.lookup_type("struct v_in"), 0)
