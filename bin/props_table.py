DEFNOTE = ("Every obligation generated from the contracts of the listed functions is discharged by CBMC for all inputs allowed by the precondition, with all loops fully unwound "
           "(unwinding assertions). Units marked bounded in the evidence are bounded stand-ins. Trusts CBMC, the solver and the contract texts.")
NOTE = {}
NA = {}

prop("C01", "Number arithmetic is exact or reports an error",
 "For any two numbers, + - * / and % give the exact fixed-point result (product rounded down and quotient truncated to 1/4096, remainder with the sign of the left operand) or stop with Overflow when it is not representable, or Division by zero; they never crash or wrap. Unary minus, ABS, SGN, FLOOR, RAD, DEG and PI give the exact fixed-point value, and RND(n) is a whole number between 0 and n, n excluded. Nothing else in the interpreter's state changes.",
 "all pairs of 32-bit fixed-point values, literal or variable operands",
 "tests evaluate a few dozen expressions; overflow, sign and rounding boundaries need all 2^64 operand pairs",
 ["interpreter/operators.c", "interpreter/mathptc.c"], [("op_add, op_sub, op_mult, op_div, op_modulo, op_negate", "interpreter/operators.c"), ("func_abs, func_sgn, func_floor, func_rnd, func_rad, func_deg", "interpreter/mathptc.c")])

prop("C02", "Comparison and logic operators agree with the order of their operands",
 "On numbers == != < > <= >= give 1 exactly when the relation holds and 0 otherwise; on strings they follow the lexicographic order of the characters' Unicode codes, with a proper prefix smaller, whatever the storage form of each string. AND, OR, XOR and NOT act bitwise on the integer parts (rounded down), and ! gives 1 for zero and 0 otherwise.",
 "all number pairs, all pairs of strings up to 256 characters in every storage form",
 "tests compare a handful of values; order properties and mixed storage forms quantify over all pairs",
 ["interpreter/operators.c", "interpreter/strs.c"], [("op_equal..op_logical_not", "interpreter/operators.c"), ("str_comp, str_lex", "interpreter/strs.c")])

prop("C03", "Conversions between numbers and text are faithful",
 "Printing a number or STR$ gives its decimal form rounded to three places without trailing zeros, for every number; VAL, number literals and INPUT read the longest numeric prefix to the nearest lower 1/4096, so VAL(STR$(x)) differs from x by less than 0.001. HEX$ gives the two's complement digits of an in-range integer. No text makes a conversion crash or read or write outside its strings.",
 "all 2^32 numbers; all strings",
 "tests use a few literals; digits, carries and overlong texts need every number and every string",
 ["interpreter/strs.c", "interpreter/strfuncs.c"], [("fixp_to_char, str_to_number", "interpreter/strs.c"), ("func_val, func_str, func_hex", "interpreter/strfuncs.c")])

prop("C04", "String functions return exactly the characters they define",
 "LEN, LEFT$, RIGHT$, MID$, SUBST$, INSTR, ASC, CHR$, string + and string * return exactly the characters and lengths their definition gives for every string and every argument, or stop with Out of range, String too long or Out of memory. A result never exceeds 256 characters, the argument strings are not modified, and no character outside the strings is read or written.",
 "all strings up to 256 characters, all argument values",
 "tests use short strings and in-range arguments; the defects are at the 256-character limit and extreme arguments",
 ["interpreter/strfuncs.c", "interpreter/strs.c", "interpreter/operators.c"], [("func_left, func_right, func_mid, func_subst, func_instr", "interpreter/strfuncs.c"), ("str_concat, str_copy", "interpreter/strs.c")])

prop("C05", "Character set conversion is lossless",
 "Converting any of the 256 character codes to its Unicode form and back gives the same code, distinct codes have distinct Unicode forms, and converting text between the two storage forms preserves length and every character.",
 "all character codes, all texts up to 256 characters",
 "existing tests convert some texts; the tables have 256 entries and copying has any length and offset",
 ["interpreter/strs.c"], [("to_wide, to_char, str_copy_buf, str_copy", "interpreter/strs.c")])

prop("C06", "A string that is still referenced is never changed or reused",
 "While a string value is held by a variable, an array element or a pending operand, creating, assigning or combining other strings leaves its text unchanged, and new strings only ever take storage nobody holds. Assigning a string makes the variable read back the assigned text, and the former text's storage becomes reusable exactly when its last holder is gone. When no storage is left the program stops with Out of memory.",
 "all string-table states and all assignment histories (inductively, one operation from any consistent state)",
 "tests run short programs; sharing, reuse and exhaustion depend on the whole history of assignments",
 ["interpreter/strs.c", "interpreter/operators.c", "interpreter/stack.h"], [("get_new_str", "interpreter/strs.c"), ("op_assign, op_add", "interpreter/operators.c"), ("value_str", "interpreter/stack.h")],
 over=("inputs", "histories"), state=[("uses", "number of holders of a string", "interpreter/strs.h")])

prop("C07", "A variable name always reaches the same variable",
 "Looking up a name and type finds the variable created for exactly that name and type, or creates one that starts as 0 or empty text; different names, string and number variables, and array and plain variables are never confused, whatever other variables exist. When the table is full a new name is refused with an error and existing variables are untouched.",
 "all names up to 16 characters, all table contents",
 "tests use a few names; hash collisions, prefixes and a full table need all of them",
 ["interpreter/vars.c"], [("get_var, search_name_type", "interpreter/vars.c")], over=("inputs", "histories"))

prop("C08", "Array elements are separate storage inside their array",
 "DIM reserves as many elements as its dimensions say or stops with an error; each in-range index pair reaches its own element, distinct from all other elements of this and every other array, and any index outside the dimensions stops with Subscript out of range instead of touching memory. Elements start as 0 or empty text.",
 "all dimensions and all indices",
 "tests index a few small arrays; overflowing sizes and wrong index counts need all values",
 ["interpreter/arrays.c", "interpreter/vars.c"], [("get_new_arr, get_arr_entry", "interpreter/arrays.c")])

prop("C09", "Jumps and DATA pointers land where the label says",
 "GOTO, GOSUB, ON, IF and RESTORE with a label continue exactly at that label's place in the program, for every program and every label up to 16 characters; a label that does not exist stops with an error and never jumps. READ takes successive DATA items in program order and stops with Out of DATA at the end.",
 "all programs and labels", "tests use few labels; prefixes and label position need all programs",
 ["interpreter/label.c", "interpreter/flow.c", "interpreter/data.c"], [("search_label, find_label", "interpreter/label.c"), ("cmd_read, cmd_restore", "interpreter/data.c")], over=("inputs", "programs"))

prop("C10", "Loops and subroutines nest correctly",
 "RETURN continues after the most recent GOSUB that has not returned, discarding loops opened since; NEXT steps the innermost open loop (over its variable, if one is named) and either repeats its body or leaves it after the limit is passed, for every start, limit and step including negative and fractional ones. NEXT or RETURN without a partner, and nesting beyond the limit, stop with their error and never read or write outside the stack.",
 "all call-stack states, all loop bounds", "tests nest a few levels; under- and overflow and step signs need every stack",
 ["interpreter/flow.c"], [("cmd_for, cmd_next, cmd_gosub, cmd_return", "interpreter/flow.c")], over=("inputs", "histories"))

prop("C11", "The text console stays a 32 by 24 grid",
 "Printing any text from any cursor position writes each character with the current colour at the cursor, wraps at the right edge, scrolls up one line when it passes the bottom, and keeps the cursor on the grid (or just below its last line while a scroll is still due); CLS, COLOR and CHKCHR act on exactly the addressed cells or state, COLOR refuses colours outside 0 to 15, LOCATE to a place off the grid leaves the cursor, and CHKCHR off the grid gives -1. No cell outside the grid is read or written.",
 "all texts, cursor positions, tab sizes and colours", "tests print a few lines; wrap and scroll interact over all positions",
 ["subsystem/console.c"], [("con_put, con_puts, con_newline, con_scroll, cmd_locate, cmd_cls, func_chkchr", "subsystem/console.c")])

prop("C12", "Graphics commands touch exactly the addressed pixels",
 "GPSET, GLINE, GBOX, GFILL, GCLS, GCOPY, GPAINT, GCIRCLE and GPUTCHR change only pixels inside the 256 by 192 drawing page selected for drawing, and the pixel-exact ones change exactly the pixels their arguments name to the given colour; GSPOIT reads back the colour last written at a point. Different points are different storage, and out-of-page coordinates never read or write outside the page.",
 "all coordinates, colours and pages", "tests draw a few shapes; clipping at each edge needs all coordinates",
 ["subsystem/graphics.c"], [("grp_index, cmd_gpset, cmd_gfill, cmd_gbox, cmd_gcopy, cmd_gline, cmd_gcircle, cmd_gpaint", "subsystem/graphics.c")])

prop("C13", "Background maps keep their tiles",
 "BGPUT followed by BGREAD at the same place and layer gives back the same character, palette and flips, leaving every other tile unchanged; BGFILL and BGCLR set exactly the named rectangle or layer, BGCOPY copies a rectangle as it was before the copy, and BGOFS keeps each layer's offset in range. Out-of-range arguments stop with Out of range and no tile outside the 64 by 64 map is touched.",
 "all coordinates, layers and tile data", "tests place a few tiles; overlap and edges need all rectangles",
 ["subsystem/background.c"], [("bg_index, cmd_bgput, func_bgchk, cmd_bgfill, cmd_bgcopy, cmd_bgread", "subsystem/background.c")])

prop("C14", "Sprite commands affect only the sprite they name",
 "SPSET, SPOFS, SPCHR, SPANGLE, SPSCALE, SPCOL and SPSETV change exactly the addressed sprite of the current page, SPREAD and SPGETV read back what was set, and a timed movement, rotation or scaling reaches exactly its target after the given number of frames, independently of other sprites. Out-of-range numbers stop with Out of range and nothing outside the 100 sprites is touched.",
 "all sprite numbers, arguments and animation states", "tests set a few sprites; independence and timing quantify over all states",
 ["subsystem/sprites.c"], [("cmd_spset, cmd_spofs, cmd_spread, step_sprites", "subsystem/sprites.c")], over=("inputs", "histories"))

prop("C15", "Colours and character images survive a write and read",
 "COLSET followed by COLREAD, and CHRSET followed by CHRREAD, give back the same colour or image for every value, and change no other colour or character; malformed colour or image texts are refused with an error.",
 "all colours, characters and resource banks", "tests write a few values; nibble and bit order need all",
 ["subsystem/resources.c"], [("cmd_colset, cmd_colread, cmd_chrset, cmd_chrread", "subsystem/resources.c")])

prop("C16", "Only well-formed resource names are used, and they stay in the program folder",
 "A file or resource name given to LOAD, SAVE, DELETE, CHRINIT and the like is accepted only when it is a known type with a valid bank and page, and a name made of letters, digits and underscores, at most eight long; everything else stops with Illegal function call. So no name can reach a file outside the resource folders, and no resource access falls outside its memory.",
 "all name strings", "tests use valid names; rejection quantifies over all strings",
 ["subsystem/resources.c"], [("get_verified_resource_type, verify_resource_type, check_string_validity", "subsystem/resources.c")])

prop("C17", "Memory commands stay inside the addressable memory",
 "Every address a program can PEEK, POKE, copy or fill with the memory extension is either inside a mapped region of the virtual memory map or refused with an error, including all the bytes of a wide access; a value written reads back unchanged and other bytes stay as they were.",
 "all addresses, widths and lengths", "tests do not reach most addresses",
 ["extension/sbc_memory.c"], [("cmd_poke, func_peek, cmd_memcopy, cmd_memfill", "extension/sbc_memory.c")])

prop("C18", "Keys and buttons are delivered once and in order",
 "Keys typed come back from INKEY$ in the order typed, each once, until the buffer is full, and nothing is invented from an empty buffer. BUTTON and BTRIG report press, hold, release and repeat according to the button history, the repeat settings and nothing else.",
 "all buffer states and button histories", "tests press a few keys; wrap-around and repeat timing need histories",
 ["subsystem/input.c"], [("set_inkey, get_inkey, set_input, check_repeat", "subsystem/input.c")], over=("inputs", "histories"))

prop("C19", "SORT orders and keeps every element",
 "SORT and RSORT leave the given range in ascending or descending order and move the companion arrays in step; every element present before is present after, elements outside the range are untouched, and invalid ranges are refused. Sorting always terminates.",
 "all array contents and ranges", "tests sort a few arrays; order must hold for all contents",
 ["subsystem/variables.c", "interpreter/data.c"], [("cmd_sort, cmd_rsort, quick_sort", "interpreter/data.c")])

prop("C20", "Compressed data decompresses to the original",
 "Decompressing the compression of any data gives exactly the original bytes and length, and neither direction reads or writes outside its buffers, whatever the data.",
 "all byte sequences", "tests do not compress at all",
 ["extension/compress.c"], [("sbc_compress, sbc_decompress", "extension/compress.c")])

prop("C21", "Program text is compiled without escaping its buffers",
 "Number literals are compiled to the number they denote and run back as that number; names and strings are compiled to their exact characters; over-long numbers, names, strings and programs are refused with an error instead of corrupting memory.",
 "all program texts", "tests compile small valid programs",
 ["interpreter/tokens.c", "interpreter/runner.c"], [("tokenize, p_expr, add_token", "interpreter/tokens.c")], over=("inputs", "programs"))

prop("C22", "Dates and times are read exactly or refused",
 "DTREAD and TMREAD give exactly the numbers written in a well-formed date or time text and refuse every text that is not of that form or names an impossible date or time.",
 "all strings", "tests read a few texts", ["interpreter/data.c", "subsystem/variables.c"], [("cmd_dtread, cmd_tmread", "subsystem/variables.c")])

prop("C23", "Elementary functions are accurate",
 "SIN, COS, TAN, ATAN, EXP, LOG, SQR and POW return the true value to within 1/4096.", "all arguments",
 "tests sample a few arguments", ["interpreter/mathptc.c"], [("func_sin_internal and relatives", "interpreter/mathptc.c")])
NA["C23"] = "the results come from the C library's double-precision sin/log/pow, whose code and accuracy are outside any contract verifier here (CBMC has no transcendental reals); only their call sites could be specified"
prop("C24", "The render and audio threads never see torn state",
 "The picture and sound produced while a program runs correspond to states the program actually went through.", "all thread interleavings",
 "tests are single-threaded", ["system.c", "main.c"], [("display loop", "system.c")], over=("schedules",))
NA["C24"] = "the threads share the whole system structure without locks by design; C contract verification here (CBMC dfcc) is sequential and cannot express or decide interleavings"
