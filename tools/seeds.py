import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
I="interpreter/"
seed("C01-mul-round", "C01", [(I+"operators.c", "dfixp z = (dfixp)x * y >> FIXPOINT;", "dfixp z = (dfixp)x * y / INT_TO_FP(1);")],
 "a product that is negative and not a multiple of 1/4096", "products of negative numbers are rounded toward zero instead of down",
 '''int main(void){ struct ptc *p = run_code("A=-0.5\\rB=0.0013\\rC=A*B\\rD=A*0.5\\r"); T(!p->exec.error);
 T(NUM("D") == -1024); T(NUM("C") == (fixp)(((int64_t)NUM("A") * NUM("B")) >> 12)); return 0; }''')
seed("C01-sub-wrap", "C01", [(I+"operators.c", "dfixp z = (dfixp)x - y;", "dfixp z = x - (dfixp)(y < 0 ? -y : y) * (y < 0 ? -1 : 1);")],
 "the right operand is the most negative number", "subtracting -524288 wraps instead of being exact",
 '''int main(void){ struct ptc *p = run_code("A=-524287\\rA=A-1\\rB=-100-A\\r"); T(!p->exec.error); T(NUM("B") == 524188 * 4096); return 0; }''')
seed("C02-lex-tail", "C02", [(I+"strs.c", "int size = size_a < size_b ? size_a : size_b;", "int size = size_a < size_b ? size_a : size_b;\n\tif (size > 127) size = 127;")],
 "two strings that agree on their first 127 characters", "order of long strings ignores everything after character 127",
 '''int main(void){ struct ptc *p = run_code("A$=\\"A\\"*130\\rB$=A$+\\"B\\"\\rC$=A$+\\"C\\"\\rX=B$<C$\\r"); T(!p->exec.error); T(NUM("X") == 4096); return 0; }''')
seed("C03-minus-late", "C03", [(I+"strs.c", "} else if (!i && c == to_wide('-')){", "} else if (!number && c == to_wide('-')){")],
 "a minus sign after leading zeros", "VAL(\"0-5\") reads past the minus sign and gives -5 instead of 0",
 '''int main(void){ struct ptc *p = run_code("X=VAL(\\"0-5\\")\\rY=VAL(\\"-5\\")\\r"); T(!p->exec.error); T(NUM("Y") == -5 * 4096); T(NUM("X") == 0); return 0; }''')
seed("C04-mid-len", "C04", [(I+"strfuncs.c", "} else if (max_len <= len){\n\t\tlen = max_len;", "} else if (max_len <= len || len > 255){\n\t\tlen = max_len < 256 ? max_len : 255;")],
 "MID$ of all 256 characters of a full string", "the last character is dropped",
 '''int main(void){ struct ptc *p = run_code("A$=\\"ABCD\\"*64\\rB$=MID$(A$,0,256)\\rX=LEN(B$)\\rY=LEN(MID$(A$,1,300))\\r"); T(!p->exec.error); T(NUM("Y") == 255 << 12); T(NUM("X") == 256 << 12); return 0; }''')
seed("C04-instr-restart", "C04", [(I+"strfuncs.c", "i -= j; // go back by number of matched chars", "i -= j > 2 ? j - 1 : j; // go back by number of matched chars")],
 "the match starts inside a longer partial match", "INSTR misses a match that overlaps a failed partial match of three or more characters",
 '''int main(void){ struct ptc *p = run_code("X=INSTR(\\"AAAAB\\",\\"AAAB\\")\\rY=INSTR(\\"AABC\\",\\"AB\\")\\rZ=INSTR(\\"ABABABC\\",\\"ABABC\\")\\r"); T(!p->exec.error); T(NUM("Y") == 4096); T(NUM("X") == 4096); T(NUM("Z") == 8192); return 0; }''')
seed("C06-subst-order", "C06", [(I+"strfuncs.c", "	// Note: must be allocated here to ensure use count of str, repl are included\n	struct string* dest = get_new_str(&p->strs);\n", ""),
  (I+"strfuncs.c", "	int repl_len = str_len(repl);\n", "	int repl_len = str_len(repl);\n	struct string* dest = get_new_str(&p->strs);\n")],
 "SUBST$ of a temporary string by a longer replacement", "the result is built in the storage of the operand still being read, so its tail is wrong",
 '''int main(void){ struct ptc *p = run_code("A$=\\"ABCDEFGHIJ\\"+\\"\\"\\rB$=SUBST$(MID$(A$,0,10),1,1,\\"xyz\\")\\r"); T(!p->exec.error); T(str_comp(STR("B"), "S\\014AxyzCDEFGHIJ")); return 0; }''')
seed("C06-release-wide", "C06", [(I+"operators.c", "		if (is_dyn_str(*dest)){", "		if (*dest != src && is_dyn_str(*dest)){")],
 "a variable assigned to itself", "A$=A$ takes one more hold on its string that is never given back, so storage leaks until none is left",
 '''int main(void){ struct ptc *p = run_code("A$=\\"Q\\"+\\"R\\"\\rFOR I=1 TO 5\\rA$=A$\\rNEXT\\r"); T(!p->exec.error); T(((struct string*)STR("A"))->uses == 1); return 0; }''')
