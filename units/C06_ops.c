// C06: functions that create strings take storage nobody holds, while their operands are still held, and count holders exactly
//@unit left  mode=plain stub=get_new_str,str_copy_buf target=func_left functions=func_left,_func_substring fb=-DSMALL fbunwind=12 defs=-DKA=0 :: LEFT$ takes free storage and releases temporary operands
//@unit right mode=plain stub=get_new_str,str_copy_buf target=func_right functions=func_right,_func_substring fb=-DSMALL fbunwind=12 defs=-DKA=0 :: RIGHT$ takes free storage and releases temporary operands
//@unit mid   mode=plain stub=get_new_str,str_copy_buf target=func_mid functions=func_mid fb=-DSMALL fbunwind=12 defs=-DKA=0 :: MID$ takes free storage and releases temporary operands
//@unit subst mode=plain stub=get_new_str,str_copy_buf target=func_subst functions=func_subst cases=KA:0,KB:0:1 fb=-DSMALL fbunwind=20 :: SUBST$ takes free storage and releases temporary operands
//@unit add   mode=plain stub=get_new_str,str_copy_buf target=op_add functions=op_add,str_concat,str_copy,str_char_copy cases=KA:0:1,KB:0 fb=-DSMALL fbunwind=20 :: string + takes free storage and releases temporary operands
//@unit mult  mode=plain stub=get_new_str,str_concat target=op_mult functions=op_mult unwind=14 defs=-DMAXN=12,-DKA=0 fb=-DSMALL bounded=up_to_12_repetitions :: string * takes free storage and releases temporary operands
#include "C04_strings.c"
