#pragma clang section bss="lbss" data="ldata"
