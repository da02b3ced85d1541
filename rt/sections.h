#pragma clang section bss="vfbss" data="vfdata"
