// clang and gcc mangle the enable_if of dealii's SparseMatrix::vmult family
// differently; the installed library was built by gcc. Forward the names clang
// asks for. (Empty under gcc.)
#ifdef __clang__
#define FORWARD(N)                                                             \
  asm(".text\n.weak " N "3std7is_sameINT_10value_typeEdEE5valueEvE4typeERSA_"  \
      "RKSA_\n" N                                                              \
      "3std7is_sameINT_10value_typeEdEE5valueEvE4typeERSA_RKSA_:\n"            \
      "jmp " N "St7is_sameINT_10value_typeEdE5valueEvE4typeERSB_RKSB_@PLT\n");
#define NAME(F)                                                                \
  "_ZNK6dealii16TrilinosWrappers12SparseMatrix" F                              \
  "INS_13LinearAlgebra11distributed6VectorIdNS_11MemorySpace4HostEEEEENSt9"    \
  "enable_ifIXsr"
FORWARD(NAME("5vmult"))
FORWARD(NAME("6Tvmult"))
#endif
