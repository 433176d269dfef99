"""Abstract interpretation of the compiled reader (src/avb/_ext_core.cpp through clang's AST and
src/avb/_ext.pyx through Cython's parser).  Nothing is built or run."""
