// Included before anything else in every translation unit of /repo/src and of the harnesses.
// The only change made to sparrow: what happens after a SPARROW_ASSERT fails (normally: print, raise
// SIGTRAP, abort).  The condition itself is sparrow's own.
#pragma once
#ifdef __cplusplus
extern "C" [[noreturn]] void __sx_contract(const char* file, int line, const char* msg);
#define SPARROW_CONTRACTS_ON_FAILURE(expr__, message__) ::__sx_contract(__FILE__, __LINE__, message__)
#endif
