// assert() that throws, so that a harness can observe a rejected call.
#ifdef __cplusplus
#ifndef VERIF_SHIM_ASSERT
#define VERIF_SHIM_ASSERT
struct assert_failed {};
#endif
#undef assert
#define assert(e) ((e) ? (void)0 : throw assert_failed())
#endif
