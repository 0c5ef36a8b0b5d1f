/* Executable memory is provided by the harness: each block ends at an inaccessible page. */
#ifdef __cplusplus
extern "C" {
#endif
extern void *vt_exec_alloc(unsigned long size);
extern void vt_exec_release(void *ptr);
#ifdef __cplusplus
}
#endif
#define SLJIT_MALLOC_EXEC(size, exec_allocator_data) vt_exec_alloc((size))
#define SLJIT_FREE_EXEC(ptr, exec_allocator_data) vt_exec_release((ptr))
