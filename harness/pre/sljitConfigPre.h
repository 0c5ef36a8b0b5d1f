/* Routes the memory requests of the code under test through the harness. */
#ifdef __cplusplus
extern "C" {
#endif
extern void *vt_malloc(unsigned long size, void *data);
extern void vt_free(void *ptr, void *data);
extern int vt_exec_ok(unsigned long size, void *data);
extern void *vt_exec_got(void *ptr);
extern void vt_exec_freed(void *ptr);
#ifdef __cplusplus
}
#endif
#define SLJIT_MALLOC(size, allocator_data) vt_malloc((size), (allocator_data))
#define SLJIT_FREE(ptr, allocator_data) vt_free((ptr), (allocator_data))
#define SLJIT_MALLOC_EXEC(size, exec_allocator_data) (vt_exec_ok((size), (exec_allocator_data)) ? vt_exec_got(SLJIT_BUILTIN_MALLOC_EXEC((size), (exec_allocator_data))) : NULL)
#define SLJIT_FREE_EXEC(ptr, exec_allocator_data) (vt_exec_freed((ptr)), SLJIT_BUILTIN_FREE_EXEC((ptr), (exec_allocator_data)))
