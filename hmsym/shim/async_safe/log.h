/* stand-in for bionic's header */
#ifdef __cplusplus
extern "C"
#endif
_Noreturn void async_safe_fatal(const char *fmt, ...);
