/* Replaces lib/log.c: messages are dropped (or printed with MC_LOG=1). RRR_BUG still aborts. */
#include <stdarg.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
struct rrr_event_queue;
#include "lib/log.h"
const char *rrr_default_log_prefix = "mc";
static int on = -1;
unsigned long long mc_log_messages;
static int en (void) { if (on < 0) on = getenv("MC_LOG") != NULL; return on; }
#define OUT(p) do { mc_log_messages++; if (en()) { va_list ap_; va_start(ap_, p); vfprintf(stderr, p, ap_); va_end(ap_); } } while (0)
int rrr_log_init (void) { return 0; }
void rrr_log_cleanup (void) {}
void rrr_log_hook_register (int *handle, void (*log)(RRR_LOG_HOOK_ARGS), void *a, struct rrr_event_queue *q) { (void)(log); (void)(a); (void)(q); *handle = 1; }
void rrr_log_hook_unregister_all_after_fork (void) {}
void rrr_log_hook_unregister (int handle) { (void)(handle); }
void rrr_log_hooks_call_raw (const char *file, int line, uint8_t a, uint8_t b, uint32_t f, const char *p, const char *m) { }
void rrr_log_printf_nolock (const char *file, int line, uint8_t a, uint8_t b, const char *prefix, const char *__restrict __format, ...) { OUT(__format); }
void rrr_log_print_nolock (const char *file, int line, uint8_t a, uint8_t b, const char *prefix, const char *message, int is_json, int add_newline) { mc_log_messages++; if (en()) fprintf(stderr, "%s\n", message); }
void rrr_log_printf_plain (const char *__restrict __format, ...) { OUT(__format); }
void rrr_log_printn_plain (const char *value, unsigned long long n) { if (en()) fwrite(value, 1, (size_t) n, stderr); }
void rrr_log_printf (const char *file, int line, uint8_t l, const char *prefix, const char *__restrict __format, ...) { OUT(__format); }
void rrr_log_vprintf (const char *file, int line, uint8_t l, const char *prefix, const char *__restrict __format, va_list ap) { mc_log_messages++; if (en()) vfprintf(stderr, __format, ap); }
void rrr_log_fprintf (FILE *f, const char *file, int line, uint8_t l, const char *prefix, const char *__restrict __format, ...) { va_list ap; va_start(ap, __format); vfprintf(stderr, __format, ap); va_end(ap); }
void rrr_log_print_json (const char *file, int line, uint8_t l, const char *prefix, const char *message, const char *json) { mc_log_messages++; if (en()) fprintf(stderr, "%s%s\n", message, json); }
int rrr_log_socket_connect (const char *s) { return 0; }
int rrr_log_socket_fd_get (void) { return 0; }
void rrr_log_socket_flush_and_close (void) {}
void rrr_log_socket_after_fork (void) {}
void rrr_log_socket_after_thread (void) {}
void rrr_log_socket_ping_or_flush (void) {}
void rrr_profiling_dump (void) {}
