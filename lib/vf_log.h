/* Assumed contracts of log.c for callers: the fatal reporters never return. vf_fatal records that one was taken. */
#ifndef VF_LOG_H
#define VF_LOG_H
#include "log.h"
#ifndef VF_ON_FATAL
#define VF_ON_FATAL(code) ((void) 0)
#endif
void akfatal2(const char *msg) { VF_ON_FATAL(-1); VF_END(); while (1); }
void _akfatal(const char *file, int line, int code, const char *fmt, ...) { VF_ON_FATAL(code); VF_END(); while (1); }
void _akfatal_va(const char *file, int line, int code, const char *fmt, va_list va) { VF_ON_FATAL(code); VF_END(); while (1); }
int _akerror(const char *file, int line, int code, const char *fmt, ...) { return code; }
void _akerror_va(const char *file, int line, int code, const char *fmt, va_list va) { }
void _akverbose(const char *file, int line, const char *fmt, ...) { }
void akinfo(const char *fmt, ...) { }
void akwarn(const char *fmt, ...) { }
#endif
