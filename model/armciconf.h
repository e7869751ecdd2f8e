/* Verification build configuration.  Mirrors what /repo's configure produces in
 * this sandbox (see /opt/vp/build.sh), minus backtrace support.  Variants are
 * selected by the harness with -D (VP_PTHREADS, VP_NO_WEAK). */
#ifndef _ARMCICONF_H_
#define _ARMCICONF_H_
#define ENABLE_PROGRESS 1
#define HAVE_ERRNO_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_MACRO_VA_ARGS 1
#ifdef VP_PTHREADS
#define HAVE_PTHREADS 1
#define HAVE_NANOSLEEP 1
#define HAVE_USLEEP 1
#endif
#ifndef VP_NO_WEAK
#define VP_HAVE_WEAK 1   /* HAVE_PRAGMA_WEAK deliberately left off: aliases are linker-level */
#endif
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TIME_H 1
#define HAVE_UNISTD_H 1
#define HAVE__FUNCTION__ /**/
#define HAVE__FUNC__ /**/
#define PACKAGE "armci"
#define PACKAGE_VERSION "0.1"
#define STDC_HEADERS 1
#define VERSION "0.1"
#endif
