/* Build configuration used by the verification harness when it compiles
 * /repo's sources itself (mirrors what ./configure produces here). */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define ENABLE_NLS 1
#define GETTEXT_PACKAGE "libmypaint-2.0"
#define HAVE_BIND_TEXTDOMAIN_CODESET 1
#define HAVE_DCGETTEXT 1
#define HAVE_DLFCN_H 1
#define HAVE_GETTEXT 1
#define HAVE_INTTYPES_H 1
#define HAVE_LC_MESSAGES 1
#define HAVE_LOCALE_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define LT_OBJDIR ".libs/"
#define MYPAINT_CONFIG_USE_GLIB 1
#define PACKAGE_BUGREPORT "https://github.com/mypaint/libmypaint/issues"
#define PACKAGE_NAME "libmypaint"
#define PACKAGE_STRING "libmypaint 2.0.0-beta"
#define PACKAGE_TARNAME "libmypaint"
#define PACKAGE_URL "https://github.com/mypaint/libmypaint"
#define PACKAGE_VERSION "2.0.0-beta"
#define STDC_HEADERS 1
#endif
