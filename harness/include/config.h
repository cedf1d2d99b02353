#define HAVE_ARPA_INET_H 1
#define HAVE_BOOST /**/
#define HAVE_BOOST_IOSTREAMS /**/
#define HAVE_BOOST_LOG /**/
#define HAVE_BOOST_PROGRAM_OPTIONS /**/
#define HAVE_BOOST_REGEX /**/
#define HAVE_BOOST_SYSTEM /**/
#define HAVE_BOOST_UNIT_TEST_FRAMEWORK /**/
#define HAVE_C_VARARRAYS 1
#define HAVE_DLFCN_H 1
#define HAVE_FFI_CALL 1
#define HAVE_ICONV 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBINTL_H 1
#define HAVE_LIBUNISTRING 1
#define HAVE_LIBZ 1
#define HAVE_MALLOC 1
#define HAVE_MEMSET 1
#define HAVE_PTRDIFF_T 1
#define HAVE_REALLOC 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRDUP 1
#define HAVE_STRERROR 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE__BOOL 1
#define ICONV_CONST 
#define LT_OBJDIR ".libs/"
#define PACKAGE "scribbu"
#define PACKAGE_BUGREPORT "sp1ff@pobox.com"
#define PACKAGE_NAME "scribbu"
#define PACKAGE_STRING "scribbu 0.7.1"
#define PACKAGE_TARNAME "scribbu"
#define PACKAGE_URL "https://github.com/sp1ff/scribbu"
#define PACKAGE_VERSION "0.7.1"
#define STDC_HEADERS 1
#define VERSION "0.7.1"
#define YYTEXT_POINTER 1
#define restrict __restrict__
