/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Year to place in Copyright notices printed with --version information */
#define COPYRIGHT_YEAR "2026"

/* Define to 1 if your Fortran compiler doesn't accept -c and -o together. */
/* #undef FC_NO_MINUS_C_MINUS_O */

/* Holds the 'git rev-parse HEAD' information if configure ran within a git
   working directory */
#define GIT_HEADHASH "48eb16691ab9447f653bd6fd7736e0a9c01e9b11"

/* Holds the 'git describe' information if configure ran within a git working
   directory */
#define GIT_REVISION "48eb166"

/* Define to 1 if your Fortran compiler supports cray pointers */
#define HAVE_CRAY_POINTER 1

/* Define to 1 if C11-style _Generic works. */
#define HAVE_C__GENERIC 1

/* Define to 1 if you have the `getrusage' function. */
#define HAVE_GETRUSAGE 1

/* Define to 1 if you have the `gettid' function. */
#define HAVE_GETTID 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if the type `long double' works and has more range or precision
   than `double'. */
/* #undef HAVE_LONG_DOUBLE_WIDER */

/* Define to 1 if you have MPI libs and headers. */
#define HAVE_MPI 1

/* Defined if you have netCDF Fortran support */
#define HAVE_NETCDFF 1

/* Define to 1 if you have the <openacc.h> header file. */
/* #undef HAVE_OPENACC_H */

/* Define to 1 if you have the `sched_getaffinity' function. */
#define HAVE_SCHED_GETAFFINITY 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Name of package */
#define PACKAGE "fre-nctools"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "https://github.com/NOAA-GFDL/FRE-NCtools/issues"

/* Define to the full name of this package. */
#define PACKAGE_NAME "FRE NCTools"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "FRE NCTools 2026.01"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "fre-nctools"

/* Define to the home page for this package. */
#define PACKAGE_URL "https://github.com/NOAA-GFDL/FRE-NCtools"

/* Define to the version of this package. */
#define PACKAGE_VERSION "2026.01"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "2026.01"
