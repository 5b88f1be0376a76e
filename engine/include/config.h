/* what /repo's configure finds in this sandbox (no dependence on a configured build directory) */
#define HAVE_CFITSIO 1
#define HAVE_DLFCN_H 1
#define HAVE_FITSIO_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_MPI 1
#define HAVE_OPENMP 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "libconviqt"
#define PACKAGE_BUGREPORT "https://github.com/hpc4cmb/libconviqt/issues"
#define PACKAGE_NAME "libconviqt"
#define PACKAGE_STRING "libconviqt 1.2.7"
#define PACKAGE_TARNAME "libconviqt"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.2.7"
#define STDC_HEADERS 1
#define VERSION "1.2.7"
