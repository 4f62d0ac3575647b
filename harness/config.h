/* Configuration used by the checks: as configured in the sandbox, without Python. */
#define ENABLE_FACTORIZATION 1
#define ENABLE_PLUGIN 1
#define HAVE_LIBGMP 1
#define HAVE_LIBGMPXX 1
#define HAVE_GMP_H 1
#define HAVE_OMP_H 1
#define PACKAGE "hnco"
#define PACKAGE_STRING "hnco 0.26"
#define PACKAGE_NAME "hnco"
#define PACKAGE_VERSION "0.26"
#define VERSION "0.26"
