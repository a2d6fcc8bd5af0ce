/* Stand-in for the config.h written by configure: same features as the product build. */
#define ENABLE_FACTORIZATION 1
#define ENABLE_PLUGIN 1
#ifndef VERIF_NO_PYTHON
#define ENABLE_PYTHON 1
#endif
#define PACKAGE "hnco"
#define PACKAGE_NAME "hnco"
#define PACKAGE_STRING "hnco 0.26"
#define PACKAGE_VERSION "0.26"
#define VERSION "0.26"
