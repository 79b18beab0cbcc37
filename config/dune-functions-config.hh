
#ifndef DUNE_FUNCTIONS_CONFIG_HH
#define DUNE_FUNCTIONS_CONFIG_HH

/* Define to 1 if you have module dune-functions available */
#ifndef HAVE_DUNE_FUNCTIONS
#define HAVE_DUNE_FUNCTIONS 1
#endif





/* Define to the version of dune-functions */
#define DUNE_FUNCTIONS_VERSION "2.12-git"

/* Define to the major version of dune-functions */
#define DUNE_FUNCTIONS_VERSION_MAJOR 2

/* Define to the minor version of dune-functions */
#define DUNE_FUNCTIONS_VERSION_MINOR 12

/* Define to the revision of dune-functions */
#define DUNE_FUNCTIONS_VERSION_REVISION 0





#if __has_include(<dune-localfunctions-config.hh>)
  #include <dune-localfunctions-config.hh>
#endif

#if __has_include(<dune-grid-config.hh>)
  #include <dune-grid-config.hh>
#endif

#if __has_include(<dune-istl-config.hh>)
  #include <dune-istl-config.hh>
#endif


#endif // DUNE_FUNCTIONS_CONFIG_HH


#ifndef DUNE_FUNCTIONS_CONFIG_BOTTOM_HH
#define DUNE_FUNCTIONS_CONFIG_BOTTOM_HH



#endif // DUNE_FUNCTIONS_CONFIG_BOTTOM_HH
