/* configuration used by the verification builds: the autotools result for this
   sandbox; SSL is only enabled by the harnesses that model it */
#define HAVE_ASSERT_H 1
#define HAVE_EPOLL 1
#define HAVE_GETADDRINFO 1
#define HAVE_GETNAMEINFO 1
#define HAVE_IP6 1
#define HAVE_LIBPCRE 1
#define HAVE_PCRE_H 1
#define HAVE_LIBPTHREAD 1
#ifdef VF_SSL
#define HAVE_LIBSSL 1
#define HAVE_LIBCRYPTO 1
#define HAVE_OPENSSL_SSL_H 1
#endif
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HOST_OS "linux-gnu"
#define PACKAGE "viriatum"
#define VERSION "1.0.0"
#ifndef VF_CONFIG_ROOT
#define VF_CONFIG_ROOT "/usr/local/etc/viriatum"
#endif
#define WITH_CONFIG_ROOT VF_CONFIG_ROOT
#define WITH_MODULE_ROOT "/usr/local/lib/viriatum/modules"
#define WITH_PREFIX "/usr/local"
#ifndef VF_WWW
#define VF_WWW "/var/viriatum/www"
#endif
#ifndef VF_WWW
#define VF_WWW "/var/viriatum/www"
#endif
#define WITH_WWW_ROOT VF_WWW
