#ifndef MINI_MERCURY_CONFIG_H
#define MINI_MERCURY_CONFIG_H
#define HG_VERSION_MAJOR 2
#define HG_VERSION_MINOR 2
#define HG_VERSION_PATCH 0
#ifndef HG_FALLTHROUGH
#define HG_FALLTHROUGH() __attribute__((__fallthrough__))
#endif
#endif
