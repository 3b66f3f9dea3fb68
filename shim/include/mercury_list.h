#ifndef MINI_MERCURY_LIST_H
#define MINI_MERCURY_LIST_H
#endif
