#ifndef MINI_MERCURY_HASH_TABLE_H
#define MINI_MERCURY_HASH_TABLE_H
#endif
