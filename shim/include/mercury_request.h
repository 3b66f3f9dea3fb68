#ifndef MINI_MERCURY_REQUEST_H
#define MINI_MERCURY_REQUEST_H
typedef struct hg_request hg_request_t;
#endif
