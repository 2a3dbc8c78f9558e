#pragma once
extern int *__errno_location(void);
#define errno (*__errno_location())
#define EINTR 4
#define EAGAIN 11
#define EIO 5
