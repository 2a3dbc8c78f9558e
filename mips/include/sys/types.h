#pragma once
typedef long ssize_t;
typedef long off_t;
