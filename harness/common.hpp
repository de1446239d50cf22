#pragma once
#include <cstddef>
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1 // instantiate std::string here instead of using the binary library
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <cmath>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <queue>
#include <deque>
#include <string>
#include <functional>
#include <algorithm>
#include <memory>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <atomic>
#include <stdexcept>
#include <limits>
#include <utility>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <random>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include "verif.h"
#include "rt.hpp"
#define private public
#define protected public
// give a vector an existing heap block as its storage (the vector must be empty and without storage)
template <class T> static inline void v_setvec(std::vector<T> &v, T *p, size_t n, size_t cap) { T **r = (T **)&v; r[0] = p; r[1] = p + n; r[2] = p + cap; }
