// The queue's second implementation (selected by __MINGW32__) is compiled here under its own name.
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <vector>
#define __MINGW32__ 1
#define block_queue block_queue_mingw
#include "base/block_queue.h"
struct mq_item { int v; };
template class learnlog::base::block_queue_mingw<mq_item>;
