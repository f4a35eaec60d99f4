#define DBG 1
#define DEBUG 1
#define ByteBuffer ByteBuffer_checked
#define NoCopyByteBuffer NoCopyByteBuffer_checked
#include "b02.hpp"
