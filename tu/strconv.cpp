// instantiates the real conversion templates of /repo for every supported width
#include <cachelot/common.h>
#include <cachelot/string_conv.h>
using namespace cachelot;
#define INST(T) template size_t cachelot::int_to_str<T, char *>(T, char *) noexcept; \
                template T cachelot::str_to_int<T, const char *>(const char *, const char *, error_code &) noexcept;
INST(int8) INST(int16) INST(int32) INST(int64) INST(uint8) INST(uint16) INST(uint32) INST(uint64)
