#include <bfdev/config.h>
#include <bfdev/base64.h>
#include <bfdev/base32.h>
#include <bfdev/ascii85.h>
size_t v_base64_el(size_t n) { return bfdev_base64_encode_length(n); }
size_t v_base64_dl(size_t n) { return bfdev_base64_decode_length(n); }
size_t v_base32_el(size_t n) { return bfdev_base32_encode_length(n); }
size_t v_base32_dl(size_t n) { return bfdev_base32_decode_length(n); }
size_t v_ascii85_el(size_t n) { return bfdev_ascii85_encode_length(n); }
