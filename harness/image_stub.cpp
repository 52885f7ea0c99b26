// MSG_data_image.cpp needs the PublicDecompWT submodule, which this sandbox does
// not have; the repository's own build here leaves that file out as well.  These
// are the two symbols only that file defines.
#include <iostream>
#include <stdexcept>
#include <msat/hrit/MSG_HRIT.h>
void MSG_data_image_encoded::decode(MSG_data_image*) { throw std::runtime_error("wavelet decompression is not available"); }
std::ostream& operator<<(std::ostream& os, MSG_data_image&) { return os; }

// AddressSanitizer's interceptor of glob() mishandles GLOB_DOOFFS (it reads the reserved, null slots):
// go straight to the C library.
#include <dlfcn.h>
#include <glob.h>
extern "C" int glob(const char* pattern, int flags, int (*errfunc)(const char*, int), glob_t* g) {
  typedef int (*fn)(const char*, int, int (*)(const char*, int), glob_t*);
  static fn real = (fn)dlsym(dlopen("libc.so.6", RTLD_NOW | RTLD_NOLOAD), "glob");
  return real(pattern, flags, errfunc, g);
}
