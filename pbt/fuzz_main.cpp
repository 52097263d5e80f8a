// libFuzzer entry: the input bytes are the choices.
#include <unistd.h>
#include <fcntl.h>
#include <cstdlib>
#include <exception>
#include "engine.h"

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=0:quarantine_size_mb=16:malloc_context_size=4";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1"; }

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  pbt::Src src(data, size);
  pbt::Case c(src, 0);
  if (pbt::PROPERTY.huge > 0) c.huge = src.flag(false);
  try {
    pbt::PROPERTY.run(c);
  } catch (const pbt::Fail &f) {
    fprintf(stderr, "PROPERTY FAILED: %s\n", f.msg.c_str());
    abort();
  } catch (const std::exception &e) {
    fprintf(stderr, "UNEXPECTED EXCEPTION: %s\n", e.what());
    abort();
  }
  return 0;
}
